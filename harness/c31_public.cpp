// C31: the public entry points: valuation by simulation, model and product construction, generators, global date, repository.
#include "simref.hpp"
#include "mc.hpp"
#include <public/src/global.hpp>
#include <public/src/interp.hpp>
#include <public/src/models.hpp>
#include <public/src/random.hpp>
#include <public/src/repository.hpp>
#include <public/src/script.hpp>
#include <public/src/value.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/storage/_repository.hpp>
#include <climits>
#include <cstdarg>
using namespace simref;
#include "c31_head.inc"

namespace {
    const Date_ TODAY(2022, 6, 22);
    Tape_* s_tape;
    struct Init_ {
        Init_() {
            mc::g_init = [] {
                s_tape = new Tape_;
                Number_::SetTape(*s_tape);
                Dal::SetEvaluationDate(TODAY);
            };
            mc::g_caseCpuLimit = 300;
            mc::g_caseWallLimit = 300;
        }
    } s_init;
    const char* RSG[] = {"mrg32", "irn"};
    using Map_ = std::map<String_, double>;

    Handle_<ScriptProductData_> Product(const Prod_& p, const Date_& today = TODAY) {
        Vector_<Cell_> d;
        Vector_<String_> e;
        for (auto& r : p.rows) {
            if (r.days < 0)
                d.push_back(Cell_(String_(r.name)));
            else
                d.push_back(Cell_(today.AddDays(r.days)));
            e.push_back(r.text);
        }
        return NewScriptProduct(p.label, d, e);
    }
    Handle_<ModelData_> PublicModel(int kind) {
        if (kind == 0)
            return NewBSModelData("bs", 100.0, 0.15, 0.03, 0.01);
        Vector_<> s = {60.0, 90.0, 110.0, 150.0}, t = {0.1, 0.5};
        Matrix_<> v(4, 2);
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 2; ++j)
                v(i, j) = 0.3 - 0.04 * i + 0.02 * j;
        return NewDupireModelData("dup", 100.0, 0.03, 0.01, s, t, v);
    }
    std::vector<std::string> RiskNames(int model, const Prod_& p) {
        std::vector<std::string> r;
        if (model == 0)
            r = {"spot", "vol", "rate", "div"};
        else
            return {}; // named by grid position, not repeated here
        for (auto& row : p.rows)
            if (row.days < 0)
                r.push_back(row.name);
        return r;
    }
    struct Conf_ {
        int prod = 0, model = 0, n = 1, rsg = 0, bb = 0, aad = 0;
        double smooth = 0.01;
    };
    std::string Text(const Conf_& c) {
        char b[300];
        snprintf(b, sizeof b, "product '%s', model %s, %d paths, %s%s, %s, smoothing %g", Prods()[c.prod].label, c.model ? "local volatility" : "Black-Scholes", c.n, RSG[c.rsg], c.bb ? " with bridge" : "",
                 c.aad ? "with risks" : "value only", c.smooth);
        return b;
    }
    const Res_& Expected(const Conf_& c) {
        static std::map<std::vector<int>, Res_> cache;
        std::vector<int> key{c.prod, c.model, c.n, c.rsg, c.bb, c.aad, c.aad ? (int)std::lround(c.smooth * 1e6) : 0};
        auto it = cache.find(key);
        if (it == cache.end()) {
            auto p = Make(Prods()[c.prod], TODAY);
            const int nested = static_cast<int>(p.PreProcess(c.aad, false));
            it = cache.emplace(key, c.aad ? PlainAAD(p, Model(c.model), c.n, RSG[c.rsg], c.bb, false, nested, c.smooth) : Plain(p, Model(c.model), c.n, RSG[c.rsg], c.bb)).first;
        }
        return it->second;
    }
    void CheckValue(mc::Ctx_& x, const Conf_& c, const Handle_<ScriptProductData_>& prd, const Handle_<ModelData_>& md, const char* when) {
        const Res_& e = Expected(c);
        Map_ r = ValueByMonteCarlo(prd, md, c.n, RSG[c.rsg], c.bb, c.aad, c.smooth);
        x.Step();
        x.Outcome(mc::HashD(std::round(e.sum / c.n * 1e6), 7));
        if (!r.count("PV"))
            x.Fail("pv-missing", "%s%s: the result has no PV", when, Text(c).c_str());
        if (!Close(r["PV"], e.sum / c.n, e.sum / c.n))
            x.Fail("pv", "%s%s: PV is %.12g, the average over the same paths %.12g", when, Text(c).c_str(), r["PV"], e.sum / c.n);
        const size_t nRisks = c.aad ? e.risks.size() : 0;
        if (r.size() != 1 + nRisks)
            x.Fail("keys", "%s%s: %d results, expected PV and %d risks", when, Text(c).c_str(), (int)r.size(), (int)nRisks);
        if (c.aad) {
            std::vector<std::string> names = RiskNames(c.model, Prods()[c.prod]);
            if (names.empty()) {
                auto mdl = CreateModel<double>(Model(c.model));
                for (auto& l : mdl->ParameterLabels())
                    names.push_back(l.c_str());
                for (auto& row : Prods()[c.prod].rows)
                    if (row.days < 0)
                        names.push_back(row.name);
            }
            for (size_t j = 0; j < nRisks; ++j) {
                auto it = r.find(String_("d_" + names[j]));
                if (it == r.end())
                    x.Fail("risk-missing", "%s%s: there is no d_%s in the results", when, Text(c).c_str(), names[j].c_str());
                if (!Close(it->second, e.risks[j] / c.n, e.risks[j] / c.n))
                    x.Fail("risk", "%s%s: d_%s is %.12g, the average adjoint over the same paths is %.12g", when, Text(c).c_str(), names[j].c_str(), it->second, e.risks[j] / c.n);
            }
        }
        if (Number_::Tape() != s_tape)
            x.Fail("tape", "%s%s: the caller's tape was replaced", when, Text(c).c_str());
    }
} // namespace

MC_SECTION("valuation", "6 products x 2 models x 2 generators x bridge or not x value or risks x 4 path counts (8 thorough) x 2 smoothings (4): PV and every named risk against the plain average over the same paths", 4) {
    Conf_ c;
    c.prod = x.Choose((int)Prods().size(), "product");
    c.model = x.Choose(2, "model");
    c.rsg = x.Choose(2, "generator");
    c.bb = x.Choose(2, "bridge");
    c.aad = x.Choose(2, "risks");
    static const std::vector<int> N = {1, 2, 7, 1025}, NT = {1, 2, 3, 7, 100, 1024, 1025, 3000};
    c.n = x.thorough_ ? x.Pick(NT, "paths") : x.Pick(N, "paths");
    if (c.aad) {
        static const std::vector<double> E = {0.01, 2.0}, ET = {1e-6, 0.01, 0.5, 5.0};
        c.smooth = x.thorough_ ? x.Pick(ET, "smoothing") : x.Pick(E, "smoothing");
    }
    Seen(x, "%s", Text(c).c_str());
    CheckValue(x, c, Product(Prods()[c.prod]), PublicModel(c.model), "");
}

// with no volatility every path is the forward curve: values and risks in closed form
MC_SECTION("certain world", "all spots, rates, dividends and maturities of a grid, 6 payoffs, value or risks, Black-Scholes and a flat local volatility surface at zero volatility: value, and derivatives to spot, rate, dividend and strike, in closed form", 3) {
    static const std::vector<double> S = {80.0, 100.0, 133.5}, R = {0.0, 0.03, 0.11, -0.01}, Q = {0.0, 0.02, 0.09}, K = {70.0, 101.0, 150.0};
    static const std::vector<int> T = {1, 90, 365, 1000};
    const int model = x.Choose(2, "model");
    const int pay = x.Choose(6, "payoff");
    const int aad = x.Choose(2, "risks");
    const double s = x.Pick(S, "spot"), r = x.Pick(R, "rate"), q = x.Pick(Q, "dividend");
    const int days = x.Pick(T, "days");
    const double k = pay == 0 || pay == 5 ? K[0] : x.Pick(K, "strike");
    static const char* TEXT[] = {"x pays spot()",           "x pays MAX(spot() - K, 0.0)", "x pays MAX(K - spot(), 0.0)", "x = 0 if spot() >= K then x pays K else x pays spot() end", "x pays spot() * spot() / K",
                                 "x pays 12.5"};
    Vector_<Cell_> d;
    Vector_<String_> e;
    d.push_back(Cell_(String_("K")));
    char b[40];
    snprintf(b, sizeof b, "%.1f", k);
    e.push_back(b);
    d.push_back(Cell_(TODAY.AddDays(days)));
    e.push_back(TEXT[pay]);
    auto prd = NewScriptProduct("p", d, e);
    Handle_<ModelData_> md;
    if (model == 0)
        md = NewBSModelData("m", s, 0.0, r, q);
    else {
        Vector_<> gs = {50.0, 100.0, 200.0}, gt = {0.5, 2.0};
        Matrix_<> v(3, 2);
        v.Fill(0.0);
        md = NewDupireModelData("m", s, r, q, gs, gt, v);
    }
    Seen(x, "model %d '%s' spot %g rate %g dividend %g strike %g in %d days %s", model, TEXT[pay], s, r, q, k, days, aad ? "risks" : "value");
    const double t = days / 365.0, f = s * std::exp((r - q) * t), df = std::exp(-r * t);
    if (std::fabs(f - k) < 0.5 && pay != 0 && pay != 4 && pay != 5)
        throw mc::Prune_(); // on the kink
    double v = 0, vf = 0, vk = 0; // undiscounted payoff and its derivatives to the forward and to the strike
    switch (pay) {
    case 0: v = f, vf = 1; break;
    case 1: v = f > k ? f - k : 0, vf = f > k, vk = -(f > k); break;
    case 2: v = f < k ? k - f : 0, vf = -(f < k), vk = f < k; break;
    case 3: v = f >= k ? k : f, vf = f < k, vk = f >= k; break;
    case 4: v = f * f / k, vf = 2 * f / k, vk = -f * f / k / k; break;
    case 5: v = 12.5; break;
    }
    Map_ res = ValueByMonteCarlo(prd, md, 3, "mrg32", false, aad, 0.01);
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); };
    if (!near(res["PV"], v * df))
        x.Fail("certain-pv", "model %d '%s' spot %g rate %g dividend %g strike %g in %d days: PV %.12g, expected %.12g", model, TEXT[pay], s, r, q, k, days, res["PV"], v * df);
    if (aad) {
        auto risk = [&](const char* name, double expect) {
            auto it = res.find(String_(std::string("d_") + name));
            if (it == res.end())
                x.Fail("certain-risk-missing", "no d_%s among the results of model %d", name, model);
            if (!near(it->second, expect))
                x.Fail("certain-risk", "model %d '%s' spot %g rate %g dividend %g strike %g in %d days: d_%s %.12g, expected %.12g", model, TEXT[pay], s, r, q, k, days, name, it->second, expect);
        };
        risk("spot", vf * f / s * df);
        risk("rate", (vf * f * t - v * t) * df);
        risk(model ? "repo" : "div", -vf * f * t * df);
        if (pay != 0 && pay != 5)
            risk("K", vk * df);
    }
}

MC_SECTION("histories", "all sequences of 3 operations (4 thorough) out of 12 on shared handles: valuing four products with either model, with or without risks, printing a product, moving the evaluation date and back, drawing from a generator, failing valuations; every valuation as if alone", 2) {
    static const Handle_<ScriptProductData_> prd[4] = {Product(Prods()[0]), Product(Prods()[1]), Product(Prods()[2]), Product(Prods()[3])};
    static const Handle_<ModelData_> md[2] = {PublicModel(0), PublicModel(1)};
    const int depth = x.thorough_ ? 4 : 3;
    std::string hist;
    for (int k = 0; k < depth; ++k) {
        const int op = x.Choose(12, "operation");
        hist += " " + std::to_string(op);
        Conf_ c;
        c.n = 5;
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7:
            c.prod = op % 4 == 0 ? 0 : op % 4 == 1 ? 3 : op % 4 == 2 ? 1 : 2;
            c.aad = op / 4;
            c.model = op % 2;
            CheckValue(x, c, prd[c.prod], md[c.model], ("after" + hist + ": ").c_str());
            break;
        case 8: {
            const String_ a = DebugScriptProduct(prd[3]), b = DebugScriptProduct(Product(Prods()[3]));
            if (a != b)
                x.Fail("debug", "after%s: the product prints\n%s\nbut a fresh one\n%s", hist.c_str(), a.c_str(), b.c_str());
            break;
        }
        case 9: {
            Dal::SetEvaluationDate(TODAY.AddDays(10));
            (void)ValueByMonteCarlo(prd[3], md[0], 3, "mrg32", false, true, 0.01);
            if (Dal::GetEvaluationDate() != TODAY.AddDays(10))
                x.Fail("date", "after%s: the evaluation date is not the one set", hist.c_str());
            Dal::SetEvaluationDate(TODAY);
            break;
        }
        case 10:
            if (!Throws([&] { (void)ValueByMonteCarlo(prd[0], md[0], 5, "no such generator", false, true, 0.01); }))
                x.Fail("generator", "after%s: an unknown generator is accepted", hist.c_str());
            break;
        case 11: {
            auto bad = NewScriptProduct("bad", Vector_<Cell_>(1, Cell_(TODAY.AddDays(3))), Vector_<String_>(1, "x pays spot("));
            if (!Throws([&] { (void)ValueByMonteCarlo(bad, md[1], 5, "mrg32", false, false, 0.01); }))
                x.Fail("bad-script", "after%s: a script with an open bracket is accepted", hist.c_str());
            break;
        }
        }
    }
    Seen(x, "history%s", hist.c_str());
}

namespace {
    struct OtherData_ : ModelData_ {
        OtherData_() : ModelData_("OtherModelData_", "other") {}
        void Write(Archive::Store_&) const override {}
        ModelData_* MutantModel(const String_*, const Slide_*) const override { return new OtherData_; }
    };
} // namespace
MC_SECTION("refusals", "path counts -3..3 and the smallest integer, unknown models and generators, tables of unequal lengths, products with no event, no variable or only past events, each with and without risks: refused with an error, or valued; never a number that means nothing", 1) {
    const int what = x.Choose(8, "what");
    const int aad = x.Choose(2, "risks");
    Conf_ c;
    c.aad = aad;
    auto prd = Product(Prods()[0]);
    auto md = PublicModel(0);
    auto table = [](std::vector<std::pair<int, const char*>> rows) {
        Vector_<Cell_> d;
        Vector_<String_> e;
        for (auto& r : rows) {
            d.push_back(Cell_(TODAY.AddDays(r.first)));
            e.push_back(r.second);
        }
        return NewScriptProduct("p", d, e);
    };
    auto mustThrow = [&](const char* text, auto f) {
        Seen(x, "%s", text);
        if (!Throws(f))
            x.Fail("accepted", "%s (risks %d): accepted", text, aad);
    };
    switch (what) {
    case 0: {
        static const std::vector<int> N = {INT_MIN, -3, -2, -1, 0, 1, 2, 3};
        c.n = x.Pick(N, "paths");
        Seen(x, "%d paths", c.n);
        if (c.n > 0)
            CheckValue(x, c, prd, md, "");
        else
            mustThrow("a path count that is not positive", [&] { (void)ValueByMonteCarlo(prd, md, c.n, "mrg32", false, aad, 0.01); });
        break;
    }
    case 1: mustThrow("a model that is neither", [&] { (void)ValueByMonteCarlo(prd, Handle_<ModelData_>(new OtherData_), 2, "mrg32", false, aad, 0.01); }); break;
    case 2: mustThrow("more dates than events", [&] { (void)ValueByMonteCarlo(NewScriptProduct("p", Vector_<Cell_>(2, Cell_(TODAY.AddDays(3))), Vector_<String_>(1, "x pays 1")), md, 2, "mrg32", false, aad, 0.01); }); break;
    case 3: mustThrow("more events than dates", [&] { (void)ValueByMonteCarlo(NewScriptProduct("p", Vector_<Cell_>(1, Cell_(TODAY.AddDays(3))), Vector_<String_>(2, "x pays 1")), md, 2, "mrg32", false, aad, 0.01); }); break;
    case 4: mustThrow("a product with no events", [&] { (void)ValueByMonteCarlo(table({}), md, 2, "mrg32", false, aad, 0.01); }); break;
    case 5: mustThrow("a generator no one knows", [&] { (void)ValueByMonteCarlo(prd, md, 2, "mrg", false, aad, 0.01); }); break;
    case 6: {
        // everything has happened: worth what was received, or refused
        const int model = x.Choose(2, "model");
        Seen(x, "expired product, model %d", model);
        Map_ r;
        if (!Throws([&] { r = ValueByMonteCarlo(table({{-20, "x = 3"}, {-10, "x = x + 4"}}), PublicModel(model), 4, "mrg32", false, aad, 0.01); }) && std::fabs(r["PV"] - 7.0) > 1e-12)
            x.Fail("expired", "a product whose events have all passed, leaving 7, is worth %.12g", r["PV"]);
        break;
    }
    case 7: {
        // past statements count, whatever the model
        const int model = x.Choose(2, "model");
        const int when = x.Choose(3, "next event");
        Seen(x, "part past, model %d, next event %d", model, when);
        auto r = ValueByMonteCarlo(table({{-20, "y = 3"}, {-10, "y = y + 4"}, {when * 30, "x = y * 2"}}), PublicModel(model), 4, "mrg32", false, aad, 0.01);
        if (std::fabs(r["PV"] - 14.0) > 1e-12)
            x.Fail("part-past", "a product that has 7 from the past and doubles it is worth %.12g", r["PV"]);
        break;
    }
    }
}

MC_SECTION("generators", "2 generators x 3 seeds x dimensions 1..3 (5 thorough), every way of asking for up to 4 (6) rows in successive calls, uniforms or normals: rows are the successive points; two generators drawn in every interleaving never disturb each other", 3) {
    const int g = x.Choose(2, "generator");
    static const std::vector<int> SEED = {1, 2, 1024};
    const int seed = x.Pick(SEED, "seed");
    const int dim = 1 + x.Choose(x.thorough_ ? 5 : 3, "dimension");
    const bool normal = x.Flip("normal");
    const int total = x.thorough_ ? 6 : 4;
    // the points in order
    std::vector<std::vector<double>> pts;
    {
        std::unique_ptr<PseudoRandom_> ref(New(RNGType_(RSG[g]), seed, dim));
        for (int i = 0; i < total; ++i) {
            Vector_<> v(dim);
            if (normal)
                ref->FillNormal(&v);
            else
                ref->FillUniform(&v);
            pts.emplace_back(v.begin(), v.end());
        }
    }
    auto a = NewPseudoRSG(RSG[g], seed, dim), b = NewPseudoRSG(RSG[1 - g], seed + 1, dim);
    std::unique_ptr<PseudoRandom_> refb(New(RNGType_(RSG[1 - g]), seed + 1, dim));
    if ((int)a->NDim() != dim)
        x.Fail("dim", "a generator of %d dimensions says %d", dim, (int)a->NDim());
    int done = 0;
    std::string how;
    while (done < total) {
        const int k = x.Choose(total - done + 1, "rows"); // 0: the other generator draws a row
        how += " " + std::to_string(k);
        Matrix_<> m(1, 1);
        m(0, 0) = -99;
        const int rows = k ? k : 1;
        auto& f = k ? a : b;
        if (normal)
            GetPseudoRSGNormal(f, rows, &m);
        else
            GetPseudoRSGUniform(f, rows, &m);
        x.Step();
        if (m.Rows() != rows || m.Cols() != dim)
            x.Fail("shape", "asked for %d rows of %d, got %d x %d", rows, dim, (int)m.Rows(), (int)m.Cols());
        if (k == 0) {
            Vector_<> v(dim);
            if (normal)
                refb->FillNormal(&v);
            else
                refb->FillUniform(&v);
            for (int j = 0; j < dim; ++j)
                if (m(0, j) != v[j])
                    x.Fail("interleaved", "seed %d dimension %d rows%s: the second generator was disturbed", seed, dim, how.c_str());
            if (how.size() > 2u * total + 4)
                throw mc::Prune_();
        } else {
            for (int i = 0; i < rows; ++i)
                for (int j = 0; j < dim; ++j)
                    if (m(i, j) != pts[done + i][j])
                        x.Fail("rows", "generator %s seed %d dimension %d, rows asked for%s: entry (%d, %d) is %.17g, the successive point has %.17g", RSG[g], seed, dim, how.c_str(), i, j, m(i, j), pts[done + i][j]);
            done += rows;
        }
    }
    Seen(x, "%s seed %d dim %d %s rows%s", RSG[g], seed, dim, normal ? "normal" : "uniform", how.c_str());
}

MC_SECTION("repository", "all sequences of 4 (5 thorough) of adding one of 3 objects, finding, erasing lists of objects through the public functions: sizes, counts and lists as a set of live objects", 2) {
    ENV_SEED_TYPE(ObjectAccess_);
    auto repo = Environment::Find<ObjectAccess_>(_env);
    (void)repo->Erase("");
    static const std::vector<Handle_<Storable_>> obj = [] {
        std::vector<Handle_<Storable_>> r;
        for (auto n : {"apple", "pear", "plum"})
            r.push_back(handle_cast<Storable_>(Interp1NewLinear(n, Vector_<>{1.0, 2.0}, Vector_<>{3.0, 4.0})));
        return r;
    }();
    std::set<int> live;
    std::string hist;
    for (int k = 0; k < (x.thorough_ ? 5 : 4); ++k) {
        const int op = x.Choose(3 + 7, "operation");
        if (op < 3) {
            (void)repo->Add(obj[op], RepositoryErase_("NAME"));
            live.insert(op);
            hist += " add" + std::to_string(op);
        } else {
            const int mask = op - 2;
            Vector_<Handle_<Storable_>> list;
            int expect = 0;
            for (int i = 0; i < 3; ++i)
                if (mask >> i & 1) {
                    list.push_back(obj[i]);
                    expect += (int)live.erase(i);
                }
            hist += " erase" + std::to_string(mask);
            const int got = EraseRepository(list);
            if (got != expect)
                x.Fail("erased", "after%s: %d erased, expected %d", hist.c_str(), got, expect);
        }
        x.Step();
        if (SizeRepository() != (int)live.size())
            x.Fail("size", "after%s: size %d, expected %d", hist.c_str(), SizeRepository(), (int)live.size());
        std::set<int> found;
        for (auto& h : FindRepository("p")) {
            int which = -1;
            for (int i = 0; i < 3; ++i)
                if (h.get() == obj[i].get())
                    which = i;
            if (which < 0 || !found.insert(which).second)
                x.Fail("found", "after%s: a stranger or a duplicate is found", hist.c_str());
        }
        if (found != live)
            x.Fail("found", "after%s: %d found by pattern, %d live", hist.c_str(), (int)found.size(), (int)live.size());
    }
    Seen(x, "%s", hist.c_str());
    (void)repo->Erase("");
}

MC_SECTION("interpolators and dates", "all increasing abscissae of 2 or 3 points out of 5, all ordinates out of 3, 9 arguments: Interp1NewLinear interpolates and holds the ends; wrong sizes and orders refused; every evaluation date of a year reads back", 2) {
    static const std::vector<double> X = {-1.0, 0.0, 0.5, 2.0, 7.0}, Y = {-2.0, 0.0, 5.0};
    const int what = x.Choose(2, "what");
    if (what == 0) {
        const int n = 2 + x.Choose(2, "points");
        Vector_<> xs, ys;
        for (int i = 0; i < n; ++i) {
            xs.push_back(x.Pick(X, "abscissa"));
            ys.push_back(x.Pick(Y, "ordinate"));
        }
        bool up = true, down = false;
        for (int i = 1; i < n; ++i) {
            up = up && xs[i] > xs[i - 1];
            down = down || xs[i] < xs[i - 1];
        }
        if (!up && !down)
            throw mc::Prune_(); // repeated abscissae: a jump, not claimed here
        if (!up) {
            if (!Throws([&] { (void)Interp1NewLinear("n", xs, ys); }))
                x.Fail("order", "abscissae that decrease are accepted");
            return;
        }
        auto f = Interp1NewLinear("n", xs, ys);
        Seen(x, "%d points from %g, %g", n, xs[0], ys[0]);
        if (f->name_ != "n")
            x.Fail("name", "the name is lost");
        for (double z : {-3.0, -1.0, -0.25, 0.0, 0.25, 0.5, 1.0, 2.0, 6.0, 7.0, 9.0}) {
            double e;
            if (z <= xs[0])
                e = ys[0];
            else if (z >= xs[n - 1])
                e = ys[n - 1];
            else {
                int i = 0;
                while (xs[i + 1] < z)
                    ++i;
                e = ys[i] + (ys[i + 1] - ys[i]) * (z - xs[i]) / (xs[i + 1] - xs[i]);
            }
            if (std::fabs((*f)(z) - e) > 1e-12)
                x.Fail("value", "interpolated value at %g is %.12g, expected %.12g", z, (*f)(z), e);
        }
    } else {
        const int day = x.Choose(366, "day");
        Dal::SetEvaluationDate(Date_(2024, 1, 1).AddDays(day));
        const Date_ d = Dal::GetEvaluationDate();
        Dal::SetEvaluationDate(TODAY);
        Seen(x, "day %d", day);
        if (d != Date_(2024, 1, 1).AddDays(day))
            x.Fail("date", "the evaluation date set does not read back");
    }
}
