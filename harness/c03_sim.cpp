// C03: simulated values and risks against the plain one-thread average, for every pool size, path count around the batch
// boundaries, engine and generator, alone and after every other simulation.
#include "simref.hpp"
#include "mc.hpp"
#include <thread>
using namespace simref;

namespace {
    const Date_ TODAY(2022, 6, 22);
    Tape_* s_tape;
    struct Init_ {
        Init_() {
            mc::g_init = [] {
                s_tape = new Tape_;
                Number_::SetTape(*s_tape);
                Global::Dates_::SetEvaluationDate(TODAY);
            };
            mc::g_caseCpuLimit = 300;
            mc::g_caseWallLimit = 300;
        }
    } s_init;
    struct Conf_ {
        int prod, model, n, rsg, bb, aad, compiled;
    };
    const char* RSG[] = {"mrg32", "irn"};
    void Check(mc::Ctx_& x, const Conf_& c, const char* when) {
        const auto& pr = Prods()[c.prod];
        auto p = Make(pr, TODAY);
        const int nested = static_cast<int>(p.PreProcess(c.aad && !c.compiled, false));
        if (c.compiled)
            p.Compile();
        auto md = Model(c.model);
        const double eps = 0.01;
        SimResults_ r = c.aad ? MCSimulation<Number_>(p, md, c.n, RSG[c.rsg], c.bb, c.compiled, nested, eps) : MCSimulation<double>(p, md, c.n, RSG[c.rsg], c.bb, c.compiled, nested, eps);
        static std::map<std::vector<int>, Res_> cache;
        auto key = std::vector<int>{c.prod, c.model, c.n, c.rsg, c.bb, c.aad, c.compiled};
        auto it = cache.find(key);
        if (it == cache.end())
            it = cache.emplace(key, c.aad ? PlainAAD(p, md, c.n, RSG[c.rsg], c.bb, c.compiled, nested, eps) : Plain(p, md, c.n, RSG[c.rsg], c.bb)).first;
        const Res_& e = it->second;
        x.Step(c.n);
        x.Outcome(mc::HashD(std::round(r.aggregated_ * 1e6), 7));
        auto conf = [&] {
            char b[300];
            snprintf(b, sizeof b, "%s: product '%s', model %s, %d paths, %s%s, %s %s, pool of %d", when, pr.label, c.model ? "local volatility" : "Black-Scholes", c.n, RSG[c.rsg], c.bb ? " with bridge" : "",
                     c.aad ? "risks" : "value", c.compiled ? "compiled" : "interpreted", (int)ThreadPool_::GetInstance()->NumThreads());
            return std::string(b);
        };
        if (!Close(r.aggregated_, e.sum, e.sum))
            x.Fail("value", "%s: the simulated sum is %.12g, the plain sum over the same paths %.12g", conf().c_str(), r.aggregated_, e.sum);
        if (c.aad) {
            if (r.risks_.size() != e.risks.size() || r.names_.size() != e.risks.size())
                x.Fail("risk-count", "%s: %d risks reported, expected %d", conf().c_str(), (int)r.risks_.size(), (int)e.risks.size());
            for (size_t j = 0; j < e.risks.size(); ++j) {
                if (!Close(r.risks_[j], e.risks[j] / c.n, e.risks[j] / c.n))
                    x.Fail("risk", "%s: risk to %s is %.12g, plain average %.12g", conf().c_str(), r.names_[j].c_str(), r.risks_[j], e.risks[j] / c.n);
                if (r[r.names_[j]] != r.risks_[j])
                    x.Fail("risk-name", "%s: risk looked up by name %s differs", conf().c_str(), r.names_[j].c_str());
            }
            if (Number_::Tape() != s_tape)
                x.Fail("tape", "%s: the caller's tape is not the one it had before", conf().c_str());
        }
        if (x.WantSample())
            x.Sample(conf());
    }
    Conf_ Choose(mc::Ctx_& x, bool small) {
        Conf_ c;
        c.prod = x.Choose((int)Prods().size(), "product");
        c.aad = x.Choose(2, "risks");
        c.compiled = x.Choose(2, "compiled");
        c.model = x.Choose(2, "model");
        c.rsg = x.Choose(2, "generator");
        if (small) {
            c.bb = 0;
            c.n = 1200;
        } else {
            c.bb = x.Choose(2, "bridge");
            static const std::vector<int> N = {1, 2, 1023, 1024, 1025, 2048, 2049, 3073, 5000}, NT = {1, 2, 3, 100, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3073, 4096, 4097, 5000, 8193, 10000};
            c.n = x.thorough_ ? x.Pick(NT, "paths") : x.Pick(N, "paths");
        }
        return c;
    }
    void Pool(int n) {
        if ((int)ThreadPool_::GetInstance()->NumThreads() != n)
            ThreadPool_::GetInstance()->Start(n, true);
    }
} // namespace

MC_SECTION("single", "6 products x value/risks x compiled/interpreted x 2 models x 2 generators x bridge x path counts {1,2,1023..1025,2048,2049,3073,5000} (thorough 17 counts to 10000) x pool sizes {1,2,3,4} (thorough 1..6)", 1) {
    const Conf_ c = Choose(x, false);
    static const std::vector<int> S = {1, 2, 3, 4}, ST = {1, 2, 3, 4, 5, 6};
    const std::vector<int>& s = x.thorough_ ? ST : S;
    // pools above the machine's size are refused by the pool itself
    for (int k : s)
        if (k <= (int)std::thread::hardware_concurrency()) {
            Pool(k);
            Check(x, c, "alone");
        }
}

MC_SECTION("after another", "every simulation of 1200 paths after every other one (also after one that failed), pool of 3; failures are reported", 2) {
    Pool(std::min(3, (int)std::thread::hardware_concurrency()));
    const Conf_ a = Choose(x, true);
    const int kind = x.Choose(x.thorough_ ? 5 : 3, "history");
    auto fails = [&](bool aad, bool badModel, const char* rsg, int n) {
        auto p = Make(Prods()[0], TODAY);
        p.PreProcess(false, false);
        bool threw = false;
        try {
            Handle_<ModelData_> md = badModel ? Handle_<ModelData_>() : Model(0);
            if (aad)
                MCSimulation<Number_>(p, md, n, rsg, false, false, 0, 0.01);
            else
                MCSimulation<double>(p, md, n, rsg, false, false, 0, 0.01);
        } catch (const std::exception&) {
            threw = true;
        }
        if (!threw)
            x.Fail("error-swallowed", "a simulation that cannot draw any path (%s) returned a result", rsg);
    };
    if (kind == 0)
        fails(true, false, "nosuch", 3000);
    else if (kind == 1)
        fails(false, false, "nosuch", 3000);
    else if (kind == 2) {
        Conf_ b = a;
        b.aad = 1;
        b.compiled = 0;
        b.prod = 3;
        b.n = 2100;
        Check(x, b, "first");
    } else {
        Conf_ b;
        b = Choose(x, true);
        Check(x, b, "first");
        if (kind == 4)
            Check(x, b, "again");
    }
    Check(x, a, "after another");
}
