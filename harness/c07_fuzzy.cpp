// C07: smoothed evaluation.
#include "scriptref.hpp"
using namespace sref;
using namespace Dal;
using namespace Dal::Script;
using Dal::AAD::Number_;
using Dal::AAD::Scenario_;

namespace {
    struct Init_ {
        Init_() {
            mc::g_init = [] {
                XGLOBAL::SetEvaluationDate(Today());
                static AAD::Tape_ tape;
                Number_::SetTape(tape);
            };
        }
    } s_init;
    template <class T> void Fill(const ScriptProduct_& p, const std::vector<double>& spot, const std::vector<double>& num, Scenario_<T>* path) {
        AAD::AllocatePath(p.DefLine(), *path);
        AAD::InitializePath(*path);
        for (size_t i = 0; i < path->size(); ++i) {
            (*path)[i].spot_ = T(spot[i]);
            (*path)[i].numeraire_ = T(num[i]);
        }
    }
    std::string Low(const String_& s) {
        std::string n(s.c_str());
        for (auto& c : n)
            c = static_cast<char>(tolower(c));
        return n;
    }
    // smoothed product: evaluator on plain and on differentiable numbers, reused for all scenarios
    struct Fz_ {
        ScriptProduct_ p;
        size_t nest;
        FuzzyEvaluator_<double> ev;
        double eps;
        Fz_(const Script_& s, double e) : p(Product(s)), nest(p.PreProcess(true, false)), ev(p.BuildFuzzyEvaluator<double>(static_cast<int>(nest), e)), eps(e) {}
        std::map<std::string, double> Run(const std::vector<double>& spot, const std::vector<double>& num) {
            Scenario_<double> path;
            Fill(p, spot, num, &path);
            p.Evaluate(path, ev);
            std::map<std::string, double> r;
            for (size_t j = 0; j < p.VarNames().size(); ++j)
                r[Low(p.VarNames()[j])] = ev.VarVals()[j];
            return r;
        }
        std::map<std::string, double> RunAad(const std::vector<double>& spot, const std::vector<double>& num, const std::string& out, std::vector<double>* grad) {
            Number_::Tape()->Rewind();
            auto nev = p.BuildFuzzyEvaluator<Number_>(static_cast<int>(nest), eps);
            Scenario_<Number_> path;
            Fill(p, spot, num, &path);
            for (auto& smp : path)
                smp.spot_.PutOnTape();
            Number_::Tape()->Mark();
            p.Evaluate(path, nev);
            std::map<std::string, double> r;
            for (size_t j = 0; j < p.VarNames().size(); ++j) {
                r[Low(p.VarNames()[j])] = nev.VarVals()[j].value();
                if (grad && Low(p.VarNames()[j]) == out) {
                    Number_ res = nev.VarVals()[j] + 0.0;
                    res.PropagateToStart();
                    grad->clear();
                    for (auto& smp : path)
                        grad->push_back(smp.spot_.Adjoint());
                }
            }
            Number_::Tape()->Rewind();
            return r;
        }
    };
    const std::vector<char> CMP = {'=', '!', '<', '>', 'L', 'G'};
    const char* CmpName(char c) { return c == '=' ? "=" : c == '!' ? "!=" : c == '<' ? "<" : c == '>' ? ">" : c == 'L' ? "<=" : ">="; }
    P Cmp(char k, P l, P r, const std::string& eps = "") {
        P p = Mk(k, {l, r});
        p->s = eps;
        return p;
    }
    struct Width_ {
        double def;          // default width given to the evaluator
        const char* own;     // width written on the condition, "" if none
        double Eff() const { return *own ? atof(own) : def; }
    };
    const std::vector<Width_> WIDTHS = {{0.01, ""}, {0.5, ""}, {2.0, ""}, {0.01, "0.5"}, {2.0, "0.25"}, {0.0, "0.5"}, {0.0, ""}, {0.5, "0.0"}};
} // namespace

// ------------------------------------------------------------------ away from the thresholds
namespace {
    P Cond(mc::Ctx_& x, int n, int base) {
        if (n == 1) {
            const int c = x.Choose(6);
            switch (base) {
            case 0:
                return Cmp(CMP[c], Sx(), Num(2.0));
            case 1:
                return Cmp(CMP[c], Va("x"), Num(4.0), x.thorough_ && x.Flip() ? "0.25" : "");
            default:
                return Cmp(CMP[c], Num(3.0), Mk('+', {Sx(), Num(0.0)}));
            }
        }
        const int c = x.Choose(2 * (n - 1));
        const int left = 1 + c / 2;
        P l = Cond(x, left, base);
        P r = Cond(x, n - left, base + left);
        return Mk(c % 2 ? '&' : '|', {l, r});
    }
    void Sharp(mc::Ctx_& x, const Script_& s, double eps, const std::vector<Scen_>& scens) {
        Fz_ f(s, eps);
        for (auto& sc : scens) {
            const auto ref = Run<double>(s, sc, sc.spot, {});
            x.Step();
            for (int aad = 0; aad < 2; ++aad) {
                const auto got = aad ? f.RunAad(sc.spot, sc.num, "", nullptr) : f.Run(sc.spot, sc.num);
                for (auto& kv : got) {
                    auto it = ref.vars.find(kv.first);
                    const double want = it == ref.vars.end() ? 0.0 : it->second;
                    if (!Same(kv.second, want, 1e-12))
                        x.Fail("sharp", "%s = %.15g instead of %.15g (width %g, spot %g %g) in %s", kv.first.c_str(), kv.second, want, eps, sc.spot[0], sc.spot[1], Show(s).c_str());
                }
            }
        }
        x.State(mc::HashStr(Show(s)));
        if (x.WantSample())
            x.Sample(Show(s));
    }
} // namespace
MC_SECTION("connectives away from thresholds", "all and/or trees of 1-3 comparisons (6 comparators), widths 0.01 and 0.4, every truth assignment with quantities just outside the band and far", 3) {
    const int n = 1 + x.Choose(3);
    const double eps = x.Flip() ? 0.4 : 0.01;
    P c = Cond(x, n, 0);
    Script_ s;
    s.events = {{Asg("x", Sx())}, {IfEl(c, {Asg("y", Num(1.0)), Pay("w", Sx())}, {Asg("y", Num(2.0))}), Iff(c, {Asg("z", Num(7.0))})}};
    const double d = 0.5001 * eps;
    std::vector<Scen_> g;
    for (double a : {1.0, 4.0 - std::max(d, 0.13), 4.0 + std::max(d, 0.13)})
        for (double b : {1.0, 2.0 - d, 2.0 + d, 3.0 - d, 3.0 + d, 9.0})
            g.push_back({{a, b}, {1.0, 1.25}});
    Sharp(x, s, eps, g);
}
namespace {
    P Simple(mc::Ctx_& x) {
        switch (x.Choose(4)) {
        case 0:
            return Asg("y", Num(1.0));
        case 1:
            return Asg("y", Mk('+', {Va("y"), Mk('*', {Sx(), Num(2.0)})}));
        case 2:
            return Asg("z", Va("y"));
        default:
            return Pay("z", Sx());
        }
    }
    P SmallCond(mc::Ctx_& x, int which) {
        const char k = x.Flip() ? '>' : '!';
        return which == 0 ? Cmp(k, Sx(), Num(2.0)) : which == 1 ? Cmp(k, Va("x"), Num(4.0)) : Cmp(k, Num(3.0), Sx());
    }
    std::vector<P> Body(mc::Ctx_& x, int n, int depth);
    P Stmt(mc::Ctx_& x, int n, int depth) {
        if (depth == 0 || !x.Flip()) {
            if (n != 1)
                throw mc::Prune_();
            return Simple(x);
        }
        const int t = x.Choose(n + 2);
        P c = SmallCond(x, depth);
        if (t == n + 1)
            return Iff(c, Body(x, n, depth - 1));
        auto a = Body(x, t, depth - 1);
        auto b = Body(x, n - t, depth - 1);
        return IfEl(c, a, b);
    }
    std::vector<P> Body(mc::Ctx_& x, int n, int depth) {
        std::vector<P> r;
        while (n > 0) {
            const int k = 1 + x.Choose(n);
            r.push_back(Stmt(x, k, depth));
            n -= k;
        }
        return r;
    }
} // namespace

// ------------------------------------------------------------------ one condition through its band
namespace {
    // weight of the true branch measured on the library for one comparison of `spot` with a threshold
    double Weight(char cmp, double diff, const Width_& w) {
        static std::map<std::string, std::shared_ptr<Fz_>> cache;
        const std::string key = std::string(1, cmp) + "/" + NumText(w.def) + "/" + w.own;
        auto& f = cache[key];
        if (!f) {
            Script_ s;
            s.events = {{IfEl(Cmp(cmp, Sx(), Num(8.0), w.own), {Asg("y", Num(1.0))}, {Asg("y", Num(0.0))})}};
            f.reset(new Fz_(s, w.def));
        }
        return f->Run({8.0 + diff}, {1.0})["y"];
    }
    bool Truth(char c, double d) {
        return c == '=' ? d == 0 : c == '!' ? d != 0 : c == '<' ? d < 0 : c == '>' ? d > 0 : c == 'L' ? d <= 0 : d >= 0;
    }
} // namespace
MC_SECTION("one condition through its band", "6 comparators x 8 default/own widths: weight in [0,1], monotone, continuous, sharp outside, on a grid of 1/64 width; the same weight for every variable of the branch, payments included; derivatives match the slope", 2) {
    const char c = CMP[x.Choose(6)];
    const Width_& w = x.Pick(WIDTHS);
    const double e = w.Eff();
    Script_ s;
    s.events = {{Asg("u", Num(5.0)), Asg("v", Num(-3.0)), IfEl(Cmp(c, Sx(), Num(8.0), w.own), {Asg("y", Num(1.0)), Asg("u", Sx()), Pay("z", Num(3.0))}, {Asg("y", Num(0.0)), Asg("v", Num(11.0)), Pay("z", Num(-1.0))})}};
    Fz_ f(s, w.def);
    const double unit = e > 0 ? e : 0.01;
    double last = -1.0, lastD = 0.0;
    for (int k = -64; k <= 64; ++k) {
        const double d = unit * k / 64.0, spot = 8.0 + d;
        const double dd = spot - 8.0;
        auto r = f.Run({spot}, {2.0});
        std::vector<double> grad;
        auto ra = f.RunAad({spot}, {2.0}, "y", &grad);
        x.Step();
        const double y = r["y"];
        const char* nm = CmpName(c);
        if (!(y >= 0.0 && y <= 1.0))
            x.Fail("weight", "weight %g at distance %g with width %g for %s", y, dd, e, nm);
        const double wu = y * spot + (1 - y) * 5.0, wv = y * -3.0 + (1 - y) * 11.0, wz = (y * 3.0 + (1 - y) * -1.0) / 2.0;
        if (!Same(r["u"], wu, 1e-12) || !Same(r["v"], wv, 1e-12) || !Same(r["z"], wz, 1e-12))
            x.Fail("average", "variables are not averaged with the same weight %g: u %g (%g) v %g (%g) z %g (%g) for %s", y, r["u"], wu, r["v"], wv, r["z"], wz, nm);
        for (auto& kv : r)
            if (!Same(kv.second, ra[kv.first], 1e-12))
                x.Fail("aad", "%s = %g on plain and %g on differentiable numbers for %s", kv.first.c_str(), kv.second, ra[kv.first], nm);
        if (std::fabs(dd) > 0.5 * e * (1 + 1e-9) && std::fabs(dd) > 0 && !Same(y, Truth(c, dd) ? 1.0 : 0.0, 1e-13))
            x.Fail("sharp", "weight %g at distance %g outside the band of width %g for %s", y, dd, e, nm);
        if (k > -64) {
            const bool up = c == '>' || c == 'G' || (c == '=' && dd <= 0) || (c == '!' && dd > 0);
            if (up ? y < last - 1e-12 : y > last + 1e-12)
                x.Fail("monotone", "weight goes from %g to %g at distance %g for %s", last, y, dd, nm);
            if (e > 0 && std::fabs(y - last) > 4.0 * (dd - lastD) / e + 1e-9)
                x.Fail("continuous", "weight jumps from %g to %g at distance %g for %s", last, y, dd, nm);
        }
        if (e > 0 && k % 32) { // away from the kinks
            const double h = e / 1024;
            const double fd = (f.Run({spot + h}, {2.0})["y"] - f.Run({spot - h}, {2.0})["y"]) / (2 * h);
            if (std::fabs(fd - grad[0]) > 1e-6 * std::max(1.0, std::fabs(fd)))
                x.Fail("slope", "derivative %g, slope %g at distance %g for %s", grad[0], fd, dd, nm);
        }
        last = y;
        lastD = dd;
        x.State(mc::HashD(y, k * 64 + c));
    }
}
MC_SECTION("edges of the band", "6 comparators x 8 default/own widths: towards either edge and the middle of the band and away from them, from both sides, by steps of a tenth down to 10^-12 of the width: the weight does not jump", 2) {
    const char c = CMP[x.Choose(6)];
    const Width_& w = x.Pick(WIDTHS);
    const double e = w.Eff();
    if (!(e > 0))
        throw mc::Prune_();
    const double at = (x.Choose(3) - 1) * 0.5, side = x.Flip() ? 1.0 : -1.0;
    double last = 0, lastD = 0;
    bool first = true;
    for (double r = 0.25; r > 1e-12; r /= 1.1) {
        const double d = 8.0 + e * (at + side * r) - 8.0, y = Weight(c, d, w);
        x.Step();
        if (!first && !(std::fabs(y - last) <= 4.0 * std::fabs(d - lastD) / e + 1e-11))
            x.Fail("continuous", "weight jumps from %.12g to %.12g at distance %.12g of width %g for %s", last, y, d, e, CmpName(c));
        first = false;
        last = y;
        lastD = d;
    }
    x.State(mc::HashD(last, mc::HashD(e, c * 8 + at + side)));
}
MC_SECTION("two conditions through their bands", "and / or of two comparisons (6 x 6) on a 25 x 25 grid of distances: weight in [0,1], monotone and continuous in each distance, and combined as probabilities (product, complement)", 2) {
    const char a = CMP[x.Choose(6)], b = CMP[x.Choose(6)];
    const bool isAnd = x.Flip();
    const Width_ w{0.5, ""};
    Script_ s;
    s.events = {{Asg("x", Sx())}, {IfEl(Mk(isAnd ? '&' : '|', {Cmp(a, Va("x"), Num(8.0)), Cmp(b, Sx(), Num(8.0))}), {Asg("y", Num(1.0))}, {Asg("y", Num(0.0))})}};
    Fz_ f(s, 0.5);
    const int M = 12;
    std::vector<std::vector<double>> g(2 * M + 1, std::vector<double>(2 * M + 1));
    auto up = [](char c, double d) { return c == '>' || c == 'G' || (c == '=' && d <= 0) || (c == '!' && d > 0); };
    for (int i = 0; i <= 2 * M; ++i)
        for (int j = 0; j <= 2 * M; ++j) {
            const double di = 0.5 * (i - M) / 16.0, dj = 0.5 * (j - M) / 16.0;
            const double y = g[i][j] = f.Run({8.0 + di, 8.0 + dj}, {1.0, 1.0})["y"];
            const double wa = Weight(a, di, w), wb = Weight(b, dj, w);
            x.Step();
            if (!(y >= -1e-13 && y <= 1.0 + 1e-13))
                x.Fail("weight", "weight %g", y);
            const double want = isAnd ? wa * wb : wa + wb - wa * wb;
            if (!Same(y, want, 1e-12))
                x.Fail("connective", "%g %s %g gives %g", wa, isAnd ? "and" : "or", wb, y);
            if (i && (up(a, di) ? y < g[i - 1][j] - 1e-12 : y > g[i - 1][j] + 1e-12))
                x.Fail("monotone", "not monotone in the first distance at %g %g", di, dj);
            if (j && (up(b, dj) ? y < g[i][j - 1] - 1e-12 : y > g[i][j - 1] + 1e-12))
                x.Fail("monotone", "not monotone in the second distance at %g %g", di, dj);
            if ((i && std::fabs(y - g[i - 1][j]) > 0.2501) || (j && std::fabs(y - g[i][j - 1]) > 0.2501))
                x.Fail("continuous", "jump at %g %g", di, dj);
        }
}

// ------------------------------------------------------------------ any nest of branches, inside and outside the bands
namespace {
    using St_ = std::map<std::string, double>;
    struct FSem_ {
        double spot, num;
        Width_ w{0.5, ""};
        double E(const P& p, St_& v) {
            Sem_<double> s;
            s.vars = v;
            s.spot = spot;
            s.num = num;
            return s.E(p);
        }
        void S(const P& p, St_& v) {
            if (p->k == 'A')
                v[p->a[0]->s] = E(p->a[1], v);
            else if (p->k == 'Y') {
                const double e = E(p->a[1], v);
                v[p->a[0]->s] += e / num;
            } else {
                const double wt = Weight(p->a[0]->k, E(p->a[0]->a[0], v) - E(p->a[0]->a[1], v), w);
                const size_t n = p->a.size(), e = p->split < 0 ? n : p->split;
                St_ t = v, f = v;
                for (size_t i = 1; i < e; ++i)
                    S(p->a[i], t);
                for (size_t i = e; i < n; ++i)
                    S(p->a[i], f);
                for (auto& kv : t)
                    v[kv.first] = wt * kv.second + (1 - wt) * f[kv.first];
                for (auto& kv : f)
                    v[kv.first] = wt * t[kv.first] + (1 - wt) * kv.second;
            }
        }
    };
} // namespace
MC_SECTION("nested branches", "all programs of 2 (thorough 3) simple statements in any nest of if / if-else up to depth 2, each condition outside, at the edge of and inside its band: the result is the weighted average of the branches, branch by branch", 5) {
    Script_ s;
    s.events.resize(2);
    s.events[0] = {Asg("x", Sx()), Asg("y", Num(10.0)), Asg("z", Num(1.0))};
    s.events[1] = Body(x, x.thorough_ ? 3 : 2, 2);
    Fz_ f(s, 0.5);
    for (double a : {3.0, 3.75, 3.9, 4.0, 4.125, 5.0})
        for (double b : {1.0, 1.875, 2.0, 2.1, 2.25, 2.5, 2.8, 3.0, 3.25, 4.0}) {
            FSem_ sem;
            St_ v;
            sem.spot = a;
            sem.num = 1.0;
            for (auto& p : s.events[0])
                sem.S(p, v);
            sem.spot = b;
            sem.num = 1.25;
            for (auto& p : s.events[1])
                sem.S(p, v);
            auto got = f.Run({a, b}, {1.0, 1.25});
            x.Step();
            for (auto& kv : got)
                if (!Same(kv.second, v[kv.first], 1e-11))
                    x.Fail("average", "%s = %.12g instead of %.12g at spot %g %g in %s", kv.first.c_str(), kv.second, v[kv.first], a, b, Show(s).c_str());
        }
    x.State(mc::HashStr(Show(s)));
}
namespace {
    std::vector<P> Deep(mc::Ctx_& x, int d) {
        const P simple[3] = {Asg("y", Mk('+', {Va("y"), Num(1.0 + d)})), Asg("z", Va("y")), Pay("z", Mk('*', {Sx(), Num(d + 1.0)}))};
        std::vector<P> r;
        const int pre = x.Choose(3);
        if (pre)
            r.push_back(simple[pre - 1]);
        if (d == 0) {
            if (!pre)
                throw mc::Prune_();
            return r;
        }
        const P conds[4] = {Cmp('>', Sx(), Num(2.0)), Cmp('!', Va("x"), Num(4.0)), Cmp('L', Sx(), Num(2.1)), Cmp('<', Num(4.1), Va("x"))};
        const P c = conds[d - 1];
        const int shape = x.Choose(3);
        auto in = Deep(x, d - 1);
        if (shape == 0)
            r.push_back(Iff(c, in));
        else if (shape == 1)
            r.push_back(IfEl(c, in, {simple[x.Choose(2)]}));
        else
            r.push_back(IfEl(c, {simple[2]}, in));
        return r;
    }
} // namespace
MC_SECTION("deeply nested branches", "all chains of 3 (thorough 4) nested if / if-else, the inner one in either branch, with an optional statement before each: branch by branch the weighted average, repeatedly on one evaluator", 4) {
    Script_ s;
    s.events.resize(2);
    s.events[0] = {Asg("x", Sx()), Asg("y", Num(10.0)), Asg("z", Num(1.0))};
    s.events[1] = Deep(x, x.thorough_ ? 4 : 3);
    Fz_ f(s, 0.5);
    for (double a : {3.0, 3.9, 4.0, 4.125, 5.0})
        for (double b : {1.0, 1.9, 2.0, 2.1, 2.15, 3.0}) {
            FSem_ sem;
            St_ v;
            sem.spot = a;
            sem.num = 1.0;
            for (auto& p : s.events[0])
                sem.S(p, v);
            sem.spot = b;
            sem.num = 1.25;
            for (auto& p : s.events[1])
                sem.S(p, v);
            auto got = f.Run({a, b}, {1.0, 1.25});
            x.Step();
            for (auto& kv : got)
                if (!Same(kv.second, v[kv.first], 1e-11))
                    x.Fail("average", "%s = %.12g instead of %.12g at spot %g %g in %s", kv.first.c_str(), kv.second, v[kv.first], a, b, Show(s).c_str());
        }
    x.State(mc::HashStr(Show(s)));
}
// ------------------------------------------------------------------ variables with discrete values
MC_SECTION("discrete variables", "a variable set to one of 2 or 3 values by earlier branches and tested with each comparator against each value, between values and outside: sharp wherever the value is off the threshold by more than half the width, a weighted average otherwise", 2) {
    const std::vector<std::vector<double>> sets = {{0, 1}, {-1, 1}, {0, 1, 2}, {-2, 0, 3}, {0.5, 1.5}};
    const auto& vals = x.Pick(sets);
    const char c = CMP[x.Choose(6)];
    const std::vector<double> thr = {-3, -2, -1.5, -1, 0, 0.25, 0.5, 1, 1.25, 1.5, 2, 3, 4};
    const double t = x.Pick(thr);
    const bool left = x.Flip();
    const double eps = x.Flip() ? 0.01 : 0.2;
    Script_ s;
    std::vector<P> ev = {Asg("x", Num(vals[0]))};
    for (size_t i = 1; i < vals.size(); ++i)
        ev.push_back(Iff(Cmp('>', Sx(), Num(10.0 * i)), {Asg("x", Num(vals[i]))}));
    P l = Va("x"), r = Num(t);
    s.events = {ev, {IfEl(left ? Cmp(c, l, r) : Cmp(c, r, l), {Asg("y", Num(1.0))}, {Asg("y", Num(0.0))})}};
    Fz_ f(s, eps);
    for (size_t i = 0; i < vals.size(); ++i) {
        const Scen_ sc{{5.0 + 10.0 * i, 1.0}, {1.0, 1.0}};
        const auto ref = Run<double>(s, sc, sc.spot, {});
        const double y = f.Run(sc.spot, sc.num)["y"], ya = f.RunAad(sc.spot, sc.num, "", nullptr)["y"];
        x.Step();
        if (!(y >= 0 && y <= 1) || !Same(y, ya, 1e-12))
            x.Fail("weight", "weight %g (differentiable %g) in %s", y, ya, Show(s).c_str());
        if (std::fabs(vals[i] - t) > 0.5 * eps && !Same(y, ref.vars.at("y"), 1e-12))
            x.Fail("sharp", "weight %g instead of %g with x = %g in %s", y, ref.vars.at("y"), vals[i], Show(s).c_str());
    }
}
MC_SECTION("large fuzzy scripts", "1..14 nested branches of 3 shapes, 1..30 variables changed in a branch, 1..20 successive branches, 1..12 and/or terms: branch by branch the weighted average", 1) {
    const int what = x.Choose(3);
    const int n = 1 + x.Choose(what == 0 ? 14 : what == 1 ? 30 : 20);
    const int ph = x.Choose(3);
    Script_ s;
    s.events.resize(2);
    s.events[0] = {Asg("x", Sx()), Asg("y", Num(10.0)), Asg("z", Num(1.0))};
    auto cond = [&](int i) -> P {
        static const double thr[] = {2.0, 2.1, 1.9, 2.05};
        return i % 3 == 2 ? Cmp(CMP[(i + ph) % 6], Va("x"), Num(4.0)) : Cmp(CMP[(i + ph) % 6], Sx(), Num(thr[i % 4]));
    };
    if (what == 0) {
        std::vector<P> in = {Asg("y", Mk('+', {Va("y"), Num(7.0)}))};
        for (int d = 0; d < n; ++d) {
            std::vector<P> r;
            if ((d + ph) % 2)
                r.push_back(Asg("z", Mk('+', {Va("z"), Num(1.0 + d)})));
            const int shape = (d + ph) % 3;
            if (shape == 0)
                r.push_back(Iff(cond(d), in));
            else if (shape == 1)
                r.push_back(IfEl(cond(d), in, {Asg("y", Num(1.0 + d))}));
            else
                r.push_back(IfEl(cond(d), {Pay("z", Va("y"))}, in));
            in = r;
        }
        s.events[1] = in;
    } else if (what == 1) {
        std::vector<P> a, b;
        for (int i = 0; i < n; ++i) {
            const std::string v = "v" + std::to_string(i);
            s.events[0].push_back(Asg(v, Num(1.0 + i)));
            if (ph != 1 || i % 2)
                a.push_back(i % 3 ? Asg(v, Mk('*', {Va(v), Num(2.0)})) : Pay(v, Sx()));
            if (ph != 0)
                b.push_back(Asg(v, Mk('+', {Va(v), Num(0.5)})));
        }
        if (a.empty())
            a.push_back(Asg("y", Num(1.0)));
        s.events[1].push_back(b.empty() ? Iff(cond(0), a) : IfEl(cond(0), a, {IfEl(cond(1), b, {Asg("v0", Num(3.0))})}));
        s.events[1].push_back(Asg("q", Va("v" + std::to_string(n - 1))));
    } else
        for (int i = 0; i < n; ++i)
            s.events[1].push_back(i % 2 ? IfEl(cond(i), {Asg("y", Mk('+', {Va("y"), Num(1.0)}))}, {Asg("z", Va("y"))}) : Iff(cond(i), {Pay("z", Num(1.0 + i)), Asg("x", Mk('+', {Va("x"), Num(0.0)}))}));
    Fz_ f(s, 0.5);
    for (double a : {3.0, 3.9, 4.125})
        for (double b : {1.0, 1.9, 2.0, 2.15, 3.0}) {
            FSem_ sem;
            St_ v;
            sem.spot = a;
            sem.num = 1.0;
            for (auto& p : s.events[0])
                sem.S(p, v);
            sem.spot = b;
            sem.num = 1.25;
            for (auto& p : s.events[1])
                sem.S(p, v);
            auto got = f.Run({a, b}, {1.0, 1.25});
            x.Step();
            for (auto& kv : got)
                if (!Same(kv.second, v[kv.first], 1e-10))
                    x.Fail("average", "%s = %.12g instead of %.12g at spot %g %g in %s", kv.first.c_str(), kv.second, v[kv.first], a, b, Show(s).c_str());
        }
    x.State(mc::HashStr(Show(s)));
}
