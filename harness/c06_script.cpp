// C06: every script engine computes the meaning of the script.
// All scripts of a bounded grammar are printed, parsed, pre-processed and evaluated by the real interpreter, pre-processor,
// compiler and their differentiable versions, on a grid of scenarios, and compared with the reference meaning (scriptref.hpp).
#include "scriptref.hpp"
using namespace sref;
using namespace Dal;
using namespace Dal::Script;
using Dal::AAD::Number_;
using Dal::AAD::Scenario_;

namespace {
    struct Init_ {
        Init_() {
            mc::g_init = [] {
                XGLOBAL::SetEvaluationDate(Today());
                static AAD::Tape_ tape;
                Number_::SetTape(tape);
            };
        }
    } s_init;

    template <class T> void Fill(const ScriptProduct_& p, const Scen_& sc, Scenario_<T>* path) {
        AAD::AllocatePath(p.DefLine(), *path);
        AAD::InitializePath(*path);
        for (size_t i = 0; i < path->size(); ++i) {
            (*path)[i].spot_ = T(sc.spot[i]);
            (*path)[i].numeraire_ = T(sc.num[i]);
        }
    }

    // compare every engine with the reference on every scenario, one evaluator for the whole list of scenarios
    void CheckScript(mc::Ctx_& x, const Script_& s, const std::vector<Scen_>& scens, const Style_& st, bool adjoint = true) {
        std::set<std::string> names;
        for (auto& e : s.events)
            for (auto& p : e)
                Names(p, names);
        std::vector<double> kv;
        for (auto& k : s.konst)
            kv.push_back(k.second);
        std::vector<Res_<double>> ref;
        for (auto& sc : scens)
            ref.push_back(Run<double>(s, sc, sc.spot, kv));
        const std::string text = Show(s);
        auto compare = [&](const char* mode, size_t i, const ScriptProduct_& p, auto&& val) {
            ++x.checks_;
            if (ref[i].nan)
                return;
            for (size_t j = 0; j < p.VarNames().size(); ++j) {
                std::string n(p.VarNames()[j].c_str());
                for (auto& c : n)
                    c = static_cast<char>(tolower(c));
                auto it = ref[i].vars.find(n);
                const double want = it == ref[i].vars.end() ? 0.0 : it->second;
                const double got = val(j);
                if (!Same(want, got, 1e-13))
                    x.Fail(std::string("value:") + mode, "%s: %s = %.17g, meaning %.17g, in %s on scenario spot %g %g numeraire %g", mode, n.c_str(), got, want, text.c_str(), scens[i].spot[0],
                           scens[i].spot.size() > 1 ? scens[i].spot[1] : 0.0, scens[i].num.back());
            }
        };
        for (int dom = 0; dom < 2; ++dom) {
            try {
                ScriptProduct_ p = Product(s, st);
                p.PreProcess(false, dom == 0);
                x.Step();
                std::set<std::string> got;
                for (auto& v : p.VarNames()) {
                    std::string n(v.c_str());
                    for (auto& c : n)
                        c = static_cast<char>(tolower(c));
                    got.insert(n);
                }
                if (got != names)
                    x.Fail("variables", "the product knows %zu variables instead of %zu in %s", got.size(), names.size(), text.c_str());
                Scenario_<double> path;
                auto ev = p.BuildEvaluator<double>();
                for (size_t i = 0; i < scens.size(); ++i) {
                    Fill(p, scens[i], &path);
                    p.Evaluate(path, ev);
                    compare(dom ? "pre-processed" : "interpreted", i, p, [&](size_t j) { return ev.VarVals()[j]; });
                }
                p.Compile();
                auto stt = p.BuildEvalState<double>();
                for (size_t i = scens.size(); i-- > 0;) {
                    Fill(p, scens[i], &path);
                    p.EvaluateCompiled(path, stt);
                    compare(dom ? "pre-processed and compiled" : "compiled", i, p, [&](size_t j) { return stt.VarVals()[j]; });
                }
                // the interpreter again, now that constants have been processed
                Fill(p, scens[0], &path);
                p.Evaluate(path, ev);
                compare("interpreted after compiling", 0, p, [&](size_t j) { return ev.VarVals()[j]; });
                if (!adjoint)
                    continue;
                // differentiable: derivatives with respect to each event's spot and each named constant
                for (int comp = 0; comp < 2; ++comp)
                    for (size_t i = 0; i < scens.size(); ++i) {
                        std::vector<Dual_> ds, dk;
                        int n = 0;
                        for (double v : scens[i].spot) {
                            ds.push_back(Dual_(v));
                            ds.back().d[n++] = 1.0;
                        }
                        for (double v : kv) {
                            dk.push_back(Dual_(v));
                            dk.back().d[n++] = 1.0;
                        }
                        g_mag = 1.0;
                        const auto dr = Run<Dual_>(s, scens[i], ds, dk);
                        Number_::Tape()->Rewind();
                        Scenario_<Number_> np;
                        Fill(p, scens[i], &np);
                        for (auto& smp : np)
                            smp.spot_.PutOnTape();
                        auto run = [&](auto& state, auto&& evaluate) {
                            for (auto& c : state.ConstVarVals())
                                c.PutOnTape();
                            Number_::Tape()->Mark();
                            evaluate();
                            compare(comp ? "compiled, differentiable" : "interpreted, differentiable", i, p, [&](size_t j) { return state.VarVals()[j].value(); });
                            if (dr.tie || dr.nan)
                                return;
                            Number_ res = state.VarVals()[p.PayOffIdx()] + 0.0;
                            res.PropagateToStart();
                            std::string pn(p.VarNames()[p.PayOffIdx()].c_str());
                            for (auto& c : pn)
                                c = static_cast<char>(tolower(c));
                            auto it = dr.vars.find(pn);
                            const Dual_ want = it == dr.vars.end() ? Dual_(0.0) : it->second;
                            int q = 0;
                            for (auto& smp : np) {
                                const double w = want.d[q++], g = smp.spot_.Adjoint();
                                if (std::isfinite(w) && std::isfinite(want.v) && !(std::fabs(w - g) <= 1e-9 + 1e-11 * g_mag))
                                    x.Fail("derivative", "derivative of %s to spot %d is %.12g instead of %.12g (%s) in %s", pn.c_str(), q - 1, g, w, comp ? "compiled" : "interpreted", text.c_str());
                            }
                            for (size_t k = 0; k < kv.size(); ++k) {
                                const double w = want.d[q + k];
                                double g = 0.0;
                                for (size_t m = 0; m < p.ConstVarNames().size(); ++m)
                                    if (p.ConstVarNames()[m] == String_(s.konst[k].first))
                                        g = state.ConstVarVals()[m].Adjoint();
                                if (std::isfinite(w) && std::isfinite(want.v) && !(std::fabs(w - g) <= 1e-9 + 1e-11 * g_mag))
                                    x.Fail("derivative:constant", "derivative of %s to %s is %.12g instead of %.12g (%s) in %s", pn.c_str(), s.konst[k].first.c_str(), g, w, comp ? "compiled" : "interpreted", text.c_str());
                            }
                        };
                        if (comp) {
                            auto es = p.BuildEvalState<Number_>();
                            run(es, [&] { p.EvaluateCompiled(np, es); });
                        } else {
                            auto es = p.BuildEvaluator<Number_>();
                            run(es, [&] { p.Evaluate(np, es); });
                        }
                        Number_::Tape()->Rewind();
                    }
            } catch (const std::exception& e) {
                x.Fail("rejected", "%s is rejected: %s", text.c_str(), e.what());
            }
        }
        x.State(mc::HashStr(text));
        if (x.WantSample())
            x.Sample(text);
    }

    const std::vector<Style_> STYLES = {{false, false, 1}, {true, true, 0}, {false, true, 2}};

    // ------------------------------------------------ expressions
    P GenExpr(mc::Ctx_& x, int ops, const std::vector<P>& leaves, const std::vector<char>& bins, const std::vector<char>& uns) {
        if (ops == 0)
            return leaves[x.Choose(static_cast<int>(leaves.size()))];
        const int nb = static_cast<int>(bins.size()), nu = static_cast<int>(uns.size());
        const int c = x.Choose(nb * ops + nu);
        if (c >= nb * ops)
            return Mk(uns[c - nb * ops], {GenExpr(x, ops - 1, leaves, bins, uns)});
        const int left = c / nb;
        P l = GenExpr(x, left, leaves, bins, uns);
        P r = GenExpr(x, ops - 1 - left, leaves, bins, uns);
        return Mk(bins[c % nb], {l, r});
    }
    void ExprCase(mc::Ctx_& x, P e, int style) {
        Script_ s;
        s.konst = {{"k", 2.0}};
        s.events = {{Asg("x", Mk('+', {Mk('*', {Sx(), Num(0.25)}), Num(1.0)}))}, {Asg("y", e), Pay("z", Va("y"))}};
        CheckScript(x, s, {{{4.0, 3.0}, {1.0, 1.25}}, {{0.5, 7.5}, {1.0, 0.5}}}, STYLES[style]);
    }
} // namespace

MC_SECTION("expressions of up to 2 operators", "all expression trees of up to 2 operators over 7 binary and 5 unary operators and 5 leaves (spot, assigned and unassigned variable, named constant, number), 3 print styles, 2 scenarios, 8 engines", 3) {
    const std::vector<P> leaves = {Sx(), Va("x"), Kon("k", 2.0), Num(3.0), Va("u")};
    const int style = x.Choose(3);
    const int ops = x.Choose(3);
    ExprCase(x, GenExpr(x, ops, leaves, {'+', '-', '*', '/', '^', 'M', 'm'}, {'n', 'p', 'l', 'q', 'e'}), style);
}
MC_SECTION("expressions of 3 operators", "all trees of 3 operators over - / ^ max and unary minus, leaves spot, variable, number; minimal parentheses", 3) {
    const std::vector<P> leaves = {Sx(), Va("x"), Num(3.0)};
    ExprCase(x, GenExpr(x, 3, leaves, x.thorough_ ? std::vector<char>{'+', '-', '*', '/', '^', 'M'} : std::vector<char>{'-', '/', '^'}, {'n'}), 0);
}
MC_SECTION("maximum and minimum of several values", "max/min of 2 to 5 arguments in every order of the values, nested or not", 3) {
    const int n = 2 + x.Choose(4);
    std::vector<P> vals = {Sx(), Va("x"), Num(3.5), Kon("k", 2.0), Num(1.0)};
    std::vector<P> a;
    for (int i = 0; i < n; ++i) {
        const int c = x.Choose(static_cast<int>(vals.size()));
        a.push_back(vals[c]);
        vals.erase(vals.begin() + c);
    }
    P e = Mk(x.Flip() ? 'M' : 'm', a);
    if (x.Flip())
        e = Mk('-', {Num(1.0), e});
    ExprCase(x, e, 0);
}

// ------------------------------------------------ conditions
namespace {
    const std::vector<char> CMP = {'=', '!', '<', '>', 'L', 'G'};
    P Cond(mc::Ctx_& x, int n, int base) {
        if (n == 1) {
            const int c = x.Choose(6);
            // the i-th comparison tests against its own threshold, so that all truth assignments occur on the grid
            const double thr[] = {2.0, 4.0, 3.0};
            switch (base) {
            case 0:
                return Mk(CMP[c], {Sx(), Num(thr[0])});
            case 1:
                return Mk(CMP[c], {Va("x"), Num(thr[1])});
            default:
                return Mk(CMP[c], {Num(thr[2]), Mk('+', {Sx(), Num(0.0)})});
            }
        }
        const int c = x.Choose(2 * (n - 1));
        const int left = 1 + c / 2;
        P l = Cond(x, left, base);
        P r = Cond(x, n - left, base + left);
        return Mk(c % 2 ? '&' : '|', {l, r});
    }
    std::vector<Scen_> Grid() {
        std::vector<Scen_> g;
        for (double a : {1.0, 4.0, 5.0})
            for (double b : {1.0, 2.0, 2.5, 3.0, 3.5})
                g.push_back({{a, b}, {1.0, 1.0}});
        return g;
    }
} // namespace
MC_SECTION("conditions", "all and/or trees of 1 to 3 comparisons (6 comparators each), with and without redundant parentheses, each comparison below, at and above its threshold", 3) {
    const int n = 1 + x.Choose(3);
    const int style = x.Choose(n == 3 ? 1 : 2);
    P c = Cond(x, n, 0);
    Script_ s;
    s.events = {{Asg("x", Sx())}, {IfEl(c, {Asg("y", Num(1.0))}, {Asg("y", Num(2.0))}), Iff(c, {Asg("z", Num(7.0))})}};
    CheckScript(x, s, Grid(), STYLES[style], false);
}
MC_SECTION("constant conditions", "every comparator on constants and variables of known value, equal, or apart by one unit or by rounding errors, alone and under and/or with a live condition", 3) {
    // pairs of equal or nearly equal constant expressions
    const std::vector<std::pair<P, P>> pairs = {
        {Num(3.0), Num(3.0)},
        {Num(3.0), Num(4.0)},
        {Num(4.0), Num(3.0)},
        {Mk('+', {Num(0.1), Num(0.2)}), Num(0.3)},
        {Num(0.3), Mk('+', {Num(0.1), Num(0.2)})},
        {Mk('*', {Mk('/', {Num(5.0), Num(49.0)}), Num(49.0)}), Num(5.0)},
        {Num(5.0), Mk('*', {Mk('/', {Num(5.0), Num(49.0)}), Num(49.0)})},
        {Va("c"), Num(2.0)},
        {Va("u"), Num(0.0)},
        {Va("u"), Num(0.0000000000000001)},
        {Kon("k", 2.0), Va("c")},
        {Mk('^', {Num(0.1), Num(15.0)}), Num(0.0)},
        {Num(0.0), Mk('^', {Num(0.1), Num(15.0)})},
        {Mk('l', {Num(0.5)}), Num(-0.5 + 0.25)},
        {Mk('M', {Va("c"), Num(1.0)}), Num(2.0)},
    };
    const auto& pr = x.Pick(pairs);
    P c = Mk(CMP[x.Choose(6)], {pr.first, pr.second});
    const int wrap = x.Choose(5);
    P live = Mk('>', {Sx(), Num(2.0)});
    if (wrap == 1)
        c = Mk('&', {c, live});
    else if (wrap == 2)
        c = Mk('|', {live, c});
    else if (wrap == 3)
        c = Mk('&', {live, Mk('|', {c, live})});
    else if (wrap == 4)
        c = Mk('|', {Mk('&', {c, c}), live});
    Script_ s;
    s.konst = {{"k", 2.0}};
    s.events = {{Asg("c", Num(2.0)), Asg("q", Kon("k", 2.0))}, {IfEl(c, {Asg("y", Num(1.0))}, {Asg("y", Num(2.0))}), Iff(c, {Pay("z", Num(7.0))})}};
    CheckScript(x, s, {{{1.0, 1.0}, {1.0, 1.0}}, {{1.0, 3.0}, {1.0, 2.0}}}, STYLES[0], false);
}

// ------------------------------------------------ statements
namespace {
    P SmallExpr(mc::Ctx_& x) {
        switch (x.Choose(x.thorough_ ? 4 : 3)) {
        case 0:
            return Num(1.0);
        case 1:
            return Mk('+', {Va("y"), Num(2.0)});
        case 2:
            return Mk('*', {Sx(), Va("x")});
        default:
            return Va("x");
        }
    }
    P Simple(mc::Ctx_& x) {
        const int c = x.Choose(3);
        if (c == 0)
            return Asg("x", SmallExpr(x));
        if (c == 1)
            return Asg("y", SmallExpr(x));
        return Pay("x", SmallExpr(x));
    }
    P SmallCond(mc::Ctx_& x, bool outer) {
        switch (x.Choose(x.thorough_ ? 4 : outer ? 2 : 3)) {
        case 0:
            return Mk('>', {Sx(), Num(2.0)});
        case 1:
            return Mk('G', {Va("x"), Num(1.0)});
        case 2:
            return Mk('>', {Num(1.0), Num(2.0)});
        default:
            return Mk('!', {Va("y"), Num(2.0)});
        }
    }
    // statements with nesting depth d and total number of simple statements n
    std::vector<P> Body(mc::Ctx_& x, int n, int depth);
    P Stmt(mc::Ctx_& x, int n, int depth) {
        if (depth == 0 || !x.Flip())
            return n == 1 ? Simple(x) : nullptr;
        const int t = x.Choose(n + 2); // statements in the true branch; n + 1: no else at all
        P c = SmallCond(x, depth == 2);
        if (t == n + 1)
            return Iff(c, Body(x, n, depth - 1));
        auto a = Body(x, t, depth - 1);
        auto b = Body(x, n - t, depth - 1);
        return IfEl(c, a, b);
    }
    std::vector<P> Body(mc::Ctx_& x, int n, int depth) {
        std::vector<P> r;
        while (n > 0) {
            const int k = 1 + x.Choose(n);
            P p = Stmt(x, k, depth);
            if (!p)
                throw mc::Prune_();
            r.push_back(p);
            n -= k;
        }
        return r;
    }
    const std::vector<Scen_> FEW = {{{1.0, 3.0}, {1.0, 2.0}}, {{3.0, 1.0}, {1.25, 1.25}}, {{2.0, 2.0}, {1.0, 1.0}}, {{3.0, 3.0}, {1.0, 0.5}}};
} // namespace
MC_SECTION("programs of 2 simple statements", "all programs of two simple statements (assign or pay, 3 expressions; 4 in thorough) in any nest of if and if-else up to depth 2 (2 outer, 3 inner conditions; 4 in thorough), over one or two event dates; 4 scenarios in sequence, 8 engines", 5) {
    const int firstEvent = x.Choose(x.thorough_ ? 3 : 2);
    Script_ s;
    s.events.resize(2);
    s.events[0] = Body(x, firstEvent, 2);
    s.events[1] = Body(x, 2 - firstEvent, 2);
    CheckScript(x, s, FEW, STYLES[0], firstEvent == 1);
}
MC_SECTION_THOROUGH("programs of 3 simple statements", "three simple statements, depth 1", 6) {
    const int firstEvent = x.Choose(4);
    Script_ s;
    s.events.resize(2);
    s.events[0] = Body(x, firstEvent, 1);
    s.events[1] = Body(x, 3 - firstEvent, 1);
    CheckScript(x, s, FEW, STYLES[0], false);
}
MC_SECTION("deep nesting of branches", "if-else trees nested 1 to 5 deep, in the true, the false or both branches, empty or not, every truth assignment", 2) {
    const int depth = 1 + x.Choose(5);
    const int shape = x.Choose(5);
    std::vector<P> inner = {Asg("y", Num(100.0))};
    for (int d = depth; d > 0; --d) {
        P c = Mk('>', {Va("x"), Num(static_cast<double>(d))});
        std::vector<P> a = inner, b = {Asg("y", Num(static_cast<double>(d))), Pay("z", Num(1.0))};
        P st;
        if (shape == 0)
            st = IfEl(c, a, b);
        else if (shape == 1)
            st = IfEl(Mk('L', {Va("x"), Num(static_cast<double>(d))}), b, a);
        else if (shape == 2)
            st = IfEl(c, a, a);
        else if (shape == 3)
            st = Iff(c, a);
        else
            st = IfEl(Mk('L', {Va("x"), Num(static_cast<double>(d))}), {}, a);
        inner = {st, Pay("w", Va("y"))};
    }
    Script_ s;
    s.events.push_back({Asg("x", Sx())});
    s.events.push_back(inner);
    std::vector<Scen_> sc;
    for (double v = 0.5; v < 6.5; v += 1.0)
        sc.push_back({{v, 2.0}, {1.0, 2.0}});
    CheckScript(x, s, sc, STYLES[x.Choose(3)]);
}
MC_SECTION("deep expressions", "right-nested expressions of 1 to 160 levels (sum, maximum, comparison with parentheses): computed correctly or rejected with an error by every engine", 2) {
    const int kind = x.Choose(3);
    const int n = 1 + x.Choose(160);
    P e = Sx();
    for (int i = 0; i < n; ++i)
        e = kind == 0 ? Mk('+', {Va("x"), e}) : kind == 1 ? Mk('M', {Num(1.0 + i), e}) : Mk('-', {Sx(), Mk('*', {Num(1.0), e})});
    Script_ s;
    s.events = {{Asg("x", Sx())}, {Asg("y", e)}};
    const Scen_ sc{{2.0, 3.0}, {1.0, 1.0}};
    const auto ref = Run<double>(s, sc, sc.spot, {});
    for (int mode = 0; mode < 4; ++mode)
        try {
            ScriptProduct_ p = Product(s);
            p.PreProcess(false, mode % 2 == 0);
            Scenario_<double> path;
            Fill(p, sc, &path);
            double got;
            if (mode < 2) {
                auto ev = p.BuildEvaluator<double>();
                p.Evaluate(path, ev);
                got = ev.VarVals()[1];
            } else {
                p.Compile();
                auto es = p.BuildEvalState<double>();
                p.EvaluateCompiled(path, es);
                got = es.VarVals()[1];
            }
            x.Step();
            if (!Same(got, ref.vars.at("y")))
                x.Fail("deep", "%d levels: %g instead of %g", n, got, ref.vars.at("y"));
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            if (n <= 40)
                x.Fail("deep:rejected", "%d levels are rejected", n);
        }
}

// ------------------------------------------------ evaluator values and sequences
MC_SECTION("evaluators as values", "all sequences of up to 4 operations (evaluate one of 3 scenarios, copy, move, copy-assign, move-assign to a second evaluator, swap roles): each evaluation equals the reference", 2) {
    Script_ s;
    s.konst = {{"k", 2.0}};
    s.events = {{Asg("x", Mk('+', {Va("x"), Sx()}))}, {IfEl(Mk('>', {Sx(), Kon("k", 2.0)}), {Asg("y", Mk('*', {Va("x"), Kon("k", 2.0)}))}, {Pay("y", Va("x"))})}};
    const std::vector<Scen_> sc = {{{1.0, 3.0}, {1.0, 2.0}}, {{3.0, 1.0}, {1.25, 1.25}}, {{2.0, 2.5}, {1.0, 1.0}}};
    ScriptProduct_ p = Product(s);
    const bool fuzzy = x.Flip();
    const bool past = x.Flip();
    const auto nest = p.PreProcess(true, false);
    (void)past;
    auto run = [&](auto make) {
        auto a = make();
        auto b = make();
        for (int step = 0; step < 4; ++step) {
            const int op = x.Choose(7);
            using T = decltype(a);
            if (op < 3) {
                Scenario_<double> path;
                Fill(p, sc[op], &path);
                p.Evaluate(path, a);
                const auto ref = Run<double>(s, sc[op], sc[op].spot, {2.0});
                for (size_t j = 0; j < p.VarNames().size(); ++j) {
                    std::string n(p.VarNames()[j].c_str());
                    auto it = ref.vars.find(n);
                    if (!Same(a.VarVals()[j], it == ref.vars.end() ? 0.0 : it->second, 1e-13))
                        x.Fail("value", "after %d operations %s = %g instead of %g", step, n.c_str(), a.VarVals()[j], it == ref.vars.end() ? 0.0 : it->second);
                }
            } else if (op == 3) {
                T c(a);
                b = std::move(c);
                std::swap(a, b);
            } else if (op == 4) {
                T c(std::move(a));
                a = c;
            } else if (op == 5)
                b = a;
            else
                std::swap(a, b);
            x.Step();
        }
    };
    if (fuzzy)
        run([&] { return p.BuildFuzzyEvaluator<double>(static_cast<int>(nest), 0.01); });
    else
        run([&] { return p.BuildEvaluator<double>(); });
}

MC_SECTION("large scripts", "1..40 variables, events, statements per event, statements per branch, named constants, arguments of max/min, terms of sums and products, comparisons in and/or chains, successive branches, characters of a name; x 3 patterns", 1) {
    const int what = x.Choose(10);
    const int n = 1 + x.Choose(40);
    const int ph = x.Choose(3);
    auto var = [&](int i) { return "v" + std::to_string(i); };
    auto expr = [&](int i) -> P {
        switch ((i + ph) % 5) {
        case 0: return Mk('+', {Mk('*', {Sx(), Num(0.25 + i)}), Va(var(i ? i - 1 : 0))});
        case 1: return Mk('M', {Mk('-', {Va(var(i / 2)), Sx()}), Num(1.0 + i)});
        case 2: return Mk('/', {Va(var(i ? i - 1 : 0)), Mk('+', {Sx(), Num(2.0)})});
        case 3: return Mk('-', {Sx(), Num(static_cast<double>(i))});
        default: return Mk('m', {Sx(), Va(var(i / 3)), Num(9.0)});
        }
    };
    Script_ s;
    bool adjoint = true;
    std::vector<Scen_> sc = {{{4.0, 3.0}, {1.0, 1.25}}, {{0.5, 7.5}, {1.0, 0.5}}};
    s.events.resize(2);
    if (what == 0) { // variables
        for (int i = 0; i < n; ++i)
            s.events[i % 2].push_back(Asg(var(i), expr(i)));
        s.events[1].push_back(Pay("z", Va(var(n - 1))));
    } else if (what == 1) { // events
        adjoint = n <= 3;
        s.events.resize(n + 1);
        for (int i = 0; i <= n; ++i) {
            s.events[i].push_back(Asg(var(i % 4), expr(i % 4)));
            if (i % 3 == ph)
                s.events[i].push_back(IfEl(Mk('>', {Sx(), Num(3.0)}), {Pay("z", Va(var(i % 4)))}, {Asg("w", Mk('+', {Va("w"), Num(1.0)}))}));
        }
        sc.clear();
        for (int k = 0; k < 2; ++k) {
            Scen_ q;
            for (int i = 0; i <= n; ++i)
                q.spot.push_back(1.0 + (i * 5 + k * 3) % 7), q.num.push_back(1.0 + 0.125 * (i % 5));
            sc.push_back(q);
        }
    } else if (what == 2) { // statements on the same few variables
        for (int i = 0; i < n; ++i)
            s.events[1].push_back(i % 4 == 3 ? Pay(var(i % 3), expr(i % 3)) : Asg(var(i % 3), expr(i % 3)));
    } else if (what == 3) { // statements in branches
        std::vector<P> a, b;
        for (int i = 0; i < n; ++i)
            (i % 2 == ph % 2 || ph == 2 ? a : b).push_back(i % 4 == 3 ? Pay(var(i), expr(i)) : Asg(var(i), expr(i)));
        s.events[1].push_back(b.empty() ? Iff(Mk('>', {Sx(), Num(5.0)}), a) : IfEl(Mk('>', {Sx(), Num(5.0)}), a, b));
        s.events[1].push_back(Asg("q", Va(var(n - 1))));
    } else if (what == 4) { // named constants
        adjoint = n <= 2;
        P e = Sx();
        for (int i = 0; i < n; ++i) {
            const std::string k = "k" + std::to_string((i * 7 + ph) % 41);
            s.konst.push_back({k, 1.0 + i});
            e = Mk(i % 2 ? '+' : '-', {Kon(k, 1.0 + i), e});
        }
        s.events[0].push_back(Asg("x", s.konst.empty() ? Num(1.0) : Kon(s.konst.back().first, s.konst.back().second)));
        s.events[1].push_back(Asg("y", e));
    } else if (what == 5) { // arguments
        std::vector<P> a = {Sx(), Va("x")};
        for (int i = 0; i < n; ++i)
            a.insert(a.begin() + (i * 3) % a.size(), i == n / 2 ? Mk('*', {Sx(), Num(ph == 0 ? 100.0 : -100.0)}) : Num(1.0 + 0.5 * ((i * 11 + ph) % 37)));
        s.events[0].push_back(Asg("x", Mk('+', {Sx(), Num(0.25)})));
        s.events[1].push_back(Asg("y", Mk('M', a)));
        s.events[1].push_back(Asg("z", Mk('m', a)));
    } else if (what == 6) { // long flat expressions
        P e = Sx(), f = Num(1.0);
        for (int i = 0; i < n; ++i) {
            e = Mk(i % 3 == ph ? '-' : '+', {e, i % 2 ? Va("x") : Num(1.0 + i)});
            f = Mk(i % 3 == ph ? '/' : '*', {f, i % 2 ? Sx() : Num(0.5 + (i % 4) * 0.5)});
        }
        s.events[0].push_back(Asg("x", Sx()));
        s.events[1] = {Asg("y", e), Asg("z", f)};
    } else if (what == 7) { // conditions
        adjoint = false;
        P c = Mk('>', {Sx(), Num(2.0)});
        for (int i = 1; i < n; ++i) {
            P d = Mk(CMP[(i + ph) % 6], {i % 2 ? Sx() : Va("x"), Num(1.0 + (i * 3) % 5)});
            c = Mk(ph == 0 ? '&' : ph == 1 ? '|' : i % 2 ? '&' : '|', {c, d});
        }
        s.events[0].push_back(Asg("x", Sx()));
        s.events[1] = {IfEl(c, {Asg("y", Num(1.0))}, {Asg("y", Num(2.0))})};
        sc = Grid();
    } else if (what == 8) { // successive branches
        adjoint = false;
        s.events[0].push_back(Asg("x", Sx()));
        for (int i = 0; i < n; ++i) {
            P c = Mk(CMP[(i + ph) % 6], {i % 2 ? Sx() : Va("x"), Num(1.0 + (i * 3) % 5)});
            s.events[1].push_back(i % 3 ? IfEl(c, {Asg(var(i), Num(1.0 + i))}, {Pay(var(i), Num(2.0))}) : Iff(c, {Asg("t", Mk('+', {Va("t"), Num(1.0 + i)}))}));
        }
        sc = Grid();
    } else { // names
        const std::string nm = std::string(n, 'a' + ph), other = std::string(n, 'a' + ph) + "b", third = "_" + std::string(n, 'a' + ph) + "1";
        s.konst = {{third, 3.0}};
        s.events[0] = {Asg(nm, Sx()), Asg(other, Mk('*', {Va(nm), Num(2.0)}))};
        s.events[1] = {Asg("q", Mk('+', {Mk('-', {Va(other), Va(nm)}), Kon(third, 3.0)})), Pay(nm, Va("q"))};
    }
    CheckScript(x, s, sc, STYLES[ph], adjoint);
}
