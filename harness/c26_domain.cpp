// C26: value ranges used by static analysis always contain the values.
// All intervals over a small set of bounds, all unions of a few of them and every operation on them are compared with
// membership of a grid of points; all programs of a bounded grammar are analysed by the real domain processor and evaluated
// on a grid of scenarios, checking every variable against its range and every condition against its verdict.
#include "scriptref.hpp"
#include <dal/script/visitor/all.hpp>
#include <dal/script/visitor/domain.hpp>
#include <dal/script/visitor/domainproc.hpp>
using namespace sref;
using namespace Dal;
using namespace Dal::Script;
using Dal::AAD::Scenario_;

namespace {
    struct Init_ {
        Init_() {
            mc::g_init = [] { XGLOBAL::SetEvaluationDate(Today()); };
        }
    } s_init;
    const double INFTY = std::numeric_limits<double>::infinity();
    struct I_ {
        double l, r;
        bool Has(double v) const { return l <= v && v <= r; }
    };
    Bound_ B(double v) { return Bound_(v); }
    Interval_ Lib(const I_& i) { return i.l == i.r ? Interval_(i.l) : Interval_(B(i.l), B(i.r)); }
    std::vector<I_> Intervals(const std::vector<double>& b) {
        std::vector<I_> r;
        for (double l : b)
            for (double h : b)
                if (l <= h && l != INFTY && h != -INFTY)
                    r.push_back({l, h});
        return r;
    }
    const std::vector<double> WIDE = {-INFTY, -1e308, -49, -1, -1e-310, 0, 1e-310, 0.3, 3, 49, 1e308, INFTY};
    const std::vector<double> FEW = {-INFTY, -1, 0, 2, INFTY};
    const std::vector<double> GRID = {-1.7e308, -1e308, -49, -5, -2, -1.5, -1, -0.25, -1e-300, -1e-310, 0, 1e-310, 0.25, 0.3, 0.5, 1, 1.5, 2, 2.5, 3, 7, 49, 1e308, 1.7e308};
    template <class D> bool Has(const D& d, double v) { return d.Includes(v); }
    std::string Str(const I_& i) {
        char b[80];
        snprintf(b, sizeof b, "[%g,%g]", i.l, i.r);
        return b;
    }
} // namespace

MC_SECTION("intervals", "all pairs of the 77 intervals over 12 bounds (infinite, huge, tiny, zero, points): sum, difference, product, quotient, inverse, negation, min, max contain every result of 24 grid values; intersection, merge, inclusion and sign tests are exact", 1) {
    const auto all = Intervals(WIDE);
    const I_ a = x.Pick(all);
    const Interval_ A = Lib(a);
    // unary
    bool pos = a.l > 0, npos = a.l >= 0, neg = a.r < 0, nneg = a.r <= 0;
    if (A.IsPositive(true) != pos || A.IsPositive() != npos || A.IsNegative(true) != neg || A.IsNegative() != nneg || A.IsPosOrNeg(true) != (pos || neg))
        x.Fail("sign", "sign tests of %s", Str(a).c_str());
    double v1 = -77;
    if (A.IsSingleton(&v1) != (a.l == a.r) || (a.l == a.r && v1 != a.l) || A.IsZero() != (a.l == 0 && a.r == 0) || A.IsContinuous() == A.IsSingleton() || A.IsInfinite() != (std::isinf(a.l) || std::isinf(a.r)))
        x.Fail("kind", "kind tests of %s", Str(a).c_str());
    for (double v : GRID) {
        x.Step();
        if (A.Includes(v) != a.Has(v))
            x.Fail("includes", "%g in %s", v, Str(a).c_str());
        if (!a.Has(v))
            continue;
        if (!(-A).Includes(-v))
            x.Fail("negation", "-%g not in -%s", v, Str(a).c_str());
        if (!A.IsZero() && v != 0 && !A.Inverse().Includes(1.0 / v))
            x.Fail("inverse", "1/%g not in the inverse of %s", v, Str(a).c_str());
    }
    for (auto& b : all) {
        const Interval_ Bi = Lib(b);
        const Interval_ s = A + Bi, d = A - Bi, p = A * Bi, q = A / Bi, mn = A.IMin(Bi), mx = A.IMax(Bi);
        Interval_ se(A), de(A);
        se += Bi;
        de -= Bi;
        x.Step();
        auto in = [&](const char* op, const Interval_& r, double v, double w, double z) {
            if (!std::isnan(z) && !r.Includes(z))
                x.Fail(op, "%g %s %g = %g is outside the range of %s %s %s", v, op, w, z, Str(a).c_str(), op, Str(b).c_str());
        };
        for (double v : GRID)
            if (a.Has(v))
                for (double w : GRID)
                    if (b.Has(w)) {
                        in("+", s, v, w, v + w);
                        in("-", d, v, w, v - w);
                        in("+=", se, v, w, v + w);
                        in("-=", de, v, w, v - w);
                        in("*", p, v, w, v * w);
                        in("/", q, v, w, v / w);
                        in("min", mn, v, w, std::min(v, w));
                        in("max", mx, v, w, std::max(v, w));
                    }
        const double l = std::max(a.l, b.l), r = std::min(a.r, b.r);
        Interval_ is, m2;
        const bool meet = Intersect(A, Bi, &is), mg = Merge(A, Bi, &m2);
        if (meet != (l <= r) || mg != (l <= r) || Intersect(A, Bi) != meet)
            x.Fail("intersect", "whether %s meets %s", Str(a).c_str(), Str(b).c_str());
        if (meet && (is.Left() != B(l) || is.Right() != B(r) || m2.Left() != B(std::min(a.l, b.l)) || m2.Right() != B(std::max(a.r, b.r))))
            x.Fail("intersect", "intersection or union of %s and %s", Str(a).c_str(), Str(b).c_str());
        if (A.Includes(Bi) != (a.l <= b.l && b.r <= a.r) || A.IsIncludedIn(Bi) != (b.l <= a.l && a.r <= b.r))
            x.Fail("includes", "inclusion of %s and %s", Str(a).c_str(), Str(b).c_str());
        const bool eq = a.l == b.l && a.r == b.r, lt = a.l < b.l || (a.l == b.l && a.r < b.r);
        if ((A == Bi) != eq || (A < Bi) != lt || (A > Bi) != (!eq && !lt) || (A <= Bi) != (eq || lt) || (A >= Bi) != !lt)
            x.Fail("order", "order of %s and %s", Str(a).c_str(), Str(b).c_str());
    }
    x.State(mc::HashStr(Str(a)));
}

namespace {
    // the union of closed intervals, normalised
    std::vector<I_> Norm(std::vector<I_> v) {
        std::sort(v.begin(), v.end(), [](const I_& p, const I_& q) { return p.l < q.l || (p.l == q.l && p.r < q.r); });
        std::vector<I_> r;
        for (auto& i : v)
            if (!r.empty() && i.l <= r.back().r)
                r.back().r = std::max(r.back().r, i.r);
            else
                r.push_back(i);
        return r;
    }
    bool In(const std::vector<I_>& d, double v) {
        return std::any_of(d.begin(), d.end(), [&](const I_& i) { return i.Has(v); });
    }
    std::string Str(const std::vector<I_>& d) {
        std::string s;
        for (auto& i : d)
            s += Str(i);
        return s;
    }
    void CheckDomain(mc::Ctx_& x, const Domain_& D, const std::vector<I_>& d) {
        const std::string s = Str(d);
        x.Step();
        if (D.Size() != d.size() || D.IsEmpty() != d.empty())
            x.Fail("size", "%zu parts for %s", D.Size(), s.c_str());
        for (double v : GRID)
            if (D.Includes(v) != In(d, v))
                x.Fail("includes", "%g in %s", v, s.c_str());
        if (d.empty())
            return;
        std::vector<double> pts;
        bool disc = true, inf = false, zd = false, zc = false, pos = true, spos = true, neg = true, sneg = true;
        double spl = INFTY, splS = INFTY, bnr = -INFTY, bnrS = -INFTY;
        for (auto& i : d) {
            if (i.l == i.r)
                pts.push_back(i.l);
            else
                disc = false;
            inf = inf || std::isinf(i.l) || std::isinf(i.r);
            zd = zd || (i.l == 0 && i.r == 0);
            zc = zc || (i.l != i.r && i.Has(0));
            pos = pos && i.l >= 0;
            spos = spos && i.l > 0;
            neg = neg && i.r <= 0;
            sneg = sneg && i.r < 0;
            if (i.l > 0)
                splS = std::min(splS, i.l);
            if (i.l >= 0)
                spl = std::min(spl, i.l);
            if (i.r < 0)
                bnrS = std::max(bnrS, i.r);
            if (i.r <= 0)
                bnr = std::max(bnr, i.r);
        }
        if (D.IsDiscrete() != disc || D.IsContinuous() == disc || D.IsInfinite() != inf || D.IsPositive() != pos || D.IsPositive(true) != spos || D.IsNegative() != neg || D.IsNegative(true) != sneg)
            x.Fail("kind", "kind tests of %s", s.c_str());
        auto vec = [](const Vector_<double>& v) { return std::vector<double>(v.begin(), v.end()); };
        if (vec(D.GetSingletons(false)) != pts || vec(D.GetSingletons()) != (disc ? pts : std::vector<double>()))
            x.Fail("singletons", "points of %s", s.c_str());
        double c = -77;
        std::pair<double, double> b2;
        if (D.IsConstant(&c) != (disc && pts.size() == 1) || (disc && pts.size() == 1 && c != pts[0]))
            x.Fail("constant", "constant test of %s", s.c_str());
        if (D.IsBoolean(&b2) != (disc && pts.size() == 2) || (disc && pts.size() == 2 && (b2.first != pts[0] || b2.second != pts[1])))
            x.Fail("boolean", "two-valued test of %s", s.c_str());
        if (D.MinBound() != B(d[0].l) || D.MaxBound() != B(d.back().r))
            x.Fail("bounds", "bounds of %s", s.c_str());
        if (D.CanBeZero() != In(d, 0) || D.CanBeNonZero() != !(d.size() == 1 && zd) || D.ZeroIsDiscrete() != zd || D.ZeroIsCont() != zc || D.CanBePositive(true) != (d.back().r > 0) || D.CanBePositive(false) != (d.back().r >= 0) ||
            D.CanBeNegative(true) != (d[0].l < 0) || D.CanBeNegative(false) != (d[0].l <= 0))
            x.Fail("zero", "zero and sign tests of %s", s.c_str());
        double r = -77;
        if (D.SmallestPosLb(r, true) != (splS < INFTY) || (splS < INFTY && r != splS) || D.SmallestPosLb(r, false) != (spl < INFTY) || (spl < INFTY && r != spl))
            x.Fail("nearest", "smallest positive bound of %s", s.c_str());
        if (D.BiggestNegRb(r, true) != (bnrS > -INFTY) || (bnrS > -INFTY && r != bnrS) || D.BiggestNegRb(r, false) != (bnr > -INFTY) || (bnr > -INFTY && r != bnr))
            x.Fail("nearest", "largest negative bound of %s", s.c_str());
    }
} // namespace
MC_SECTION("unions", "all sequences of up to 3 of the 27 intervals over 7 bounds added in any order (thorough 4), joined with another range, negated, shifted and copied: exact membership, parts, points, bounds, sign and zero tests", 2) {
    static const auto all = Intervals({-INFTY, -2, -1, 0, 1, 2, INFTY});
    const int n = x.Choose(x.thorough_ ? 5 : 4);
    Domain_ D;
    std::vector<I_> parts;
    for (int i = 0; i < n; ++i) {
        const I_& k = x.Pick(all);
        if (k.l == k.r && x.Flip())
            D.AddSingleton(k.l);
        else
            D.AddInterval(Lib(k));
        parts.push_back(k);
    }
    const auto d = Norm(parts);
    CheckDomain(x, D, d);
    Domain_ c(D), e;
    e = D;
    CheckDomain(x, c, d);
    CheckDomain(x, e, d);
    Domain_ f(std::move(c));
    CheckDomain(x, f, d);
    std::vector<I_> ng, sh, cont;
    for (auto& i : d) {
        ng.push_back({-i.r, -i.l});
        sh.push_back({i.l + 1.5, i.r + 1.5});
        if (i.l != i.r)
            cont.push_back(i);
    }
    CheckDomain(x, -D, Norm(ng));
    f += 1.5;
    CheckDomain(x, f, Norm(sh));
    f -= 1.5;
    CheckDomain(x, f, d);
    CheckDomain(x, D.GetContinuous(), cont);
    if (n < 3)
        for (auto& k : all) {
            Domain_ g(D);
            g.AddDomain(Domain_(Lib(k)));
            auto p2 = parts;
            p2.push_back(k);
            CheckDomain(x, g, Norm(p2));
        }
    x.State(mc::HashStr(Str(d)));
}
MC_SECTION("operations on unions", "all pairs of unions of up to 2 of 13 intervals (thorough 3): sum, difference, product, quotient, inverse, min, max and applied functions contain every result of the grid", 1) {
    static const auto all = Intervals(FEW);
    static std::vector<std::vector<I_>> doms;
    if (doms.empty()) {
        std::set<std::string> seen;
        auto add = [&](std::vector<I_> v) {
            v = Norm(v);
            if (seen.insert(Str(v)).second)
                doms.push_back(v);
        };
        for (auto& i : all)
            for (auto& j : all)
                if (x.thorough_)
                    for (auto& k : all)
                        add({i, j, k});
                else
                    add({i, j});
    }
    auto lib = [](const std::vector<I_>& d) {
        Domain_ r;
        for (auto& i : d)
            r.AddInterval(Lib(i));
        return r;
    };
    static const std::vector<double> G = {-7, -1, -0.5, 0, 0.75, 2, 3};
    const auto& a = x.Pick(doms);
    const Domain_ A = lib(a);
    const Interval_ real(B(-INFTY), B(INFTY)), nonneg(B(0.0), B(INFTY));
    for (double v : G)
        if (In(a, v)) {
            Domain_ t(A);
            if (v != 0 && !(a.size() == 1 && a[0].l == 0 && a[0].r == 0) && !std::any_of(a.begin(), a.end(), [](const I_& i) { return i.l == 0 && i.r == 0; }) && !A.Inverse().Includes(1 / v))
                x.Fail("inverse", "1/%g not in the inverse of %s", v, Str(a).c_str());
            if (!t.ApplyFunc<double (*)(double)>(exp, nonneg).Includes(std::exp(v)))
                x.Fail("function", "exp(%g) not in the image of %s", v, Str(a).c_str());
        }
    for (auto& b : doms) {
        const Domain_ Bd = lib(b);
        Domain_ A2(A);
        const Domain_ s = A + Bd, d = A - Bd, p = A * Bd, q = A / Bd, mn = A.DMin(Bd), mx = A.DMax(Bd);
        const Domain_ pw = A2.ApplyFunc2<double (*)(double, double)>(pow, Bd, real);
        x.Step();
        auto in = [&](const char* op, const Domain_& r, double v, double w, double z) {
            if (!std::isnan(z) && !r.Includes(z))
                x.Fail(op, "%g %s %g = %g is outside the range of %s %s %s", v, op, w, z, Str(a).c_str(), op, Str(b).c_str());
        };
        for (double v : G)
            if (In(a, v))
                for (double w : G)
                    if (In(b, w)) {
                        in("+", s, v, w, v + w);
                        in("-", d, v, w, v - w);
                        in("*", p, v, w, v * w);
                        in("/", q, v, w, v / w);
                        in("min", mn, v, w, std::min(v, w));
                        in("max", mx, v, w, std::max(v, w));
                        in("^", pw, v, w, std::pow(v, w));
                    }
    }
}

// ------------------------------------------------------------------ programs
namespace {
    // truth values each condition of the reference program takes, in pre-order
    struct Watch_ : Sem_<double> {
        std::map<const N_*, int> seen; // bit 0: was true, bit 1: was false
        bool Cw(const P& p) {
            bool r;
            if (p->k == '&' || p->k == '|') {
                const bool l = Cw(p->a[0]), q = Cw(p->a[1]);
                r = p->k == '&' ? l && q : l || q;
            } else
                r = C(p);
            seen[p.get()] |= r ? 1 : 2;
            return r;
        }
        void Sw(const P& p) {
            if (p->k != 'I') {
                S(p);
                return;
            }
            const size_t n = p->a.size(), e = p->split < 0 ? n : p->split;
            const bool c = Cw(p->a[0]);
            for (size_t i = c ? 1 : e; i < (c ? e : n); ++i)
                Sw(p->a[i]);
        }
    };
    void FlagsCond(mc::Ctx_& x, const Node_* n, const P& p, Watch_& w, const std::string& text) {
        auto* b = dynamic_cast<const BoolNode_*>(n);
        if (!b)
            return;
        const int s = w.seen[p.get()];
        if ((b->alwaysTrue_ && (s & 2)) || (b->alwaysFalse_ && (s & 1)))
            x.Fail("verdict", "a condition found always %s was %s in %s", b->alwaysTrue_ ? "true" : "false", b->alwaysTrue_ ? "false" : "true", text.c_str());
        if ((p->k == '&' || p->k == '|') && n->arguments_.size() == 2)
            for (int i = 0; i < 2; ++i)
                FlagsCond(x, n->arguments_[i].get(), p->a[i], w, text);
    }
    void Flags(mc::Ctx_& x, const Node_* n, const P& p, Watch_& w, const std::string& text) {
        auto* f = dynamic_cast<const NodeIf_*>(n);
        if (!f || p->k != 'I' || f->arguments_.size() != p->a.size())
            return;
        const int s = w.seen[p->a[0].get()];
        if ((f->alwaysTrue_ && (s & 2)) || (f->alwaysFalse_ && (s & 1)))
            x.Fail("verdict", "a branch found always %s was not in %s", f->alwaysTrue_ ? "taken" : "skipped", text.c_str());
        FlagsCond(x, f->arguments_[0].get(), p->a[0], w, text);
        for (size_t i = 1; i < p->a.size(); ++i)
            Flags(x, f->arguments_[i].get(), p->a[i], w, text);
    }
    const std::vector<double> SPOTS = {-1.0, 0.0, 0.5, 1.0, 2.0, 10.0};
    void CheckProgram(mc::Ctx_& x, const Script_& s) {
        const std::string text = Show(s);
        for (int fuzzy = 0; fuzzy < 2; ++fuzzy) {
            auto p = Product(s);
            std::unique_ptr<DomainProcessor_> dp;
            x.Step();
            try {
                p.IndexVariables();
                p.IFProcess();
                dp.reset(new DomainProcessor_(p.VarNames().size(), fuzzy == 1));
                p.Visit(*dp);
            } catch (const std::exception& e) {
                x.Fail("rejected", "%s in %s", e.what(), text.c_str());
            }
            Watch_ w;
            bool anyNan = false;
            for (double a : SPOTS)
                for (double b : s.events.size() > 1 ? SPOTS : std::vector<double>{1.0}) {
                    w.vars.clear();
                    anyNan = anyNan || w.nan;
                    w.nan = false;
                    for (auto& k : s.konst)
                        w.konst[k.first] = k.second;
                    for (size_t e = 0; e < s.events.size(); ++e) {
                        w.spot = e == 0 ? a : b;
                        w.num = e == 0 ? 1.0 : 1.25;
                        for (auto& st : s.events[e])
                            w.Sw(st);
                    }
                    for (size_t j = 0; j < p.VarNames().size(); ++j) {
                        std::string n(p.VarNames()[j].c_str());
                        for (auto& c : n)
                            c = static_cast<char>(tolower(c));
                        const double v = w.vars[n];
                        if (!std::isnan(v) && !w.nan && !dp->VarDomains()[j].Includes(v))
                            x.Fail("range", "%s = %g is outside its range %s in %s with spot %g %g", n.c_str(), v, dp->VarDomains()[j].Write().c_str(), text.c_str(), a, b);
                    }
                }
            if (w.nan || anyNan) // conditions on undefined values are outside the property
                continue;
            for (size_t e = 0; e < s.events.size(); ++e)
                for (size_t i = 0; i < s.events[e].size(); ++i)
                    Flags(x, p.Events()[e][i].get(), s.events[e][i], w, text);
        }
    }
    P Cmp(char k, P l, P r) { return Mk(k, {l, r}); }
    const char CMP[6] = {'=', '!', '<', '>', 'L', 'G'};
    P Leaf(int i) {
        switch (i) {
        case 0:
            return Num(0.0);
        case 1:
            return Num(1.0);
        case 2:
            return Mk('n', {Num(2.0)});
        case 3:
            return Sx();
        case 4:
            return Num(0.5);
        default:
            return Va("x");
        }
    }
    P Fun(int f, P a, P b) {
        static const char bin[7] = {'+', '-', '*', '/', '^', 'M', 'm'};
        static const char un[4] = {'l', 'q', 'e', 'n'};
        return f < 7 ? Mk(bin[f], {a, b}) : Mk(un[f - 7], {a});
    }
} // namespace
MC_SECTION("one operation, one condition", "x one of 1 or 2 of 5 values, y any of 11 operations of x and 5 operands in either order, compared in 6 ways with 6 others: ranges and verdicts over 36 scenarios", 3) {
    const int a = x.Choose(5), a2 = x.Choose(6);
    const int f = x.Choose(11);
    const int b = f < 7 ? x.Choose(6) : 0;
    const bool swap = f < 7 && b != 5 && x.Flip();
    const char c = CMP[x.Choose(6)];
    const int d = x.Choose(6);
    Script_ s;
    s.events.resize(1);
    auto& e = s.events[0];
    e.push_back(Asg("x", Leaf(a)));
    if (a2 < 5)
        e.push_back(Iff(Cmp('>', Sx(), Num(1.0)), {Asg("x", Leaf(a2))}));
    e.push_back(Asg("y", swap ? Fun(f, Leaf(b), Va("x")) : Fun(f, Va("x"), Leaf(b))));
    e.push_back(IfEl(Cmp(c, Va("y"), Leaf(d)), {Asg("z", Num(3.0))}, {Asg("z", Num(-4.0))}));
    CheckProgram(x, s);
}
namespace {
    P MenuExpr(mc::Ctx_& x) {
        switch (x.Choose(6)) {
        case 0:
            return Num(1.0);
        case 1:
            return Mk('n', {Va("x")});
        case 2:
            return Mk('+', {Va("x"), Num(1.0)});
        case 3:
            return Va("y");
        case 4:
            return Mk('M', {Va("x"), Num(0.0)});
        default:
            return Sx();
        }
    }
    P MenuCond(mc::Ctx_& x) {
        switch (x.Choose(6)) {
        case 0:
            return Cmp('>', Va("x"), Num(0.0));
        case 1:
            return Cmp('=', Va("x"), Va("y"));
        case 2:
            return Mk('&', {Cmp('G', Va("y"), Num(1.0)), Cmp('>', Sx(), Num(0.5))});
        case 3:
            return Mk('|', {Cmp('!', Va("x"), Num(1.0)), Cmp('<', Va("y"), Num(0.0))});
        case 4:
            return Cmp('L', Sx(), Va("x"));
        default:
            return Cmp('!', Va("z"), Num(0.0));
        }
    }
    P MenuStmt(mc::Ctx_& x, int depth) {
        switch (x.Choose(depth > 0 ? 5 : 3)) {
        case 0:
            return Asg("x", MenuExpr(x));
        case 1:
            return Asg("y", MenuExpr(x));
        case 2:
            return Pay("z", Num(2.0));
        case 3: {
            P c = MenuCond(x);
            return Iff(c, {MenuStmt(x, depth - 1)});
        }
        default: {
            P c = MenuCond(x);
            P t = MenuStmt(x, depth - 1);
            return IfEl(c, {t}, {MenuStmt(x, 0)});
        }
        }
    }
} // namespace
MC_SECTION("statement sequences", "one assignment or payment (thorough: or branch), then on the next date every statement or branch nested to depth 1 (thorough 2), then one condition: ranges and verdicts over 36 scenarios", 3) {
    Script_ s;
    s.events.resize(2);
    s.events[0] = {MenuStmt(x, x.thorough_ ? 1 : 0)};
    s.events[1] = {MenuStmt(x, x.thorough_ ? 2 : 1), IfEl(MenuCond(x), {Asg("w", Num(1.0))}, {Asg("w", Num(2.0))})};
    CheckProgram(x, s);
}
MC_SECTION("branches on earlier dates", "a branch with one assignment on the first date, an assignment on the second, then one condition", 2) {
    Script_ s;
    s.events.resize(2);
    s.events[0] = {MenuStmt(x, 0), Iff(MenuCond(x), {MenuStmt(x, 0)})};
    s.events[1] = {MenuStmt(x, 0), IfEl(MenuCond(x), {Asg("w", Num(1.0))}, {Asg("w", Num(2.0))})};
    CheckProgram(x, s);
}
MC_SECTION("unions of many parts", "4..40 points and intervals, disjoint, touching or overlapping, added in 5 orders: exact membership, parts, points, bounds; negated, shifted, joined; sums, products and quotients contain the results", 1) {
    const int n = 4 + x.Choose(37), ph = x.Choose(5), kind = x.Choose(4);
    Domain_ D;
    std::vector<I_> parts;
    for (int i = 0; i < n; ++i) {
        const int k = ph == 0 ? i : ph == 1 ? n - 1 - i : ph == 2 ? (i * 7) % n : ph == 3 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (i * i) % n;
        const double c = 2.0 * (k - n / 2);
        const I_ p = kind == 0 ? I_{c, c} : kind == 1 ? I_{c, c + 1} : kind == 2 ? I_{c, k % 3 ? c + 2 : c + 0.5} : k % 2 ? I_{c, c} : I_{c, c + (k % 4 ? 1 : 5)};
        if (p.l == p.r)
            D.AddSingleton(p.l);
        else
            D.AddInterval(Lib(p));
        parts.push_back(p);
    }
    const auto d = Norm(parts);
    CheckDomain(x, D, d);
    std::vector<I_> ng, sh;
    for (auto& i : d) {
        ng.push_back({-i.r, -i.l});
        sh.push_back({i.l + 1.5, i.r + 1.5});
    }
    CheckDomain(x, -D, Norm(ng));
    Domain_ f(D);
    f += 1.5;
    CheckDomain(x, f, Norm(sh));
    f.AddDomain(D);
    sh.insert(sh.end(), d.begin(), d.end());
    CheckDomain(x, f, Norm(sh));
    const Domain_ prod = D * D, sum = D + D, quo = D / Domain_(2.0);
    for (auto& a : d)
        for (auto& b : d)
            if (!prod.Includes(a.l * b.r) || !sum.Includes(a.l + b.r) || !quo.Includes(a.l / 2.0)) {
                x.Fail("contains", "a result of %g and %g is missing", a.l, b.r);
            }
    x.Step(3);
    x.State(mc::HashStr(Str(d)));
}
