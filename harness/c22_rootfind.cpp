// C22: root searches under every sequence of answers within the bounds; the constrained solver on small systems.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/rootfind.hpp>
#include <dal/math/optimization/underdetermined.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/cell.hpp>
#include <memory>
using namespace Dal;

namespace {
    typedef std::pair<double, double> P_;
    bool Change(double a, double b) { return (a <= 0 && b >= 0) || (a >= 0 && b <= 0); }
    // what is known of the function, and what a sound search may report given that
    struct Known_ {
        std::vector<P_> pts;
        double width = Dal::INF;
        std::string log;
        void Add(double x, double y) {
            pts.emplace_back(x, y);
            char t[80];
            snprintf(t, sizeof t, " f(%.17g)=%g", x, y);
            log += t;
        }
        bool AnyChange() const {
            for (auto& a : pts)
                for (auto& b : pts)
                    if (&a < &b && Change(a.second, b.second))
                        return true;
            return false;
        }
        // some pair of evaluated points with a sign change is exactly as wide as reported
        void Check(mc::Ctx_& x, RootFinder_& f, bool started) {
            const double w = f.BracketWidth();
            x.Step();
            if (!started && !AnyChange()) {
                if (w < Dal::INF)
                    x.Fail("bracket", "a bracket of width %g is reported before any sign change:%s", w, log.c_str());
                return;
            }
            if (!(w <= width))
                x.Fail("bracket", "the bracket widens from %g to %g:%s", width, w, log.c_str());
            width = w;
            for (auto& a : pts)
                for (auto& b : pts)
                    if (&a < &b && Change(a.second, b.second) && std::fabs(a.first - b.first) == w)
                        return;
            x.Fail("bracket", "no sign change lies in a bracket of the reported width %g:%s", w, log.c_str());
        }
        void CheckNext(mc::Ctx_& x, double nx, bool started) {
            if (!(std::fabs(nx) < 1e30))
                x.Fail("next point", "the search asks for %g after%s", nx, log.c_str());
            if (!started && !AnyChange())
                return;
            for (auto& a : pts)
                for (auto& b : pts)
                    if (&a < &b && Change(a.second, b.second) && std::fabs(a.first - b.first) == width && nx >= std::min(a.first, b.first) && nx <= std::max(a.first, b.first))
                        return;
            x.Fail("next point", "the search asks for %.17g, outside its bracket of width %g, after%s", nx, width, log.c_str());
        }
    };
    uint64_t HashPts(const std::vector<P_>& p) {
        uint64_t h = 1469598103934665603ull;
        for (auto& q : p) {
            uint64_t b;
            memcpy(&b, &q.first, 8);
            h = (h ^ b) * 1099511628211ull;
            memcpy(&b, &q.second, 8);
            h = (h ^ b) * 1099511628211ull;
        }
        return h;
    }
} // namespace

MC_SECTION("bracketed search, every answer", "brackets [0,1] and [3,-2] with every pair of end values from -1 -1e-6 0 1e-6 1 that change sign, tolerance 1e-3; every sequence of 6 (thorough 8) answers from the same values and 50", 4) {
    static const double ys[] = {-1.0, -1e-6, 0.0, 1e-6, 1.0, 50.0};
    const bool second = x.Flip();
    const double yl = ys[x.Choose(5)], yh = ys[x.Choose(5)];
    const P_ lo(second ? 3.0 : 0.0, yl), hi(second ? -2.0 : 1.0, yh);
    bool threw = false;
    std::unique_ptr<BracketedBrent_> f;
    try {
        f.reset(new BracketedBrent_(lo, hi, 1e-3));
    } catch (const std::exception&) {
        threw = true;
    }
    if (threw == Change(yl, yh))
        x.Fail("bracket", "end values %g %g are %s", yl, yh, threw ? "rejected" : "accepted");
    if (threw)
        throw mc::Prune_();
    Known_ k;
    k.Add(lo.first, yl);
    k.Add(hi.first, yh);
    k.Check(x, *f, true);
    const int depth = x.thorough_ ? 8 : 6;
    for (int i = 0; i < depth; ++i) {
        const double nx = f->NextX();
        k.CheckNext(x, nx, true);
        const double y = ys[x.Choose(6)];
        f->PutY(y);
        k.Add(nx, y);
        k.Check(x, *f, true);
    }
    x.State(HashPts(k.pts));
}

MC_SECTION("bracketed search, bounded steps", "bracket [0,1] with end values +-1e-6 +-1, target width 1/32 (thorough 1/64) and tolerance the same: every sequence of answers from -1 -1e-4 1e-4 1 ends within four answers per halving of the bracket", 5) {
    static const double ys[] = {-1.0, -1e-4, 1e-4, 1.0};
    const int halvings = x.thorough_ ? 6 : 5;
    const double target = std::ldexp(1.0, -halvings);
    const double yl = x.Flip() ? -1.0 : -1e-4, yh = x.Flip() ? 1.0 : 1e-4;
    const bool up = x.Flip();
    BracketedBrent_ f(P_(0.0, up ? yl : yh), P_(1.0, up ? yh : yl), target);
    const int bound = 4 * halvings + 4;
    int n = 0;
    std::string log;
    while (f.BracketWidth() >= target * (1 + 1e-12)) {
        if (++n > bound)
            x.Fail("steps", "the width is still %g after %d answers%s", f.BracketWidth(), bound, log.c_str());
        const double nx = f.NextX();
        const double y = ys[x.Choose(4)];
        char t[60];
        snprintf(t, sizeof t, " f(%g)=%g", nx, y);
        log += t;
        f.PutY(y);
        x.Step();
    }
    x.Outcome(n);
}

MC_SECTION("hunting, every answer", "guesses -2 0 0.5, given and default step sizes: every sequence of 7 (thorough 8) answers from -1 -0.1 0 0.1 1: nothing is bracketed before a sign change, always afterwards", 4) {
    static const double ys[] = {-1.0, -0.1, 0.0, 0.1, 1.0};
    static const double gs[] = {-2.0, 0.0, 0.5};
    const double g = gs[x.Choose(3)], step = x.Flip() ? 0.0 : 0.25;
    Brent_ f(g, 1e-6, step);
    Known_ k;
    const int depth = x.thorough_ ? 8 : 7;
    for (int i = 0; i < depth; ++i) {
        k.Check(x, f, false);
        const double nx = f.NextX();
        if (i == 0 && nx != g)
            x.Fail("next point", "the first point is %g rather than the guess %g", nx, g);
        k.CheckNext(x, nx, false);
        if (!k.AnyChange())
            for (auto& p : k.pts)
                if (p.first == nx)
                    x.Fail("next point", "the hunt asks for %g again after%s", nx, k.log.c_str());
        const double y = ys[x.Choose(5)];
        f.PutY(y);
        k.Add(nx, y);
    }
    k.Check(x, f, false);
    x.State(HashPts(k.pts));
}

namespace {
    const int N_FUNCS = 12;
    // strictly monotone with one root at r
    double F(int which, double x, double r) {
        const double d = x - r;
        switch (which) {
        case 0:
            return d;
        case 1:
            return d * d * d;
        case 2:
            return d * std::pow(std::fabs(d), 6);
        case 3:
            return std::expm1(5.0 * std::min(d, 4.0)) + 1e-2 * d;
        case 4:
            return std::atan(1e4 * d);
        case 5:
            return d < 0 ? -std::sqrt(-d) : std::sqrt(d);
        case 6:
            return d < 0 ? 1e-3 * d : 1e3 * d;
        case 7:
            return d < 0 ? d - 1.0 : d + 1e-3; // jumps across zero
        case 8:
            return std::tanh(3 * d) + 1e-3 * d;
        case 9:
            return d + 0.3 * std::sin(3 * d);
        case 10:
            return d < 0 ? 1e6 * d : 1e-6 * d;
        default:
            return d * 1e-12;
        }
    }
} // namespace

MC_SECTION("convergence", "12 monotone function shapes, rising and falling, roots -3.7 -1e-3 0 0.3 1 250, tolerances 1e-3 1e-8 1e-12, from two brackets and four guesses: the reported width is reached in three points per halving and the root lies within it", 3) {
    static const double roots[] = {-3.7, -1e-3, 0.0, 0.3, 1.0, 250.0}, tols[] = {1e-3, 1e-8, 1e-12};
    const int which = x.Choose(N_FUNCS);
    const double r = roots[x.Choose(6)], tol = tols[x.Choose(3)] * std::max(1.0, std::fabs(r)), sign = x.Flip() ? 1.0 : -1.0;
    const int start = x.Choose(6);
    auto fn = [&](double t) { return sign * F(which, t, r); };
    std::unique_ptr<RootFinder_> f;
    Known_ k;
    double width = 0;
    const bool bracketed = start < 2;
    if (bracketed) {
        const double a = start ? -1e3 : r - 0.7, b = start ? 900.0 : r + 2.1;
        f.reset(new BracketedBrent_(P_(a, fn(a)), P_(b, fn(b)), tol));
        k.Add(a, fn(a));
        k.Add(b, fn(b));
        width = b - a;
    } else {
        static const double gs[] = {0.0, 1.0, -50.0, 700.0};
        f.reset(new Brent_(gs[start - 2], tol));
    }
    const Converged_ done(2 * tol, 0.0);
    int n = 0, hunt = 0;
    for (;;) {
        k.Check(x, *f, bracketed);
        const double nx = f->NextX();
        k.CheckNext(x, nx, bracketed);
        const double y = fn(nx);
        k.Add(nx, y);
        const bool d = done(*f, y);
        k.Check(x, *f, bracketed);
        if (d != (f->BracketWidth() < 2 * tol))
            x.Fail("converged", "the convergence test says %d at width %g", d, f->BracketWidth());
        if (d)
            break;
        if (y == 0.0) // the root itself; a caller stops here
            break;
        if (f->BracketWidth() >= Dal::INF) {
            if (++hunt > 40)
                x.Fail("steps", "no bracket for shape %d, root %g, start %d after %d points", which, r, start, hunt);
        } else {
            if (width == 0)
                width = f->BracketWidth();
            const double N = std::max(1.0, std::ceil(std::log2(width / tol)));
            if (++n > 3 * N + 10)
                x.Fail("steps", "shape %d, root %g, start %d, tolerance %g: width still %g after %d points", which, r, start, tol, f->BracketWidth(), n);
        }
    }
    x.Outcome(k.pts.size());
}

MC_SECTION("hunting out of a valley", "functions of one sign whose size grows in both directions from the guess until they change sign at distance 0.5 3 40 700 on one side, both sides, both signs, with steps 0 0.01 2: the hunt finds the sign change", 2) {
    static const double rs[] = {0.5, 3.0, 40.0, 700.0}, gs[] = {0.0, 5.0, -80.0}, ss[] = {0.0, 0.01, 2.0};
    const double R = rs[x.Choose(4)], g = gs[x.Choose(3)], sign = x.Flip() ? 1.0 : -1.0, step = ss[x.Choose(3)];
    const bool left = x.Flip();
    auto fn = [&](double t) {
        const double d = (t - g) * (left ? -1 : 1); // sign change at d = R
        return sign * (d > R ? -1.0 - d : 1.0 + std::fabs(d));
    };
    Brent_ f(g, 1e-9, step);
    int n = 0;
    while (f.BracketWidth() >= Dal::INF) {
        if (++n > 45)
            x.Fail("steps", "no bracket for a sign change at distance %g %s of guess %g with step %g", R, left ? "left" : "right", g, step);
        f.PutY(fn(f.NextX()));
        x.Step();
    }
    x.Outcome(n);
}

MC_SECTION("convergence test", "every pair of tolerances and values on a small grid: converged exactly when the value or the width is below its tolerance", 1) {
    static const double ts[] = {0.0, 1e-9, 0.5, 1.0, 2.0}, vs[] = {-1.0, -0.5, -1e-9, 0.0, 1e-9, 0.5, 1.0};
    const double xt = ts[x.Choose(5)], ft = ts[x.Choose(5)], y = vs[x.Choose(7)];
    BracketedBrent_ f(P_(0.0, -2.0), P_(1.0, 2.0), 1e-6);
    f.NextX();
    const bool d = Converged_(xt, ft)(f, y);
    x.Step();
    if (d != (std::fabs(y) < ft || f.BracketWidth() < xt))
        x.Fail("converged", "value %g width %g tolerances %g %g", y, f.BracketWidth(), xt, ft);
}

// ------------------------------------------------------------------ constrained solver
namespace {
    Underdetermined::Controls_ Controls(int evals, int restarts, int tries = 5) {
        Dictionary_ d;
        d.Insert("MAXEVALUATIONS", Cell::FromInt(evals));
        d.Insert("MAXRESTARTS", Cell::FromInt(restarts));
        d.Insert("MAXBACKTRACKTRIES", Cell::FromInt(tries));
        return Underdetermined::Controls_(d);
    }
    struct Func_ : Underdetermined::Function_ {
        std::function<Vector_<>(const Vector_<>&)> f_;
        mutable int calls_ = 0;
        explicit Func_(std::function<Vector_<>(const Vector_<>&)> f) : f_(std::move(f)) {}
        [[nodiscard]] Vector_<> F(const Vector_<>& v) const override {
            ++calls_;
            return f_(v);
        }
    };
    Vector_<> Lin(const std::vector<std::vector<int>>& c, const std::vector<int>& rhs, const Vector_<>& v) {
        Vector_<> r(c.size());
        for (size_t i = 0; i < c.size(); ++i) {
            r[i] = -rhs[i];
            for (size_t j = 0; j < v.size(); ++j)
                r[i] += c[i][j] * v[j];
        }
        return r;
    }
} // namespace

MC_SECTION("constrained linear systems", "every system of 1..2 equations in 1..3 unknowns with coefficients -1 0 2 (2 equations in 3 unknowns: 0 1 -1) and right-hand sides 0 3, two weightings, guesses zero and by position, tolerances 1e-6 or 1e-8 and 1e-6: a returned point satisfies the equations and is the nearest to the guess in the weighting; regular systems are solved", 4) {
    const int m = 1 + x.Choose(2), n = 1 + x.Choose(3);
    if (m > n)
        throw mc::Prune_();
    std::vector<std::vector<int>> c(m, std::vector<int>(n));
    std::vector<int> rhs(m);
    static const int v1[] = {-1, 0, 2}, v2[] = {0, 1, -1};
    for (auto& r : c)
        for (int& e : r)
            e = m == 2 && n == 3 ? v2[x.Choose(3)] : v1[x.Choose(3)];
    for (int& e : rhs)
        e = x.Flip() ? 3 : 0;
    const bool coupled = x.Flip(), zero = x.Flip(), uneven = m > 1 && x.Flip();
    Sparse::TriDiagonal_ w(n);
    for (int i = 0; i < n; ++i) {
        w.Set(i, i, coupled ? 2.0 + i : 1.0);
        if (i && coupled) {
            w.Set(i, i - 1, -0.5);
            w.Set(i - 1, i, -0.5);
        }
    }
    std::unique_ptr<Sparse::SymmetricDecomposition_> dw(w.DecomposeSymmetric());
    Vector_<> guess(n, 0.0);
    for (int i = 0; i < n && !zero; ++i)
        guess[i] = 0.5 * i - 0.25;
    Func_ f([&](const Vector_<>& v) { return Lin(c, rhs, v); });
    Vector_<> tol(m, 1e-6);
    for (int i = 0; i < m && uneven; i += 2)
        tol[i] = 1e-8;
    const bool regular = m == 1 ? std::any_of(c[0].begin(), c[0].end(), [](int e) { return e != 0; }) : [&] {
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j)
                if (c[0][i] * c[1][j] != c[0][j] * c[1][i])
                    return true;
        return false;
    }();
    Vector_<> got;
    bool threw = false;
    x.Step();
    try {
        got = Underdetermined::Find(f, guess, tol, *dw, Controls(4, 1));
    } catch (const std::exception&) {
        threw = true;
    }
    auto show = [&] {
        std::string s;
        for (int i = 0; i < m; ++i) {
            for (int e : c[i])
                s += std::to_string(e) + " ";
            s += "= " + std::to_string(rhs[i]) + "; ";
        }
        return s;
    };
    if (threw && regular)
        x.Fail("constraints", "regular system %s is not solved", show().c_str());
    if (threw)
        return;
    const Vector_<> r = Lin(c, rhs, got);
    for (int i = 0; i < m; ++i)
        if (!(std::fabs(r[i]) <= tol[i]))
            x.Fail("constraints", "the returned point misses equation %d of %s by %g", i, show().c_str(), r[i]);
    if (!regular)
        return;
    // W (got - guess) must lie in the span of the rows: orthogonal to every direction that keeps the equations
    Vector_<> step(n), ws;
    for (int i = 0; i < n; ++i)
        step[i] = got[i] - guess[i];
    w.MultiplyLeft(step, &ws);
    std::vector<std::vector<double>> kernel;
    if (m == 1)
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < i; ++j) {
                std::vector<double> d(n, 0.0);
                d[i] = c[0][j];
                d[j] = -c[0][i];
                kernel.push_back(d);
            }
    else if (n == 3)
        kernel.push_back({double(c[0][1] * c[1][2] - c[0][2] * c[1][1]), double(c[0][2] * c[1][0] - c[0][0] * c[1][2]), double(c[0][0] * c[1][1] - c[0][1] * c[1][0])});
    for (auto& d : kernel) {
        double s = 0;
        for (int i = 0; i < n; ++i)
            s += d[i] * ws[i];
        if (!(std::fabs(s) <= 1e-4))
            x.Fail("nearest", "the solution of %s is not the nearest to the guess (slope %g)", show().c_str(), s);
    }
}

MC_SECTION("constrained curved systems", "10 curved, discontinuous or partly undefined systems x 5 guesses x tolerances 1e-2 1e-8 x evaluation limits 1 3 8 40 x restart limits 1 5 x back-track tries 1 5: a returned point satisfies the constraints to tolerance, otherwise an error, within the evaluation limit; the two mildly curved systems are solved in 8 evaluations from one gradient", 3) {
    const int which = x.Choose(10), g = x.Choose(5);
    const double tol = x.Flip() ? 1e-8 : 1e-2;
    static const int es[] = {1, 3, 8, 40};
    const int evals = es[x.Choose(4)], restarts = x.Flip() ? 5 : 1, tries = x.Flip() ? 5 : 1;
    static const double gs[5][2] = {{0, 0}, {1, 1}, {-2, 0.5}, {3, 4}, {0.6, 0.8}};
    const double nan = std::numeric_limits<double>::quiet_NaN();
    auto fn = [&](const Vector_<>& v) {
        const double a = v[0], b = v[1];
        switch (which) {
        case 0:
            return Vector_<>({a * a + b * b - 1.0});
        case 1:
            return Vector_<>({a * b - 1.0, a - b});
        case 2:
            return Vector_<>({std::exp(a) - 2.0, b * b * b - a});
        case 3:
            return Vector_<>({a * a + b * b + 1.0}); // no solution
        case 4:
            return Vector_<>({a - 1.0, a > 0.9 ? nan : b}); // undefined near the solution of the first
        case 5:
            return Vector_<>({a > 0.9 ? nan : b, a - 1.0});
        case 6:
            return Vector_<>({a < 0.5 ? -1.0 : 1.0}); // jumps over zero
        case 8:
            return Vector_<>({a + 0.1 * std::sin(b) - 0.3, b + 0.1 * a * a / (1 + a * a) - 0.2}); // mild
        case 9:
            return Vector_<>({2 * a - b + 0.05 * std::cos(a) - 1.0}); // mild
        default:
            return Vector_<>({std::sin(3 * a) + 0.5 * b, std::atan(b) - 0.2});
        }
    };
    Func_ f(fn);
    Sparse::TriDiagonal_ w(2);
    w.Set(0, 0, 1.0);
    w.Set(1, 1, 2.0);
    std::unique_ptr<Sparse::SymmetricDecomposition_> dw(w.DecomposeSymmetric());
    const int m = (int)fn(Vector_<>(2, 0.0)).size();
    Vector_<> guess = {gs[g][0], gs[g][1]}, got;
    x.Step();
    bool threw = false;
    try {
        got = Underdetermined::Find(f, guess, Vector_<>(m, tol), *dw, Controls(evals, restarts, tries));
    } catch (const std::exception&) {
        threw = true;
    }
    if (f.calls_ > evals + 3 * restarts)
        x.Fail("evaluations", "system %d takes %d evaluations with a limit of %d and %d gradients", which, f.calls_, evals, restarts);
    if (threw && which >= 8 && evals >= 8)
        x.Fail("constraints", "mildly curved system %d from guess %d is not solved in %d evaluations with %d gradients", which, g, evals, restarts);
    if (threw) {
        x.Outcome(0);
        return;
    }
    x.Outcome(1);
    const Vector_<> r = fn(got);
    for (int i = 0; i < m; ++i)
        if (!(std::fabs(r[i]) <= tol))
            x.Fail("constraints", "system %d from guess %d: the returned point (%g, %g) misses constraint %d by %g, tolerance %g", which, g, got[0], got[1], i, r[i], tol);
}

MC_SECTION("least-squares compromise", "every system of 1..2 equations in 2 unknowns with coefficients -1 0 2 and right-hand sides 0 3, two weightings, guesses zero and exact, fit tolerances 0.01 1, evaluation limits 4 12: the compromise is never worse than the guess in its own measure, and never undefined", 3) {
    const int m = 1 + x.Choose(2), n = 2;
    std::vector<std::vector<int>> c(m, std::vector<int>(n));
    std::vector<int> rhs(m);
    static const int v1[] = {-1, 0, 2};
    for (auto& r : c)
        for (int& e : r)
            e = v1[x.Choose(3)];
    for (int& e : rhs)
        e = x.Flip() ? 3 : 0;
    const bool coupled = x.Flip();
    const double fit = x.Flip() ? 0.01 : 1.0;
    const int start = x.Choose(2), evals = x.Flip() ? 12 : 4;
    Sparse::TriDiagonal_ w(n);
    w.Set(0, 0, 1.0);
    w.Set(1, 1, coupled ? 3.0 : 1.0);
    if (coupled) {
        w.Set(0, 1, -0.5);
        w.Set(1, 0, -0.5);
    }
    Func_ f([&](const Vector_<>& v) { return Lin(c, rhs, v); });
    Vector_<> guess = start == 0 ? Vector_<>({0.0, 0.0}) : Vector_<>({1.5, -2.0}), got;
    const Vector_<> tol(m, 1e-3);
    x.Step();
    try {
        got = Underdetermined::Approximate(f, guess, tol, fit, w, Controls(evals, 2));
    } catch (const std::exception& e) {
        x.Fail("compromise", "fails: %s", e.what());
    }
    auto cost = [&](const Vector_<>& v) {
        Vector_<> d = {v[0] - guess[0], v[1] - guess[1]}, wd;
        w.MultiplyLeft(d, &wd);
        double s = d[0] * wd[0] + d[1] * wd[1];
        const double jw = 1e-6 * m / (fit * fit);
        for (double e : Lin(c, rhs, v))
            s += jw * (e / 1e-3) * (e / 1e-3);
        return s;
    };
    const double c0 = cost(guess), c1 = cost(got);
    if (!(c1 <= c0 * (1 + 1e-9) + 1e-9))
        x.Fail("compromise", "cost %g is above the guess's %g", c1, c0);
}

MC_SECTION("larger linear systems", "regular systems of 1..8 equations in up to 14 unknowns (4 coefficient patterns, two weightings, two guesses, equal and unequal tolerances): solved to tolerance and nearest to the guess", 2) {
    const int m = 1 + x.Choose(8), n = m + x.Choose(7), ph = x.Choose(4);
    const bool coupled = x.Flip(), zero = x.Flip(), uneven = m > 1 && x.Flip();
    // row i: a large entry in column i, small ones elsewhere - always regular
    std::vector<std::vector<int>> c(m, std::vector<int>(n));
    std::vector<int> rhs(m);
    for (int i = 0; i < m; ++i) {
        for (int j = 0; j < n; ++j)
            c[i][j] = j == i ? 20 + i : (i * 7 + j * 5 + ph * 3 + i * j) % 4 - 1;
        rhs[i] = (i * 3 + ph) % 5 - 2;
    }
    Sparse::TriDiagonal_ w(n);
    for (int i = 0; i < n; ++i) {
        w.Set(i, i, coupled ? 2.0 + i % 3 : 1.0);
        if (i && coupled) {
            w.Set(i, i - 1, -0.5);
            w.Set(i - 1, i, -0.5);
        }
    }
    std::unique_ptr<Sparse::SymmetricDecomposition_> dw(w.DecomposeSymmetric());
    Vector_<> guess(n, 0.0);
    for (int i = 0; i < n && !zero; ++i)
        guess[i] = 0.5 * (i % 4) - 0.25;
    Func_ f([&](const Vector_<>& v) { return Lin(c, rhs, v); });
    Vector_<> tol(m, 1e-6);
    for (int i = 0; i < m && uneven; i += 2)
        tol[i] = 1e-8;
    Vector_<> got;
    x.Step();
    try {
        got = Underdetermined::Find(f, guess, tol, *dw, Controls(4, 1));
    } catch (const std::exception& e) {
        x.Fail("constraints", "a regular system of %d equations in %d unknowns is not solved: %s", m, n, e.what());
    }
    const Vector_<> r = Lin(c, rhs, got);
    for (int i = 0; i < m; ++i)
        if (!(std::fabs(r[i]) <= tol[i]))
            x.Fail("constraints", "the returned point misses equation %d of %d in %d unknowns by %g", i, m, n, r[i]);
    // W (got - guess) = C^T lambda: solve for lambda from the first m columns (regular), then every column must agree
    Vector_<> step(n), ws;
    for (int i = 0; i < n; ++i)
        step[i] = got[i] - guess[i];
    w.MultiplyLeft(step, &ws);
    std::vector<std::vector<double>> a(m, std::vector<double>(m + 1));
    for (int j = 0; j < m; ++j) {
        for (int i = 0; i < m; ++i)
            a[j][i] = c[i][j];
        a[j][m] = ws[j];
    }
    for (int p = 0; p < m; ++p)
        for (int q = 0; q < m; ++q)
            if (q != p) {
                const double k = a[q][p] / a[p][p];
                for (int j = p; j <= m; ++j)
                    a[q][j] -= k * a[p][j];
            }
    for (int j = m; j < n; ++j) {
        double s = 0;
        for (int i = 0; i < m; ++i)
            s += c[i][j] * a[i][m] / a[i][i];
        if (!(std::fabs(s - ws[j]) <= 1e-4))
            x.Fail("nearest", "the solution of %d equations in %d unknowns is not the nearest to the guess (unknown %d: %g, %g)", m, n, j, ws[j], s);
    }
    x.State(mc::Mix(m * 100 + n, ph * 4 + coupled * 2 + zero));
}
