// C23: interpolators and curves against their piecewise definitions, for every small data set.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/smooth.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/time/date.hpp>
#include <dal/utilities/algorithms.hpp>
#include <memory>
using namespace Dal;

namespace {
    // piecewise linear through (x, f), flat outside; at a repeated x the first value
    double Lin(const std::vector<double>& x, const std::vector<double>& f, double t) {
        const int n = x.size();
        if (t <= x[0])
            return f[0];
        for (int i = 1; i < n; ++i)
            if (t <= x[i]) {
                if (t == x[i])
                    return f[i];
                return (f[i - 1] * (x[i] - t) + f[i] * (t - x[i - 1])) / (x[i] - x[i - 1]);
            }
        return f[n - 1];
    }
    template <class T> Vector_<T> V(const std::vector<T>& v) { return Vector_<T>(v.begin(), v.end()); }
    std::string Show(const std::vector<double>& v) {
        std::string s;
        char t[40];
        for (double d : v) {
            snprintf(t, sizeof t, " %g", d);
            s += t;
        }
        return s;
    }
    std::vector<double> Queries(const std::vector<double>& x) {
        std::vector<double> q = {-1e9, -40.0, 40.0, 1e9};
        for (double t = -3.0; t <= 6.0; t += 0.375)
            q.push_back(t);
        for (double t : x) {
            q.push_back(t);
            q.push_back(t - 1e-7);
            q.push_back(t + 1e-7);
        }
        return q;
    }
    template <class F> bool Throws(F f) {
        try {
            f();
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
} // namespace

MC_SECTION("linear", "every non-empty subset of the nodes -2 -0.5 0 1 1.25 4 with every choice of values from -1 0 2.5 (thorough: 7 nodes): both constructors, at nodes, next to nodes, between and outside", 4) {
    static const double grid[] = {-2.0, -0.5, 0.0, 1.0, 1.25, 4.0, 4.5}, vals[] = {-1.0, 0.0, 2.5};
    std::vector<double> nx, nf;
    for (int i = 0; i < (x.thorough_ ? 7 : 6); ++i)
        if (const int c = x.Choose(4)) {
            nx.push_back(grid[i]);
            nf.push_back(vals[c - 1]);
        }
    if (nx.empty()) {
        if (!Throws([&] { Interp1Linear_ e("", Vector_<>(), Vector_<>()); }) || !Throws([&] { Interp1Linear_ e("", std::map<double, double>()); }))
            x.Fail("rejection", "an interpolator without nodes is accepted");
        return;
    }
    std::map<double, double> m;
    for (size_t i = 0; i < nx.size(); ++i)
        m[nx[i]] = nf[i];
    const Interp1Linear_ a("a", V(nx), V(nf)), b("b", m);
    std::unique_ptr<Interp1_> c(Interp::NewLinear("c", V(nx), V(nf)));
    x.State(std::hash<std::string>()(Show(nx) + ":" + Show(nf)));
    for (double q : Queries(nx)) {
        x.Step();
        const double w = Lin(nx, nf, q), t = 1e-12 * (1 + std::fabs(w));
        for (const Interp1_* p : {static_cast<const Interp1_*>(&a), static_cast<const Interp1_*>(&b), static_cast<const Interp1_*>(c.get())})
            if (!(std::fabs((*p)(q) - w) <= t))
                x.Fail("linear", "at %.9g through x%s f%s gives %.15g instead of %.15g", q, Show(nx).c_str(), Show(nf).c_str(), (*p)(q), w);
    }
    for (size_t i = 0; i < nx.size(); ++i)
        if (a(nx[i]) != nf[i] || a.x()[i] != nx[i] || a.f()[i] != nf[i])
            x.Fail("linear", "node %zu of x%s f%s", i, Show(nx).c_str(), Show(nf).c_str());
}

MC_SECTION("repeated nodes and rejection", "every x of length 0..4 over 0 1 2 with every number of values 0..4: decreasing or mismatched data is rejected, repeated nodes keep the first value at the node and both sides' limits", 3) {
    const int n = x.Choose(5), m = x.Choose(5);
    std::vector<double> nx, nf;
    bool ordered = true;
    for (int i = 0; i < n; ++i) {
        nx.push_back(x.Choose(3));
        ordered = ordered && (i == 0 || nx[i] >= nx[i - 1]);
    }
    for (int i = 0; i < m; ++i)
        nf.push_back(i * i + 1);
    std::unique_ptr<Interp1Linear_> p;
    const bool threw = Throws([&] { p.reset(new Interp1Linear_("", V(nx), V(nf))); });
    x.Step();
    if (threw != (n == 0 || n != m || !ordered))
        x.Fail("rejection", "x%s with %d values is %s", Show(nx).c_str(), m, threw ? "rejected" : "accepted");
    if (threw)
        return;
    for (double q : Queries(nx))
        if (!(std::fabs((*p)(q) - Lin(nx, nf, q)) <= 1e-12 * 20))
            x.Fail("linear", "at %.9g through x%s f%s", q, Show(nx).c_str(), Show(nf).c_str());
}

MC_SECTION("linear on differentiable numbers", "every non-empty subset of the nodes -2 -0.5 0 1 with values -1 0 2.5: the value, the slope in x and the weights of the node values", 3) {
    using AAD::Number_;
    static AAD::Tape_ tape;
    Number_::SetTape(tape);
    static const double grid[] = {-2.0, -0.5, 0.0, 1.0}, vals[] = {-1.0, 0.0, 2.5};
    std::vector<double> nx, nf;
    for (int i = 0; i < 4; ++i)
        if (const int c = x.Choose(4)) {
            nx.push_back(grid[i]);
            nf.push_back(vals[c - 1]);
        }
    if (nx.empty())
        throw mc::Prune_();
    const int n = nx.size();
    for (double q : {-3.0, -2.0 + 1e-3, -1.0, -0.25, 0.3, 0.9, 1.5}) {
        bool node = false;
        for (double t : nx)
            node = node || t == q;
        if (node)
            continue;
        x.Step();
        tape.Rewind();
        Vector_<Number_> y(n);
        for (int i = 0; i < n; ++i) {
            y[i] = nf[i];
            y[i].PutOnTape();
        }
        Number_ x0(q);
        x0.PutOnTape();
        Number_ r = InterpLinearImplX<Number_>(V(nx), y, x0) + 0.0;
        r.PropagateToStart();
        const double w = Lin(nx, nf, q), h = 1e-6;
        const double slope = (Lin(nx, nf, q + h) - Lin(nx, nf, q - h)) / (2 * h);
        if (!(std::fabs(r.value() - w) <= 1e-12) || !(std::fabs(x0.Adjoint() - slope) <= 1e-6))
            x.Fail("differentiable", "at %g through x%s f%s: value %g slope %g instead of %g and %g", q, Show(nx).c_str(), Show(nf).c_str(), r.value(), x0.Adjoint(), w, slope);
        for (int i = 0; i < n; ++i) {
            std::vector<double> unit(n, 0.0);
            unit[i] = 1.0;
            if (!(std::fabs(y[i].Adjoint() - Lin(nx, unit, q)) <= 1e-10))
                x.Fail("differentiable", "at %g through x%s: weight of node %d", q, Show(nx).c_str(), i);
        }
    }
}

MC_SECTION("bilinear", "every non-empty subset of x nodes -1 0 2 and y nodes 0 0.5 3 with values by position plus one enumerated change (or all 0/1 patterns up to four nodes): everywhere and outside; mismatched shapes are rejected", 4) {
    static const double gx[] = {-1.0, 0.0, 2.0}, gy[] = {0.0, 0.5, 3.0};
    std::vector<double> nx, ny;
    for (double t : gx)
        if (x.Flip())
            nx.push_back(t);
    for (double t : gy)
        if (x.Flip())
            ny.push_back(t);
    const int r = nx.size(), c = ny.size();
    Matrix_<> f(r, c);
    std::vector<std::vector<double>> g(r, std::vector<double>(c));
    if (r * c <= 6)
        for (int i = 0; i < r; ++i)
            for (int j = 0; j < c; ++j)
                f(i, j) = g[i][j] = x.Flip() ? 3.0 : -0.5;
    else {
        const int which = x.Choose(r * c);
        for (int i = 0; i < r; ++i)
            for (int j = 0; j < c; ++j)
                f(i, j) = g[i][j] = (i * 5 + j * 3) % 7 + (which == i * c + j ? 10.0 : 0.0);
    }
    for (int dr = -1; dr <= 1; ++dr)
        for (int dc = -1; dc <= 1; ++dc) {
            if (r + dr < 0 || c + dc < 0)
                continue;
            std::unique_ptr<Interp2_> p;
            const bool threw = Throws([&] { p.reset(Interp::NewLinear2("", V(nx), V(ny), Matrix_<>(r + dr, c + dc))); });
            if (threw != (dr || dc || r == 0 || c == 0))
                x.Fail("rejection", "%d x %d nodes with %d x %d values are %s", r, c, r + dr, c + dc, threw ? "rejected" : "accepted");
        }
    if (r * c == 0)
        return;
    if (r > 1) {
        auto back = nx;
        std::swap(back[0], back[1]);
        if (!Throws([&] { Interp2Linear_ p("", V(back), V(ny), f); }))
            x.Fail("rejection", "decreasing x nodes are accepted");
    }
    if (c > 1) {
        auto back = ny;
        std::swap(back[c - 1], back[c - 2]);
        if (!Throws([&] { Interp2Linear_ p("", V(nx), V(back), f); }))
            x.Fail("rejection", "decreasing y nodes are accepted");
    }
    const Interp2Linear_ p("p", V(nx), V(ny), f);
    for (double qx : {-5.0, -1.0, -0.999999, -0.5, 0.0, 0.7, 1.5, 2.0, 2.000001, 9.0})
        for (double qy : {-5.0, 0.0, 0.2, 0.5, 0.500001, 1.7, 3.0, 3.3, 10.0}) {
            x.Step();
            std::vector<double> z;
            for (int i = 0; i < r; ++i)
                z.push_back(Lin(ny, g[i], qy));
            const double w = Lin(nx, z, qx);
            if (!(std::fabs(p(qx, qy) - w) <= 1e-11 * (1 + std::fabs(w))))
                x.Fail("bilinear", "at %.9g %.9g with x%s y%s gives %.12g instead of %.12g", qx, qy, Show(nx).c_str(), Show(ny).c_str(), p(qx, qy), w);
        }
}

namespace {
    // the cubic through four points of an interval: value and derivatives at t
    void Cubic(const Interp1_& f, double a, double b, double t, double* d) {
        // coefficients in u = (s - a) / (b - a) from u = 0, 1/3, 2/3, 1
        const double h = b - a, y0 = f(a), y1 = f(a + h / 3), y2 = f(a + 2 * h / 3), y3 = f(b);
        const double c0 = y0, c1 = (-11 * y0 + 18 * y1 - 9 * y2 + 2 * y3) / 2, c2 = (18 * y0 - 45 * y1 + 36 * y2 - 9 * y3) / 2, c3 = (-9 * y0 + 27 * y1 - 27 * y2 + 9 * y3) / 2;
        const double u = (t - a) / h;
        d[0] = c0 + u * (c1 + u * (c2 + u * c3));
        d[1] = (c1 + u * (2 * c2 + u * 3 * c3)) / h;
        d[2] = (2 * c2 + 6 * u * c3) / h / h;
        d[3] = 6 * c3 / h / h / h;
    }
} // namespace

MC_SECTION("cubic", "3..5 (thorough 6) nodes with every spacing from 0.5 1 3, every choice of values from -1 0 2, every pair of boundary conditions of order 1..3 with values 0 and -2 (5 or more nodes: equal orders): through the nodes, one cubic per interval, continuous to second order, both boundary conditions; invalid data rejected", 4) {
    const int n = 3 + x.Choose(x.thorough_ ? 4 : 3);
    std::vector<double> nx = {-1.0}, nf;
    static const double sp[] = {0.5, 1.0, 3.0}, vals[] = {-1.0, 0.0, 2.0};
    for (int i = 1; i < n; ++i)
        nx.push_back(nx.back() + (n >= 5 ? sp[(i * 2 + n) % 3] : sp[x.Choose(3)]));
    for (int i = 0; i < n; ++i)
        nf.push_back(vals[x.Choose(n >= 6 ? 2 : 3)]);
    const int lo = 1 + x.Choose(3), ro = n >= 5 ? lo : 1 + x.Choose(3);
    const double lv = x.Flip() ? -2.0 : 0.0, rv = x.Flip() ? -2.0 : 0.0;
    std::unique_ptr<Interp1_> f(Interp::NewCubic("c", V(nx), V(nf), Interp::Boundary_(lo, lv), Interp::Boundary_(ro, rv)));
    auto what = [&] { return "x" + Show(nx) + " f" + Show(nf) + " left " + std::to_string(lo) + ":" + Show({lv}) + " right " + std::to_string(ro) + ":" + Show({rv}); };
    const double tol = 1e-8 * 100;
    double prev[4];
    for (int i = 0; i + 1 < n; ++i) {
        x.Step();
        double l[4], r[4];
        Cubic(*f, nx[i], nx[i + 1], nx[i], l);
        Cubic(*f, nx[i], nx[i + 1], nx[i + 1], r);
        if ((*f)(nx[i]) != nf[i] || (*f)(nx[i + 1]) != nf[i + 1])
            x.Fail("cubic", "misses a node: %s", what().c_str());
        for (double u : {0.1, 0.5, 0.9, -0.5, 1.75, 1e-3, 1e-7, 1 - 1e-3, 1 - 1e-7}) {
            if ((u < 0 && i) || (u > 1 && i != n - 2)) // outside the nodes the end piece continues
                continue;
            double m[4];
            const double t = nx[i] + u * (nx[i + 1] - nx[i]);
            Cubic(*f, nx[i], nx[i + 1], t, m);
            if (!(std::fabs(m[0] - (*f)(t)) <= 1e-10))
                x.Fail("cubic", "is not one cubic between nodes %d and %d: %s", i, i + 1, what().c_str());
        }
        if (i == 0 && !(std::fabs(l[lo] - lv) <= tol))
            x.Fail("cubic", "left condition is %g: %s", l[lo], what().c_str());
        if (i == n - 2 && !(std::fabs(r[ro] - rv) <= tol))
            x.Fail("cubic", "right condition is %g: %s", r[ro], what().c_str());
        for (int k = 1; i && k <= 2; ++k)
            if (!(std::fabs(l[k] - prev[k]) <= tol))
                x.Fail("cubic", "derivative %d jumps from %g to %g at node %d: %s", k, prev[k], l[k], i, what().c_str());
        std::copy(r, r + 4, prev);
    }
    if (!f->IsInBounds(nx[0]) || !f->IsInBounds(nx[n - 1]) || f->IsInBounds(nx[0] - 1e-9) || f->IsInBounds(nx[n - 1] + 1e-9))
        x.Fail("cubic", "bounds: %s", what().c_str());
}

MC_SECTION("cubic rejection", "every x of length 0..4 over 0 1 2 with every number of values, boundary orders 0..4", 3) {
    const int n = x.Choose(5), m = x.Choose(5), lo = x.Choose(5), ro = x.Choose(5);
    std::vector<double> nx;
    bool ok = n > 2 && n == m && lo >= 1 && lo <= 3 && ro >= 1 && ro <= 3;
    for (int i = 0; i < n; ++i) {
        nx.push_back(x.Choose(4));
        ok = ok && (i == 0 || nx[i] > nx[i - 1]);
    }
    x.Step();
    const bool threw = Throws([&] { std::unique_ptr<Interp1_> p(Interp::NewCubic("", V(nx), Vector_<>(m, 1.0), Interp::Boundary_(lo, 0.0), Interp::Boundary_(ro, 0.0))); });
    if (threw == ok)
        x.Fail("rejection", "cubic through x%s with %d values and boundaries %d %d is %s", Show(nx).c_str(), m, lo, ro, threw ? "rejected" : "accepted");
}

MC_SECTION("smoothing", "2..4 nodes with spacings 0.5 2, values -1 0 3, weights absent or from 1 4, strengths 0 0.5 10: the smoothed values minimise the weighted misfit plus the squared slopes", 4) {
    const int n = 2 + x.Choose(3);
    std::vector<double> nx = {0.0}, y, w;
    static const double vals[] = {-1.0, 0.0, 3.0}, ls[] = {0.0, 0.5, 10.0};
    for (int i = 1; i < n; ++i)
        nx.push_back(nx.back() + (x.Flip() ? 2.0 : 0.5));
    for (int i = 0; i < n; ++i)
        y.push_back(vals[x.Choose(3)]);
    if (x.Flip())
        for (int i = 0; i < n; ++i)
            w.push_back(x.Flip() ? 4.0 : 1.0);
    const double l = ls[x.Choose(3)];
    const Vector_<> z = SmoothedVals(V(nx), V(y), V(w), l);
    x.Step();
    bool ok = (int)z.size() == n;
    for (int i = 0; ok && i < n; ++i) {
        double g = (w.empty() ? 1.0 : w[i]) * (z[i] - y[i]);
        if (i)
            g += l * (z[i] - z[i - 1]) / (nx[i] - nx[i - 1]);
        if (i + 1 < n)
            g += l * (z[i] - z[i + 1]) / (nx[i + 1] - nx[i]);
        ok = std::fabs(g) < 1e-9;
    }
    if (!ok)
        x.Fail("smoothing", "x%s y%s w%s strength %g", Show(nx).c_str(), Show(y).c_str(), Show(w).c_str(), l);
    if (!Throws([&] { SmoothedVals(V(nx), Vector_<>(n + 1, 1.0), V(w), l); }) || !Throws([&] { SmoothedVals(V(nx), V(y), Vector_<>(n - 1, 1.0), l); }))
        x.Fail("rejection", "mismatched data is smoothed");
    std::swap(nx[0], nx[1]);
    if (!Throws([&] { SmoothedVals(V(nx), V(y), V(w), l); }))
        x.Fail("rejection", "unordered data is smoothed");
}

namespace {
    const int OFF[] = {0, 1, 30, 31, 400};
    Date_ At(int off) { return Date_(2024, 1, 15).AddDays(off); }
    const int QS[] = {-700, -1, 0, 1, 2, 15, 29, 30, 31, 32, 200, 399, 400, 401, 9000};
} // namespace

MC_SECTION("piecewise constant", "every subset of five knot dates with every choice of values from -0.02 0 0.05: values, knots, integrals between every pair of 15 dates; mismatched and unordered knots rejected", 4) {
    static const double vals[] = {-0.02, 0.0, 0.05};
    std::vector<int> k;
    std::vector<double> v;
    Vector_<Date_> d;
    for (int o : OFF)
        if (const int c = x.Choose(4)) {
            k.push_back(o);
            v.push_back(vals[c - 1]);
            d.push_back(At(o));
        }
    const int n = k.size();
    const PiecewiseConstant_ f(d, V(v), "pwc");
    PiecewiseConstant_ g(d, V(v));
    auto value = [&](int t) {
        double r = 0;
        for (int i = 0; i < n; ++i)
            if (t >= k[i])
                r = v[i];
        return r;
    };
    auto area = [&](int t) { // day by day between knots
        double s = 0;
        for (int i = 0; i < n; ++i) {
            const int lo = k[i], hi = i + 1 < n ? std::min(k[i + 1], t) : t;
            if (hi > lo)
                s += (hi - lo) * v[i];
        }
        return s;
    };
    for (int t : QS) {
        x.Step();
        bool knot = t % 2;
        const double got = PWC::F(f, At(t), &knot);
        if (got != value(t) || PWC::F(f, At(t)) != got || knot != (std::find(k.begin(), k.end(), t) != k.end()))
            x.Fail("piecewise constant", "value %g, knot %d on day %d of %d knots", got, knot, t, n);
        if (!(std::fabs(f.IntegralTo(At(t)) - area(t)) <= 1e-9))
            x.Fail("piecewise constant", "integral to day %d of %d knots is %g instead of %g", t, n, f.IntegralTo(At(t)), area(t));
        for (int s : QS)
            if (!(std::fabs(PWC::Integral(f, At(s), At(t)) - (area(t) - area(s))) <= 1e-9))
                x.Fail("piecewise constant", "integral from %d to %d", s, t);
    }
    if (!Throws([&] { PiecewiseConstant_ b(d, Vector_<>(n + 1, 1.0)); }) || (n && !Throws([&] { PiecewiseConstant_ b(d, Vector_<>(n - 1, 1.0)); })))
        x.Fail("rejection", "mismatched knots and values are accepted");
    if (n > 1) {
        std::swap(d[0], d[n - 1]);
        if (!Throws([&] { PiecewiseConstant_ b(d, V(v)); }))
            x.Fail("rejection", "unordered knots are accepted");
        d[0] = d[n - 1];
        if (!Throws([&] { PiecewiseConstant_ b(d, V(v)); }))
            x.Fail("rejection", "repeated knots are accepted");
    }
    // changed in place and updated
    if (n) {
        g.fRight_[0] += 1.0;
        g.Update();
        const double up = g.IntegralTo(At(500)) - f.IntegralTo(At(500)), want = (n > 1 ? k[1] : 500) - k[0];
        if (!(std::fabs(up - want) <= 1e-9))
            x.Fail("piecewise constant", "an update changes the integral by %g instead of %g", up, want);
        std::unique_ptr<PiecewiseConstant_> flat(PWC::NewConstant(0.03, At(k[0])));
        if (PWC::F(*flat, At(k[0])) != 0.03 || PWC::F(*flat, At(k[0] - 1)) != 0.0 || std::fabs(flat->IntegralTo(At(k[0] + 10)) - 0.3) > 1e-12)
            x.Fail("piecewise constant", "a constant from day %d", k[0]);
    }
}

MC_SECTION("piecewise linear and discounting", "every non-empty subset of up to three of four knot dates with left and right values from -0.01 0.04 each, with and without a base curve: values from both sides, integrals, discount factors along every chain of dates, clones with another base; mismatched and unordered knots rejected", 4) {
    static const int off[] = {0, 1, 31, 400};
    std::vector<int> k;
    std::vector<double> l, r;
    Vector_<Date_> d;
    for (int o : off)
        if (k.size() < 3 && x.Flip()) {
            k.push_back(o);
            l.push_back(x.Flip() ? 0.04 : -0.01);
            r.push_back(x.Flip() ? 0.04 : -0.01);
            d.push_back(At(o));
        }
    const int n = k.size();
    if (n == 0) {
        if (!Throws([&] { PiecewiseLinear_ e(d, Vector_<>(), Vector_<>()); }))
            x.Fail("rejection", "a function without knots is accepted");
        return;
    }
    const PiecewiseLinear_ f(d, V(l), V(r));
    auto value = [&](double t, bool right) {
        if (t < k[0] || (t == k[0] && !right))
            return l[0];
        if (t > k[n - 1] || (t == k[n - 1] && right))
            return r[n - 1];
        for (int i = 1; i < n; ++i)
            if (t < k[i] || (t == k[i] && !right))
                return r[i - 1] + (l[i] - r[i - 1]) * (t - k[i - 1]) / double(k[i] - k[i - 1]);
        return 0.0;
    };
    auto area = [&](int t) { // from the first knot: exact by trapezoids between breakpoints
        std::vector<int> b = {k[0], t};
        for (int i : k)
            if (i > std::min(k[0], t) && i < std::max(k[0], t))
                b.push_back(i);
        std::sort(b.begin(), b.end());
        double s = 0;
        for (size_t i = 0; i + 1 < b.size(); ++i)
            s += (b[i + 1] - b[i]) * (value(b[i], true) + value(b[i + 1], false)) / 2;
        return t < k[0] ? -s : s;
    };
    Handle_<DiscountCurve_> base;
    const bool with = x.Flip();
    const PiecewiseLinear_ fb({At(10), At(100)}, {0.01, 0.02}, {0.03, 0.05});
    if (with)
        base.reset(NewDiscountPWLF("base", fb));
    std::unique_ptr<DiscountCurve_> dc(NewDiscountPWLF("curve", f, base));
    auto want = [&](int a, int b, bool w) { return std::exp(-(area(b) - area(a)) / 365.0) * (w ? std::exp(-(fb.IntegralTo(At(b)) - fb.IntegralTo(At(a))) / 365.0) : 1.0); };
    static const int qs[] = {-700, -1, 0, 1, 2, 15, 30, 31, 32, 200, 399, 400, 401, 5000};
    for (int t : qs) {
        x.Step();
        for (int right = 0; right < 2; ++right)
            if (!(std::fabs(f.ValueAt(At(t), right) - value(t, right)) <= 1e-12))
                x.Fail("piecewise linear", "value on day %d from the %s is %g instead of %g", t, right ? "right" : "left", f.ValueAt(At(t), right), value(t, right));
        if (f.ValueAt(At(t)) != f.ValueAt(At(t), true))
            x.Fail("piecewise linear", "the default side");
        if (!(std::fabs(f.IntegralTo(At(t)) - area(t)) <= 1e-9))
            x.Fail("piecewise linear", "integral to day %d is %g instead of %g", t, f.IntegralTo(At(t)), area(t));
        for (int s : qs) {
            const double df = (*dc)(At(s), At(t));
            if (!(std::fabs(df / want(s, t, with) - 1) <= 1e-10))
                x.Fail("discount", "from %d to %d is %.12g instead of %.12g", s, t, df, want(s, t, with));
            if ((s == t && df != 1.0))
                x.Fail("discount", "to the same date is %.17g", df);
            for (int u : {0, 31, 401})
                if (!(std::fabs((*dc)(At(s), At(u)) * (*dc)(At(u), At(t)) / df - 1) <= 1e-10))
                    x.Fail("discount", "from %d to %d through %d", s, t, u);
        }
    }
    // polling and cloning
    Vector_<const YCComponent_*> all;
    dc->Poll(&all);
    if (all.size() != (with ? 2u : 1u) || all[0] != dc.get() || (with && all[1] != base.get()))
        x.Fail("components", "a curve %s base lists %zu components", with ? "with" : "without", all.size());
    YCComponent_::substitutions_t have;
    dc->Poll(&have);
    if (have.size() != (with ? 1u : 0u) || (with && have.begin()->second.get() != base.get()))
        x.Fail("components", "handles of a curve %s base", with ? "with" : "without");
    YCComponent_::substitutions_t to;
    Handle_<YCComponent_> other(NewDiscountPWLF("other", PiecewiseLinear_({At(0)}, {0.1}, {0.1})));
    if (with && x.Flip())
        to[base.get()] = other;
    std::unique_ptr<YCComponent_> cl(dc->Clone("clone", to));
    auto* cd = dynamic_cast<DiscountCurve_*>(cl.get());
    if (!cd || cd->name_ != "clone")
        x.Fail("components", "clone");
    for (int t : {-5, 40, 500}) {
        const double w = to.empty() ? (*dc)(At(0), At(t)) : want(0, t, false) * std::exp(-0.1 * t / 365.0);
        if (!(std::fabs((*cd)(At(0), At(t)) / w - 1) <= 1e-10))
            x.Fail("components", "the clone discounts to day %d by %g instead of %g", t, (*cd)(At(0), At(t)), w);
    }
    if (!Throws([&] { PiecewiseLinear_ b(d, Vector_<>(n + 1, 1.0), V(r)); }) || !Throws([&] { PiecewiseLinear_ b(d, V(l), Vector_<>(n - 1, 1.0)); }))
        x.Fail("rejection", "mismatched knots and values are accepted");
    if (n > 1) {
        std::swap(d[0], d[n - 1]);
        if (!Throws([&] { PiecewiseLinear_ b(d, V(l), V(r)); }))
            x.Fail("rejection", "unordered knots are accepted");
    }
}

MC_SECTION("chains of curves", "discount curves on a base on a base ..., 1..12 levels, 3 kinds of forward rates by level: the product of all levels, the list of components, and a clone with the direct base replaced", 1) {
    const int n = 1 + x.Choose(12), kind = x.Choose(3);
    std::vector<Handle_<DiscountCurve_>> c;
    std::vector<PiecewiseLinear_> f;
    for (int i = 0; i < n; ++i) {
        const double r = kind == 0 ? 0.01 : kind == 1 ? 0.01 * (i - 3) : 0.002 * i * i;
        f.push_back(PiecewiseLinear_({At(10 + i), At(100 + 7 * i)}, {r, r + 0.01}, {r + 0.02, r}));
        c.push_back(Handle_<DiscountCurve_>(NewDiscountPWLF(String_("c" + std::to_string(i)), f.back(), i ? c.back() : Handle_<DiscountCurve_>())));
    }
    auto want = [&](int lo, int hi, int a, int b) {
        double s = 0;
        for (int i = lo; i < hi; ++i)
            s += f[i].IntegralTo(At(b)) - f[i].IntegralTo(At(a));
        return std::exp(-s / 365.0);
    };
    static const int qs[] = {-700, 0, 10, 11, 90, 150, 5000};
    for (int a : qs)
        for (int b : qs) {
            x.Step();
            if (!(std::fabs((*c.back())(At(a), At(b)) / want(0, n, a, b) - 1) <= 1e-10))
                x.Fail("discount", "from %d to %d through %d levels", a, b, n);
        }
    Vector_<const YCComponent_*> all;
    c.back()->Poll(&all);
    bool ok = (int)all.size() == n;
    for (int i = 0; ok && i < n; ++i)
        ok = all[i] == c[n - 1 - i].get();
    if (!ok)
        x.Fail("components", "a chain of %d levels lists %zu components", n, all.size());
    YCComponent_::substitutions_t have;
    c.back()->Poll(&have);
    ok = (int)have.size() == n - 1;
    for (int i = 0; ok && i + 1 < n; ++i)
        ok = have.count(c[i].get()) && have[c[i].get()].get() == c[i].get();
    if (!ok)
        x.Fail("components", "a chain of %d levels has %zu handles", n, have.size());
    if (n > 1) {
        YCComponent_::substitutions_t to;
        to[c[n - 2].get()] = Handle_<YCComponent_>(NewDiscountPWLF("other", PiecewiseLinear_({At(0)}, {0.1}, {0.1})));
        std::unique_ptr<YCComponent_> cl(c.back()->Clone("clone", to));
        for (int t : {-5, 40, 500})
            if (!(std::fabs((*dynamic_cast<DiscountCurve_*>(cl.get()))(At(0), At(t)) / (want(n - 1, n, 0, t) * std::exp(-0.1 * t / 365.0)) - 1) <= 1e-10))
                x.Fail("components", "a clone with its base replaced, of %d levels", n);
    }
    x.State(n * 3 + kind);
}

MC_SECTION("many nodes", "linear, bilinear, cubic, smoothed, piecewise constant and piecewise linear functions of 6..80 nodes (two-dimensional: up to 24 x 17) x 3 spacings, at, next to and between all nodes and outside", 1) {
    const int what = x.Choose(6);
    const int n = 6 + x.Choose(75);
    const int ph = x.Choose(3);
    std::vector<double> nx = {-2.0}, nf;
    static const double sp[] = {0.5, 1.0, 3.0};
    for (int i = 1; i < n; ++i)
        nx.push_back(nx.back() + (ph == 0 ? 0.25 : sp[(i * (ph + 1) + i / 3) % 3]));
    for (int i = 0; i < n; ++i)
        nf.push_back((i * 7 + ph) % 5 - 1.5 + (i == n / 2 ? 10 : 0));
    x.State(mc::Mix(what * 100 + n, ph));
    x.Step(n);
    if (what == 0) {
        const Interp1Linear_ a("a", V(nx), V(nf));
        auto qs = Queries(nx);
        for (int i = 1; i < n; ++i)
            for (double u : {0.1, 0.5, 0.9})
                qs.push_back(nx[i - 1] + u * (nx[i] - nx[i - 1]));
        for (double q : qs) {
            const double w = Lin(nx, nf, q);
            if (!(std::fabs(a(q) - w) <= 1e-11 * (1 + std::fabs(w))))
                x.Fail("linear", "at %.9g of %d nodes gives %.15g instead of %.15g", q, n, a(q), w);
        }
    } else if (what == 1) {
        const int r = 2 + n % 23, c = 2 + n % 16;
        std::vector<double> gx(nx.begin(), nx.begin() + std::min(r, n)), gy;
        for (int j = 0; j < c; ++j)
            gy.push_back(j * (j + 1) / 2.0);
        Matrix_<> f(gx.size(), c);
        std::vector<std::vector<double>> g(gx.size(), std::vector<double>(c));
        for (size_t i = 0; i < gx.size(); ++i)
            for (int j = 0; j < c; ++j)
                f(i, j) = g[i][j] = static_cast<int>(i * 5 + j * 3 + i * j) % 11;
        const Interp2Linear_ p("p", V(gx), V(gy), f);
        auto mid = [](const std::vector<double>& v) {
            std::vector<double> q = {v[0] - 5, v.back() + 5};
            for (size_t i = 0; i < v.size(); ++i) {
                q.push_back(v[i]);
                if (i)
                    q.push_back(0.3 * v[i] + 0.7 * v[i - 1]);
            }
            return q;
        };
        for (double qx : mid(gx))
            for (double qy : mid(gy)) {
                std::vector<double> z;
                for (size_t i = 0; i < gx.size(); ++i)
                    z.push_back(Lin(gy, g[i], qy));
                const double w = Lin(gx, z, qx);
                if (!(std::fabs(p(qx, qy) - w) <= 1e-10 * (1 + std::fabs(w))))
                    x.Fail("bilinear", "at %.9g %.9g of %zu x %d nodes gives %.12g instead of %.12g", qx, qy, gx.size(), c, p(qx, qy), w);
            }
    } else if (what == 2) {
        const int lo = 1 + ph, ro = 1 + (n + ph) % 3;
        const double lv = 0.5, rv = -0.25, tol = 1e-5;
        std::unique_ptr<Interp1_> f(Interp::NewCubic("c", V(nx), V(nf), Interp::Boundary_(lo, lv), Interp::Boundary_(ro, rv)));
        double prev[4];
        for (int i = 0; i + 1 < n; ++i) {
            double l[4], r[4];
            Cubic(*f, nx[i], nx[i + 1], nx[i], l);
            Cubic(*f, nx[i], nx[i + 1], nx[i + 1], r);
            if ((*f)(nx[i]) != nf[i] || (*f)(nx[i + 1]) != nf[i + 1])
                x.Fail("cubic", "misses a node of %d", n);
            for (double u : {0.1, 0.5, 0.9, -0.5, 1.75}) {
                if ((u < 0 && i) || (u > 1 && i != n - 2))
                    continue;
                double m[4];
                const double t = nx[i] + u * (nx[i + 1] - nx[i]);
                Cubic(*f, nx[i], nx[i + 1], t, m);
                if (!(std::fabs(m[0] - (*f)(t)) <= tol))
                    x.Fail("cubic", "is not one cubic between nodes %d and %d of %d", i, i + 1, n);
            }
            if (i == 0 && !(std::fabs(l[lo] - lv) <= tol * 10))
                x.Fail("cubic", "left condition of order %d is %g of %d nodes", lo, l[lo], n);
            if (i == n - 2 && !(std::fabs(r[ro] - rv) <= tol * 10))
                x.Fail("cubic", "right condition of order %d is %g of %d nodes", ro, r[ro], n);
            for (int k = 1; i && k <= 2; ++k)
                if (!(std::fabs(l[k] - prev[k]) <= tol * 10))
                    x.Fail("cubic", "derivative %d jumps from %g to %g at node %d of %d", k, prev[k], l[k], i, n);
            std::copy(r, r + 4, prev);
        }
    } else if (what == 3) {
        std::vector<double> w;
        for (int i = 0; ph && i < n; ++i)
            w.push_back(1.0 + i % 3);
        for (double l : {0.0, 0.7, 20.0}) {
            const Vector_<> z = SmoothedVals(V(nx), V(nf), V(w), l);
            bool ok = (int)z.size() == n;
            for (int i = 0; ok && i < n; ++i) {
                double g = (w.empty() ? 1.0 : w[i]) * (z[i] - nf[i]);
                if (i)
                    g += l * (z[i] - z[i - 1]) / (nx[i] - nx[i - 1]);
                if (i + 1 < n)
                    g += l * (z[i] - z[i + 1]) / (nx[i + 1] - nx[i]);
                ok = std::fabs(g) < 1e-7;
            }
            if (!ok)
                x.Fail("smoothing", "of %d nodes with strength %g", n, l);
        }
    } else {
        std::vector<int> k;
        Vector_<Date_> d;
        std::vector<double> l, r;
        for (int i = 0; i < n; ++i) {
            k.push_back(i ? k.back() + (ph == 0 ? 1 : ph == 1 ? 30 : 1 + (i * 11) % 47) : 3);
            d.push_back(At(k.back()));
            l.push_back(0.01 * ((i * 5) % 7) - 0.02);
            r.push_back(0.01 * ((i * 3 + ph) % 5));
        }
        std::vector<int> qs = {-50, 0, k.back() + 1, k.back() + 900};
        for (int i : k)
            for (int o : {-1, 0, 1})
                qs.push_back(i + o);
        if (what == 4) {
            const PiecewiseConstant_ f(d, V(r), "pwc");
            double sum = 0;
            int at = -50, seg = -1;
            std::map<int, double> area;
            for (; at <= k.back() + 900; ++at) {
                if (seg + 1 < n && k[seg + 1] == at)
                    ++seg;
                area[at] = sum;
                bool knot;
                if (std::find(qs.begin(), qs.end(), at) != qs.end() && (PWC::F(f, At(at), &knot) != (seg < 0 ? 0.0 : r[seg]) || knot != (seg >= 0 && k[seg] == at)))
                    x.Fail("piecewise constant", "value on day %d of %d knots", at, n);
                sum += seg < 0 ? 0.0 : r[seg];
            }
            for (int t : qs)
                if (!(std::fabs(f.IntegralTo(At(t)) - area[t]) <= 1e-8))
                    x.Fail("piecewise constant", "integral to day %d of %d knots is %g instead of %g", t, n, f.IntegralTo(At(t)), area[t]);
        } else {
            const PiecewiseLinear_ f(d, V(l), V(r));
            auto value = [&](double t, bool right) {
                if (t < k[0] || (t == k[0] && !right))
                    return l[0];
                if (t > k[n - 1] || (t == k[n - 1] && right))
                    return r[n - 1];
                for (int i = 1; i < n; ++i)
                    if (t < k[i] || (t == k[i] && !right))
                        return r[i - 1] + (l[i] - r[i - 1]) * (t - k[i - 1]) / double(k[i] - k[i - 1]);
                return 0.0;
            };
            auto area = [&](int t) {
                double s = 0;
                for (int u = std::min(k[0], t); u < std::max(k[0], t); ++u)
                    s += (value(u, true) + value(u + 1, false)) / 2;
                return t < k[0] ? -s : s;
            };
            std::unique_ptr<DiscountCurve_> dc(NewDiscountPWLF("curve", f));
            for (int t : qs) {
                for (int right = 0; right < 2; ++right)
                    if (!(std::fabs(f.ValueAt(At(t), right) - value(t, right)) <= 1e-12))
                        x.Fail("piecewise linear", "value on day %d of %d knots", t, n);
                const double a = area(t);
                if (!(std::fabs(f.IntegralTo(At(t)) - a) <= 1e-7) || !(std::fabs((*dc)(At(k[0]), At(t)) / std::exp(-a / 365.0) - 1) <= 1e-9))
                    x.Fail("piecewise linear", "integral to day %d of %d knots is %g instead of %g", t, n, f.IntegralTo(At(t)), a);
            }
        }
    }
}
