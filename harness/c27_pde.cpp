// C27: meshes, difference operators and the theta scheme of the one-dimensional solver, for every small mesh and coefficient set.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/pde/fd1d.hpp>
#include <dal/math/pde/finitedifference.hpp>
#include <dal/math/pde/meshers/uniform1dmesher.hpp>
#include <dal/math/pde/meshers/concentrating1dmesher.hpp>
#include <dal/storage/archive.hpp>
#include <bitset>
#include <dal/math/pde/pde.hpp>
#include <cmath>
#include <cstdarg>
#include <limits>
#include <memory>
using namespace Dal;
using ld = long double;

namespace {
    __attribute__((format(printf, 2, 3))) void Seen(mc::Ctx_& x, const char* fmt, ...) {
        char buf[300];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        x.State(std::hash<std::string>()(buf));
        x.Sample(buf);
    }
    template <class F> bool Throws(F f) {
        try {
            f();
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    bool Near(double a, ld b, ld tol) { return std::isfinite(a) && fabsl(a - b) <= tol; }
    std::vector<double> D(std::initializer_list<double> v) { return v; }
    const double NaN = std::numeric_limits<double>::quiet_NaN();

    struct Mesh_ : FDM1DMesher_ {
        explicit Mesh_(const std::vector<double>& p) : FDM1DMesher_((int)p.size()) {
            for (size_t i = 0; i < p.size(); ++i)
                locations_[(int)i] = p[i];
            for (size_t i = 0; i + 1 < p.size(); ++i)
                dplus_[(int)i] = dminus_[(int)i + 1] = p[i + 1] - p[i];
        }
    };

    void CheckMesh(mc::Ctx_& x, const FDM1DMesher_& m, double a, double b, int n, const char* what) {
        if (m.Size() != n || m.Locations().size() != n)
            x.Fail("size", "%s has %d points", what, m.Size());
        if (m.Location(0) != a || m.Location(n - 1) != b)
            x.Fail("ends", "%s runs from %.17g to %.17g", what, m.Location(0), m.Location(n - 1));
        const double eps = 1e-12 * (std::fabs(a) + std::fabs(b));
        for (int i = 0; i + 1 < n; ++i) {
            const double d = m.Location(i + 1) - m.Location(i);
            if (!(d > 0.0) || m.Locations()[i] != m.Location(i))
                x.Fail("increasing", "%s does not increase after point %d: %.17g %.17g", what, i, m.Location(i), m.Location(i + 1));
            if (!Near(m.DPlus(i), d, eps) || !Near(m.DMinus(i + 1), d, eps))
                x.Fail("gaps", "%s: gaps after point %d are %.17g and %.17g, points differ by %.17g", what, i, m.DPlus(i), m.DMinus(i + 1), d);
        }
    }
}

MC_SECTION("uniform-mesh", "5 starts x 6 widths (zero, negative included) x sizes 0 to 40", 2) {
    const double a = x.Pick(D({0.0, -3.0, 1e-3, 50.0, NaN}));
    const double w = x.Pick(D({1.0, 0.01, 500.0, 0.1, 0.0, -2.0}));
    for (int n = -1; n <= 40; ++n) {
        x.Step();
        if (!(w > 0.0) || std::isnan(a) || n < 2) {
            if (!Throws([&] { Uniform1DMesher_ m(a, a + w, n); }))
                x.Fail("accepted", "uniform mesh of %d points from %g with width %g", n, a, w);
            continue;
        }
        const double b = a + w;
        Uniform1DMesher_ m(a, b, n);
        CheckMesh(x, m, a, b, n, "uniform mesh");
        for (int i = 0; i < n; ++i)
            if (!Near(m.Location(i), a + ((ld)b - a) * i / (n - 1), 1e-13L * (fabs(a) + fabs(b))))
                x.Fail("point", "uniform mesh of %d from %g to %g: point %d is %.17g", n, a, b, i, m.Location(i));
    }
    Seen(x, "uniform from %g width %g", a, w);
}

MC_SECTION("concentrating-mesh", "4 starts x 5 widths x 9 concentration points x 7 densities x with/without the point on the mesh x sizes -1 to 14, 51", 3) {
    const double a = x.Pick(D({0.0, -3.0, 0.5, 50.0}));
    const double w = x.Pick(D({1.0, 0.02, 500.0, 0.0, -2.0}));
    const double rel = x.Pick(D({0.0, 1e-6, 0.1, 0.37, 0.5, 0.9, 1.0, -0.01, 1.01}));
    const double density = x.Pick(D({0.001, 0.01, 0.1, 1.0, 1000.0, 0.0, -0.1}));
    const bool onMesh = x.Flip();
    const double b = a + w;
    const double c = rel == 1.0 ? b : a + rel * w;
    for (int k = -1; k <= 15; ++k) {
        const int n = k == 15 ? 51 : k;
        x.Step();
        const bool bad = !(w > 0.0) || n < 2 || rel < 0.0 || rel > 1.0 || !(density > 0.0);
        if (bad) {
            // reversed bounds: the point is outside whatever the density
            if (!Throws([&] { Concentrating1dMesher_ m(a, b, n, std::make_pair(c, density), onMesh); }))
                x.Fail("accepted", "concentrating mesh of %d points from %g to %g around %g density %g", n, a, b, c, density);
            continue;
        }
        Concentrating1dMesher_ m(a, b, n, std::make_pair(c, density), onMesh);
        char what[160];
        snprintf(what, sizeof what, "mesh of %d from %g to %g around %g density %g%s", n, a, b, c, density, onMesh ? " on mesh" : "");
        CheckMesh(x, m, a, b, n, what);
        // gaps grow away from the point
        for (int i = 0; i + 2 < n; ++i) {
            const double g1 = m.Location(i + 1) - m.Location(i), g2 = m.Location(i + 2) - m.Location(i + 1);
            const double tol = 1e-9 * (g1 + g2) + 1e-13 * (fabs(a) + fabs(b));
            if ((m.Location(i) >= c && g2 < g1 - tol) || (m.Location(i + 2) <= c && g1 < g2 - tol))
                x.Fail("concentrate", "%s: gaps %.12g, %.12g at point %d", what, g1, g2, i + 1);
        }
        // in the stretched coordinate asinh((x - c) / (density width)) points are evenly spread, on each side if the point is to be hit
        const double s = density * w;
        auto y = [&](double p) { return std::asinh((p - c) / s); };
        if (onMesh && n > 2) {
            double best = 1e300;
            int at = -1;
            for (int i = 0; i < n; ++i)
                if (fabs(m.Location(i) - c) < best) {
                    best = fabs(m.Location(i) - c);
                    at = i;
                }
            if (best > 1e-11 * (w + fabs(c)) )
                x.Fail("hit", "%s: nearest point is off by %g", what, best);
            for (int i = 1; i < n - 1; ++i) {
                const double u = i <= at ? y(a) + (0.0 - y(a)) * i / std::max(at, 1) : y(b) * (i - at) / (n - 1 - at);
                if (fabs(y(m.Location(i)) - u) > 1e-7 * (y(b) - y(a)))
                    x.Fail("spread", "%s: point %d is %.12g", what, i, m.Location(i));
            }
        } else if (!onMesh)
            for (int i = 1; i < n - 1; ++i) {
                const double u = y(a) + (y(b) - y(a)) * i / (n - 1);
                if (fabs(y(m.Location(i)) - u) > 1e-7 * (y(b) - y(a)))
                    x.Fail("spread", "%s: point %d is %.12g", what, i, m.Location(i));
            }
    }
    Seen(x, "from %g width %g around %g density %g %d", a, w, c, density, onMesh);
}

namespace {
    std::vector<double> ChooseMesh(mc::Ctx_& x, int lo, int hi) {
        const int n = lo + x.Choose(hi - lo + 1);
        std::vector<double> p(1, x.Pick(D({0.0, -2.0})));
        for (int i = 1; i < n; ++i)
            p.push_back(p.back() + x.Pick(D({1.0, 0.125, 4.0})));
        return p;
    }
    std::string Show(const std::vector<double>& p) {
        std::string s;
        char b[30];
        for (double v : p) {
            snprintf(b, sizeof b, " %g", v);
            s += b;
        }
        return s;
    }
    // slope and curvature of the parabola through three points, as weights
    void Parabola(ld a, ld b, ld c, ld w1[3], ld w2[3]) {
        const ld da = (a - b) * (a - c), db = (b - a) * (b - c), dc = (c - a) * (c - b);
        w1[0] = (b - c) / da;
        w1[1] = (2 * b - a - c) / db;
        w1[2] = (b - a) / dc;
        w2[0] = 2 / da;
        w2[1] = 2 / db;
        w2[2] = 2 / dc;
    }
}

MC_SECTION("operators", "every mesh of 3 to 7 (thorough 8) points with gaps from {1, 1/8, 4} and two starts: exact on parabolas, nothing at the ends, three-point", 3) {
    const auto p = ChooseMesh(x, 1, x.thorough_ ? 8 : 7);
    const Mesh_ m(p);
    const int n = p.size();
    x.Step(2);
    if (n < 3) {
        if (!Throws([&] { std::unique_ptr<Sparse::TriDiagonal_> t(PDE::Dx(m)); }) || !Throws([&] { std::unique_ptr<Sparse::TriDiagonal_> t(PDE::Dxx(m)); }))
            x.Fail("small", "operators on %d points", n);
        Seen(x, "%d points", n);
        return;
    }
    const std::unique_ptr<Sparse::TriDiagonal_> d(PDE::Dx(m)), dd(PDE::Dxx(m));
    if (d->Size() != n || dd->Size() != n)
        x.Fail("size", "operator size");
    for (int i = 0; i < n; ++i) {
        ld w1[3] = {0, 0, 0}, w2[3] = {0, 0, 0};
        if (i > 0 && i < n - 1)
            Parabola(p[i - 1], p[i], p[i + 1], w1, w2);
        for (int j = 0; j < n; ++j) {
            const ld e1 = std::abs(i - j) <= 1 ? w1[1 + j - i] : 0.0L, e2 = std::abs(i - j) <= 1 ? w2[1 + j - i] : 0.0L;
            if (!Near((*d)(i, j), e1, 1e-12L * (1 + fabsl(e1))))
                x.Fail("slope", "first derivative on%s: entry %d,%d is %.15g, expected %.15Lg", Show(p).c_str(), i, j, (*d)(i, j), e1);
            if (!Near((*dd)(i, j), e2, 1e-12L * (1 + fabsl(e2))))
                x.Fail("curvature", "second derivative on%s: entry %d,%d is %.15g, expected %.15Lg", Show(p).c_str(), i, j, (*dd)(i, j), e2);
        }
    }
    // applied to parabolas
    for (int k = 0; k < 3; ++k) {
        Vector_<> f(n), r1, r2;
        for (int i = 0; i < n; ++i)
            f[i] = k == 0 ? 1.0 : k == 1 ? p[i] : p[i] * p[i];
        d->MultiplyLeft(f, &r1);
        dd->MultiplyLeft(f, &r2);
        for (int i = 1; i < n - 1; ++i)
            if (!Near(r1[i], k == 0 ? 0.0 : k == 1 ? 1.0 : 2 * p[i], 1e-10L) || !Near(r2[i], k == 2 ? 2.0 : 0.0, 1e-9L))
                x.Fail("parabola", "derivatives of x^%d on%s at point %d: %.12g, %.12g", k, Show(p).c_str(), i, r1[i], r2[i]);
    }
    Seen(x, "%s", Show(p).c_str());
}

namespace {
    // one step of the theta scheme with the end values held
    std::vector<ld> Roll(const std::vector<double>& p, const std::vector<double>& r, const std::vector<double>& mu, const std::vector<double>& var, ld dt, ld theta, const std::vector<ld>& f) {
        const int n = p.size();
        std::vector<std::vector<ld>> L(n, std::vector<ld>(n, 0.0L));
        for (int i = 1; i < n - 1; ++i) {
            ld w1[3], w2[3];
            Parabola(p[i - 1], p[i], p[i + 1], w1, w2);
            for (int j = 0; j < 3; ++j)
                L[i][i - 1 + j] = mu[i] * w1[j] + 0.5L * var[i] * w2[j] - (j == 1 ? r[i] : 0.0);
        }
        std::vector<ld> b = f;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                b[i] += (1.0L - theta) * dt * L[i][j] * f[j];
        std::vector<std::vector<ld>> A(n, std::vector<ld>(n));
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                A[i][j] = (i == j) - theta * dt * L[i][j];
        for (int c = 0; c < n; ++c) {
            int piv = c;
            for (int i = c + 1; i < n; ++i)
                if (fabsl(A[i][c]) > fabsl(A[piv][c]))
                    piv = i;
            std::swap(A[c], A[piv]);
            std::swap(b[c], b[piv]);
            for (int i = c + 1; i < n; ++i) {
                const ld q = A[i][c] / A[c][c];
                for (int j = c; j < n; ++j)
                    A[i][j] -= q * A[c][j];
                b[i] -= q * b[c];
            }
        }
        for (int c = n - 1; c >= 0; --c) {
            for (int j = c + 1; j < n; ++j)
                b[c] -= A[c][j] * b[j];
            b[c] /= A[c][c];
        }
        return b;
    }
    void Coeffs(int kind, const std::vector<double>& p, std::vector<double>* r, std::vector<double>* mu, std::vector<double>* var) {
        const int n = p.size();
        r->assign(n, 0.0);
        mu->assign(n, 0.0);
        var->assign(n, 0.0);
        for (int i = 0; i < n; ++i) {
            if (kind == 1 || kind >= 4)
                (*var)[i] = 0.04 + 0.02 * i;
            if (kind == 2 || kind >= 4)
                (*mu)[i] = 0.03 * p[i] - 0.01;
            if (kind == 3 || kind >= 4)
                (*r)[i] = 0.05 - 0.03 * (i % 2);
            if (kind == 5) { // proportional dynamics
                (*var)[i] = 0.09 * p[i] * p[i];
                (*mu)[i] = 0.04 * p[i];
                (*r)[i] = 0.06;
            }
        }
    }
    Vector_<> V(const std::vector<double>& v) { return Vector_<>(v.begin(), v.end()); }
}

MC_SECTION("roll-back", "every mesh of 3 to 5 (thorough 6) points with gaps from {1, 1/8, 4} x 6 coefficient sets x 5 thetas x 3 steps x 5 payoffs, one, two and three steps in a row, coefficients changed in between", 3) {
    const auto p = ChooseMesh(x, 3, x.thorough_ ? 6 : 5);
    const int kind = x.Choose(6);
    const double theta = x.Pick(D({0.0, 0.5, 1.0, 0.25, 0.75}));
    const double dt = x.Pick(D({0.1, 0.0, 0.5}));
    const int n = p.size();
    const Mesh_ m(p);
    for (int pay = 0; pay < 5; ++pay) {
        std::vector<ld> f(n);
        for (int i = 0; i < n; ++i)
            f[i] = pay == 0 ? 1.0L : pay == 1 ? 3.0L - 2.0L * p[i] : pay == 2 ? std::max(0.0L, (ld)p[i] - 1.0L) : pay == 3 ? (i == n / 2) : (p[i] > 0.5);
        PDE::FD1D_ fd(m);
        fd.Init();
        if (!(fd.X() == m.Locations()))
            x.Fail("points", "points of the solver");
        fd.Res() = Vector_<>(n);
        for (int i = 0; i < n; ++i)
            fd.Res()[i] = (double)f[i];
        for (int step = 0; step < 3; ++step) {
            x.Step();
            std::vector<double> r, mu, var;
            // the last step has other coefficients
            Coeffs(step == 2 ? (kind + 1) % 6 : kind, p, &r, &mu, &var);
            fd.R() = V(r);
            fd.Mu() = V(mu);
            fd.Var() = V(var);
            const std::vector<ld> want = Roll(p, r, mu, var, dt, theta, f);
            ld size = 1.0L;
            for (int i = 0; i < n; ++i)
                size = std::max(size, std::max(fabsl(want[i]), fabsl(f[i])));
            if (size > 1e9L)
                break; // unstable explicit step
            try {
                fd.RollBwd(dt, theta, fd.Res());
            } catch (const std::exception& e) {
                x.Fail("refused", "step refused on%s kind %d theta %g dt %g: %.100s", Show(p).c_str(), kind, theta, dt, e.what());
            }
            const Vector_<>& got = fd.Res();
            if (got.size() != n)
                x.Fail("length", "%d values", (int)got.size());
            for (int i = 0; i < n; ++i)
                if (!Near(got[i], want[i], 1e-10L * size))
                    x.Fail("value", "mesh%s coefficients %d theta %g dt %g payoff %d step %d: value %d is %.14g, expected %.14Lg", Show(p).c_str(), kind, theta, dt, pay, step, i, got[i], want[i]);
            if (got[0] != (double)f[0] || got[n - 1] != (double)f[n - 1])
                x.Fail("ends", "end values changed to %.15g, %.15g", got[0], got[n - 1]);
            // consequences stated by the property
            if (pay <= 1 && kind <= 1 && step < 2)
                for (int i = 0; i < n; ++i)
                    if (!Near(got[i], f[i], 1e-11L * size))
                        x.Fail("linear", "driftless linear payoff moved at point %d: %.15g from %.15Lg", i, got[i], f[i]);
            for (int i = 0; i < n; ++i)
                f[i] = got[i];
        }
    }
    Seen(x, "mesh%s coefficients %d theta %g dt %g", Show(p).c_str(), kind, theta, dt);
}

MC_SECTION("misuse", "rolling back before initialisation or with coefficients or values of another size (all single mismatches)", 1) {
    const std::vector<double> p = {0.0, 1.0, 2.0, 3.0};
    const Mesh_ m(p);
    const int what = x.Choose(6), size = x.Pick(std::vector<int>{0, 3, 5});
    x.Step();
    PDE::FD1D_ fd(m);
    if (what != 5)
        fd.Init();
    fd.R() = Vector_<>(what == 0 ? size : 4, 0.01);
    fd.Mu() = Vector_<>(what == 1 ? size : 4, 0.01);
    fd.Var() = Vector_<>(what == 2 ? size : 4, 0.01);
    Vector_<> res(what == 3 ? size : 4, 1.0);
    const bool thrown = Throws([&] { fd.RollBwd(0.1, 0.5, res); });
    if (thrown != (what != 4))
        x.Fail(thrown ? "refused" : "accepted", "case %d size %d", what, size);
    Seen(x, "case %d size %d", what, size);
}

MC_SECTION("coordinate-map", "5 widths x 7 stretch ranges x 41 coordinates: map, its two derivatives and its inverse", 1) {
    const double w = x.Pick(D({1.0, 0.05, 7.0, 200.0, 0.0})), range = x.Pick(D({1.0, 1.0000001, 1.01, 2.0, 10.0, 1000.0, 0.5}));
    x.Step();
    if (w <= 0.0 || range < 1.0) {
        if (!Throws([&] { std::unique_ptr<PDE::CoordinateMap_> m(PDE::NewSinhMap(w, range)); }))
            x.Fail("accepted", "map with width %g range %g", w, range);
        Seen(x, "refused %g %g", w, range);
        return;
    }
    const std::unique_ptr<PDE::CoordinateMap_> m(PDE::NewSinhMap(w, range));
    const ld lambda = range > 1.0 ? w / sqrtl((ld)range * range - 1.0L) : 0.0L;
    const double top = m->Y(w);
    for (int i = -20; i <= 20; ++i) {
        x.Step();
        const double y = top * i / 20.0;
        double d1 = -7, d2 = -7;
        const double v = (*m)(y, &d1, &d2);
        const ld e = range > 1.0 ? lambda * sinhl(y / lambda) : (ld)y, e1 = range > 1.0 ? coshl(y / lambda) : 1.0L, e2 = range > 1.0 ? sinhl(y / lambda) / lambda : 0.0L;
        if (!Near(v, e, 1e-6L * (range < 1.001) * w + 1e-11L * w) || !Near(d1, e1, 1e-6L * (range < 1.001) + 1e-11L * range) || !Near(d2, e2, (1e-6L * (range < 1.001) + 1e-11L * range) / w * range))
            x.Fail("map", "width %g range %g at %g: %.15g %.15g %.15g, expected %.15Lg %.15Lg %.15Lg", w, range, y, v, d1, d2, e, e1, e2);
        if ((*m)(y) != v || (*m)(y, &d1) != v)
            x.Fail("optional", "value depends on asking for derivatives");
        if (!Near(m->Y(v), y, 1e-11L * top))
            x.Fail("inverse", "width %g range %g: Y(%.15g) = %.15g, not %.15g", w, range, v, m->Y(v), y);
    }
    double slope;
    if (!Near((*m)(top, &slope), w, 1e-10L * w) || !Near(slope, range, 1e-6L * range))
        x.Fail("range", "width %g range %g: stretch at the edge %.12g", w, range, slope);
    const std::unique_ptr<PDE::CoordinateMap_> id(PDE::NewIdentityMap());
    double a, b;
    if ((*id)(top, &a, &b) != top || a != 1.0 || b != 0.0 || id->Y(top) != top)
        x.Fail("identity", "identity map");
    Seen(x, "width %g range %g", w, range);
}

namespace {
    std::vector<double> LongMesh(int n, int ph) {
        std::vector<double> p(1, ph == 1 ? -2.0 : 0.0);
        static const double gaps[] = {1.0, 0.125, 4.0, 0.5};
        for (int i = 1; i < n; ++i)
            p.push_back(p.back() + (ph == 0 ? 0.25 : gaps[(i * (ph + 1) + i / 5) % 4]));
        return p;
    }
}
MC_SECTION("long-meshes", "3 meshes of every size 6..70 and of 128, 200: operators exact on parabolas; 6 coefficient sets x 3 thetas, three steps", 1) {
    const int k = x.Choose(67), n = k < 65 ? 6 + k : k == 65 ? 128 : 200, ph = x.Choose(3), kind = x.Choose(6);
    const auto p = LongMesh(n, ph);
    const Mesh_ m(p);
    const std::unique_ptr<Sparse::TriDiagonal_> d(PDE::Dx(m)), dd(PDE::Dxx(m));
    for (int i = 0; i < n; ++i) {
        ld w1[3] = {0, 0, 0}, w2[3] = {0, 0, 0};
        if (i > 0 && i < n - 1)
            Parabola(p[i - 1], p[i], p[i + 1], w1, w2);
        for (int j = 0; j < n; ++j) {
            const ld e1 = std::abs(i - j) <= 1 ? w1[1 + j - i] : 0.0L, e2 = std::abs(i - j) <= 1 ? w2[1 + j - i] : 0.0L;
            if (!Near((*d)(i, j), e1, 1e-12L * (1 + fabsl(e1))) || !Near((*dd)(i, j), e2, 1e-12L * (1 + fabsl(e2))))
                x.Fail("slope", "derivative on %d points: entry %d,%d", n, i, j);
        }
    }
    for (double theta : {0.5, 1.0, 0.75}) {
        std::vector<ld> f(n);
        for (int i = 0; i < n; ++i)
            f[i] = std::max(0.0L, (ld)p[i] - p[n / 2]) + (i % 5 == 0);
        PDE::FD1D_ fd(m);
        fd.Init();
        fd.Res() = Vector_<>(n);
        for (int i = 0; i < n; ++i)
            fd.Res()[i] = (double)f[i];
        for (int step = 0; step < 3; ++step) {
            x.Step();
            std::vector<double> r, mu, var;
            Coeffs(step == 2 ? (kind + 1) % 6 : kind, p, &r, &mu, &var);
            fd.R() = V(r);
            fd.Mu() = V(mu);
            fd.Var() = V(var);
            const std::vector<ld> want = Roll(p, r, mu, var, 0.05, theta, f);
            ld size = 1.0L;
            for (int i = 0; i < n; ++i)
                size = std::max(size, std::max(fabsl(want[i]), fabsl(f[i])));
            if (size > 1e9L)
                break;
            fd.RollBwd(0.05, theta, fd.Res());
            for (int i = 0; i < n; ++i)
                if (!Near(fd.Res()[i], want[i], 1e-8L * size))
                    x.Fail("value", "%d points, coefficients %d theta %g step %d: value %d is %.14g, expected %.14Lg", n, kind, theta, step, i, fd.Res()[i], want[i]);
            for (int i = 0; i < n; ++i)
                f[i] = fd.Res()[i];
        }
    }
    Seen(x, "long mesh %d kind %d shape %d", n, kind, ph);
}
