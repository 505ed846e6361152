// C19: pseudo-random streams against reference recurrences; Brownian bridge as an orthogonal map.
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/random/brownianbridge.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/math/specialfunctions.hpp>
#include "mc.hpp"
#include <memory>
using namespace Dal;

namespace {
    typedef unsigned __int128 U128;
    // reference sequences of numbers in (0,1), written from the generators' published definitions
    struct RefIrn_ {
        std::vector<uint64_t> s, sh;
        int at = 0;
        explicit RefIrn_(int seed) : s(55), sh(128) {
            s[0] = static_cast<unsigned>(seed);
            for (int i = 1; i < 55; ++i)
                s[i] = ((17u * static_cast<unsigned>(s[i - 1])) % (1u << 30)) ^ 0x1F2E3D4Cu;
            for (auto& v : sh)
                v = Raw();
        }
        uint64_t Raw() {
            at = (at + 54) % 55;
            s[at] = (static_cast<unsigned>(s[at]) + static_cast<unsigned>(s[(at + 31) % 55])) % (1u << 30);
            return s[at];
        }
        double Next() {
            const uint64_t v = Raw();
            const double r = (2.0 * sh[v % 128] + 1.0) / 2147483648.0;
            sh[v % 128] = v;
            return r;
        }
    };
    struct RefMrg_ {
        int64_t m1 = 4294967087LL, m2 = 4294944443LL;
        int64_t x[3], y[3];
        explicit RefMrg_(int seed) {
            for (int i = 0; i < 3; ++i) {
                x[i] = static_cast<unsigned>(seed) % m1;
                y[i] = static_cast<unsigned>(seed + 1) % m2;
            }
        }
        double Next() {
            __int128 a = static_cast<__int128>(1403580) * x[1] - static_cast<__int128>(810728) * x[2];
            __int128 b = static_cast<__int128>(527612) * y[0] - static_cast<__int128>(1370589) * y[2];
            int64_t na = static_cast<int64_t>(((a % m1) + m1) % m1), nb = static_cast<int64_t>(((b % m2) + m2) % m2);
            x[2] = x[1], x[1] = x[0], x[0] = na;
            y[2] = y[1], y[1] = y[0], y[0] = nb;
            return (na > nb ? na - nb : na - nb + m1) / 4294967088.0;
        }
    };
    double RefNumber(int type, int seed, size_t k) {
        static std::map<std::pair<int, int>, std::vector<double>> cache;
        auto& v = cache[{type, seed}];
        if (v.size() <= k) {
            const size_t n = std::max<size_t>(k + 1, 2 * v.size() + 100);
            v.clear();
            if (type == 0) {
                RefIrn_ r(seed);
                while (v.size() < n)
                    v.push_back(r.Next());
            } else {
                RefMrg_ r(seed);
                while (v.size() < n)
                    v.push_back(r.Next());
            }
        }
        return v[k];
    }
    const char* TYPE[] = {"IRN", "MRG32"};
    bool Near(double a, double b) { return std::fabs(a - b) <= 1e-14 * std::max(1.0, std::fabs(b)); }

    struct One_ {
        std::unique_ptr<Random_> g;
        int kind = 0;      // draws since the last skip: 0 none, 1 uniform, 2 normal, 3 mixed
        size_t point = 0;  // points since position zero
    };
    struct World_ {
        int type, seed, dim;
        bool precise;
    };
    // draw and compare with the reference; returns the numbers
    Vector_<> Draw(mc::Ctx_& x, const World_& w, One_& o, bool normal, const std::string& hist) {
        Vector_<> d(w.dim, -99.0);
        if (normal)
            o.g->FillNormal(&d);
        else
            o.g->FillUniform(&d);
        x.Step();
        const int k = normal ? 2 : 1;
        o.kind = o.kind == 0 || o.kind == k ? k : 3;
        if (static_cast<int>(d.size()) != w.dim)
            x.Fail("size", "%s seed %d dim %d after %s: %d numbers returned", TYPE[w.type], w.seed, w.dim, hist.c_str(), (int)d.size());
        for (int i = 0; i < w.dim; ++i) {
            if (!normal && !(d[i] > 0.0 && d[i] < 1.0))
                x.Fail("range", "%s seed %d: uniform number %.17g is not in the open unit interval", TYPE[w.type], w.seed, d[i]);
            if (normal && !std::isfinite(d[i]))
                x.Fail("range", "%s seed %d: normal number %.17g", TYPE[w.type], w.seed, d[i]);
            if (o.kind != 3) {
                double e;
                if (normal) {
                    e = InverseNCDF(RefNumber(w.type, w.seed, o.point * w.dim + i), w.precise, w.precise);
                } else {
                    e = RefNumber(w.type, w.seed, o.point / 2 * w.dim + i);
                    if (o.point % 2)
                        e = 1.0 - e;
                }
                if (!Near(d[i], e))
                    x.Fail(normal ? "normal" : "uniform", "%s seed %d dim %d%s after %s: coordinate %d of point %d is %.17g, expected %.17g", TYPE[w.type], w.seed, w.dim, w.precise ? " precise" : "", hist.c_str(), i,
                           (int)o.point, d[i], e);
            }
        }
        ++o.point;
        return d;
    }
    void Same(mc::Ctx_& x, const World_& w, const Vector_<>& a, const Vector_<>& b, const std::string& hist, const char* what) {
        for (int i = 0; i < w.dim; ++i)
            if (a[i] != b[i])
                x.Fail(what, "%s seed %d dim %d%s after %s: coordinate %d is %.17g, the %s gives %.17g", TYPE[w.type], w.seed, w.dim, w.precise ? " precise" : "", hist.c_str(), i, a[i], what, b[i]);
    }
} // namespace

MC_SECTION("histories",
           "2 generators x 5 seeds x dimensions 1,2,3,5 x precise/fast x every sequence of <=4 (thorough 6) operations from {uniform, normal, skip to 0,1,2,5, clone and go on with the clone}; source and clone compared afterwards", 2) {
    static const std::vector<int> SEEDS = {1, 1024, 12345, 0, -7}, DIMS = {1, 2, 3, 5};
    World_ w;
    w.type = x.Choose(2, "generator");
    w.seed = x.Pick(SEEDS, "seed");
    w.dim = x.Pick(DIMS, "dim");
    w.precise = x.Flip("precise");
    One_ o, src;
    o.g.reset(New(RNGType_(TYPE[w.type]), w.seed, w.dim, w.precise));
    if (static_cast<int>(o.g->NDim()) != w.dim)
        x.Fail("dim", "generator of dimension %d reports %d", w.dim, (int)o.g->NDim());
    bool cloned = false;
    std::string hist, tail; // tail: operations since the clone
    const int depth = x.thorough_ ? 6 : 4;
    static const size_t SK[] = {0, 1, 2, 5};
    for (int i = 0; i < depth; ++i) {
        const int op = x.Choose(8, "operation");
        if (op == 7)
            break;
        if (op == 0 || op == 1) {
            hist += op ? "N" : "U";
            Draw(x, w, o, op == 1, hist);
            tail += op ? "N" : "U";
        } else if (op == 6) {
            if (cloned)
                throw mc::Prune_();
            hist += "C";
            src.kind = o.kind;
            src.point = o.point;
            src.g = std::move(o.g);
            o.g.reset(src.g->Clone());
            if (static_cast<int>(o.g->NDim()) != w.dim)
                x.Fail("dim", "the clone has dimension %d", (int)o.g->NDim());
            cloned = true;
            tail.clear();
        } else {
            const size_t n = SK[op - 2];
            o.g->SkipTo(n);
            o.kind = 0;
            o.point = n;
            hist += "S" + std::to_string(n);
            tail += static_cast<char>('0' + n);
        }
    }
    // afterwards: two points of either kind; source replays what the clone did
    const int last = x.Choose(2, "last");
    std::vector<Vector_<>> a, b;
    auto finish = [&](One_& g, std::vector<Vector_<>>& out) {
        for (char c : tail) {
            if (c == 'U' || c == 'N')
                out.push_back(Draw(x, w, g, c == 'N', hist));
            else {
                g.g->SkipTo(c - '0');
                g.kind = 0;
                g.point = c - '0';
            }
        }
    };
    if (cloned) { // the clone has done `tail`; do it again on the source, and then both go on in turn
        std::vector<Vector_<>> s;
        finish(src, s);
        for (int k = 0; k < 3; ++k)
            Same(x, w, Draw(x, w, src, last, hist), Draw(x, w, o, last, hist), hist, "clone");
    } else {
        for (int k = 0; k < 3; ++k)
            Draw(x, w, o, last, hist);
        // a fresh generator with the same history agrees, whatever the mixture
        One_ f;
        f.g.reset(New(RNGType_(TYPE[w.type]), w.seed, w.dim, w.precise));
        std::vector<Vector_<>> s;
        finish(f, s);
        Vector_<> u;
        for (int k = 0; k < 3; ++k)
            u = Draw(x, w, f, last, hist);
        Same(x, w, Draw(x, w, o, last, hist), Draw(x, w, f, last, hist), hist, "fresh");
    }
    x.State(mc::HashStr(hist, w.type * 1000 + w.dim * 10 + w.precise));
}

MC_SECTION("long", "2 generators x 3 seeds x dims 1,2,7: 3000 points in sequence against the reference, and after skips to every n <= 300 (thorough 3000) and to 10 larger n up to 20000", 3) {
    World_ w;
    w.type = x.Choose(2);
    static const std::vector<int> SEEDS = {1, 1024, 99999}, DIMS = {1, 2, 7};
    w.seed = x.Pick(SEEDS);
    w.dim = x.Pick(DIMS);
    w.precise = false;
    const bool normal = x.Flip();
    const int block = x.Choose(4);
    One_ o;
    o.g.reset(New(RNGType_(TYPE[w.type]), w.seed, w.dim, w.precise));
    if (block == 0) {
        for (int i = 0; i < 3000; ++i)
            Draw(x, w, o, normal, "sequential");
        return;
    }
    std::vector<size_t> ns;
    if (block == 1)
        ns = {1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 10000, 20000};
    else
        for (int i = block - 2; i <= (x.thorough_ ? 3000 : 300); i += 2)
            ns.push_back(i);
    for (size_t n : ns) {
        o.g->SkipTo(n);
        o.kind = 0;
        o.point = n;
        Draw(x, w, o, normal, "skip");
        Draw(x, w, o, normal, "skip");
    }
}

MC_SECTION("jump", "MRG32: skips to 2^k and 2^k-1 for k <= 40, uniform and normal draws, agree with an independent modular matrix power", 1) {
    const int k = x.Choose(41);
    const int minus = x.Choose(2);
    const int dim = 1 + x.Choose(3);
    const bool uniform = x.Flip();
    const uint64_t n = ((1ULL << k) - minus);
    const uint64_t sets = uniform ? n / 2 : n; // uniform points come in antithetic pairs
    auto power = [](const uint64_t m[9], uint64_t e, uint64_t mod, uint64_t out[9]) {
        uint64_t b[9];
        for (int i = 0; i < 9; ++i)
            out[i] = i % 4 == 0, b[i] = m[i];
        auto mul = [&](const uint64_t* p, const uint64_t* q, uint64_t* r) {
            uint64_t t[9];
            for (int i = 0; i < 3; ++i)
                for (int j = 0; j < 3; ++j) {
                    U128 s = 0;
                    for (int l = 0; l < 3; ++l)
                        s += static_cast<U128>(p[3 * i + l]) * q[3 * l + j];
                    t[3 * i + j] = static_cast<uint64_t>(s % mod);
                }
            memcpy(r, t, sizeof t);
        };
        for (; e; e >>= 1) {
            if (e & 1)
                mul(out, b, out);
            mul(b, b, b);
        }
    };
    const int seed = 4711;
    RefMrg_ r(seed);
    const uint64_t A[9] = {0, 1403580, static_cast<uint64_t>(r.m1 - 810728), 1, 0, 0, 0, 1, 0};
    const uint64_t B[9] = {527612, 0, static_cast<uint64_t>(r.m2 - 1370589), 1, 0, 0, 0, 1, 0};
    uint64_t pa[9], pb[9];
    power(A, sets * dim, r.m1, pa);
    power(B, sets * dim, r.m2, pb);
    int64_t nx[3], ny[3];
    for (int i = 0; i < 3; ++i) {
        U128 s = 0, t = 0;
        for (int j = 0; j < 3; ++j) {
            s += static_cast<U128>(pa[3 * i + j]) * static_cast<uint64_t>(r.x[j]);
            t += static_cast<U128>(pb[3 * i + j]) * static_cast<uint64_t>(r.y[j]);
        }
        nx[i] = static_cast<int64_t>(s % static_cast<uint64_t>(r.m1));
        ny[i] = static_cast<int64_t>(t % static_cast<uint64_t>(r.m2));
    }
    memcpy(r.x, nx, sizeof nx);
    memcpy(r.y, ny, sizeof ny);
    std::unique_ptr<Random_> g(New(RNGType_("MRG32"), seed, dim));
    g->SkipTo(n);
    Vector_<> d(dim);
    if (uniform)
        g->FillUniform(&d);
    else
        g->FillNormal(&d);
    x.Step();
    for (int i = 0; i < dim; ++i) {
        const double u = r.Next(), e = uniform ? (n % 2 ? 1.0 - u : u) : InverseNCDF(u, false, false);
        if (!Near(d[i], e))
            x.Fail("jump", "skip to %llu in dimension %d: coordinate %d is %.17g, expected %.17g", (unsigned long long)n, dim, i, d[i], e);
    }
}

namespace {
    struct Unit_ : Random_ { // hands out the k-th unit vector, counting the points
        size_t n, at;
        Unit_(size_t nn, size_t a = 0) : n(nn), at(a) {}
        void FillUniform(Vector_<>* d) override { FillNormal(d); }
        void FillNormal(Vector_<>* d) override {
            d->Resize(n);
            for (size_t i = 0; i < n; ++i)
                (*d)[i] = i == at % n ? 1.0 : 0.0;
            ++at;
        }
        void SkipTo(size_t k) override { at = k; }
        Random_* Clone() const override { return new Unit_(n, at); }
        size_t NDim() const override { return n; }
    };
} // namespace

MC_SECTION("bridge", "bridges of every length 1..96 (thorough 1..400): the map from normals to increments, read off column by column (in order, after a skip, and through a clone), is orthogonal; its first column spreads evenly", 1) {
    const int n = 1 + x.Choose(x.thorough_ ? 400 : 96);
    const int how = x.Choose(3);
    BrownianBridge_ bb(std::unique_ptr<Random_>(new Unit_(n)));
    if (static_cast<int>(bb.NDim()) != n)
        x.Fail("bridge-dim", "bridge of length %d reports %d", n, (int)bb.NDim());
    std::vector<std::vector<double>> m(n, std::vector<double>(n));
    std::unique_ptr<Random_> cl;
    for (int k = 0; k < n; ++k) {
        Vector_<> d(n);
        Random_* g = &bb;
        if (how == 1)
            g->SkipTo(k);
        if (how == 2 && k == n / 2)
            cl.reset(bb.Clone());
        if (cl)
            g = cl.get();
        g->FillNormal(&d);
        x.Step();
        for (int i = 0; i < n; ++i)
            m[i][k] = d[i];
    }
    for (int i = 0; i < n; ++i)
        for (int j = i; j < n; ++j) {
            double s = 0.0;
            for (int k = 0; k < n; ++k)
                s += m[i][k] * m[j][k];
            if (!(std::fabs(s - (i == j)) < 1e-11))
                x.Fail("bridge", "length %d: increments %d and %d have covariance %.15g", n, i, j, s);
        }
    for (int i = 0; i < n; ++i) // the first normal fixes the end of the path: sum of increments = sqrt(n) * first normal
        if (!(std::fabs(m[i][0] - 1.0 / std::sqrt((double)n)) < 1e-11))
            x.Fail("bridge-end", "length %d: the first normal moves increment %d by %.15g", n, i, m[i][0]);
    // over a real generator: the bridge's points are the map applied to the generator's, also for uniforms and after skips
    if (how == 0 && n <= 40) {
        for (int type = 0; type < 2; ++type) {
            BrownianBridge_ b(std::unique_ptr<Random_>(New(RNGType_(TYPE[type]), 1024, n)));
            std::unique_ptr<Random_> raw(New(RNGType_(TYPE[type]), 1024, n));
            std::unique_ptr<Random_> c(b.Clone());
            for (int step = 0; step < 6; ++step) {
                Vector_<> z(n), d(n), e(n);
                if (step == 3) {
                    b.SkipTo(11);
                    c->SkipTo(11);
                    raw->SkipTo(11);
                }
                raw->FillNormal(&z);
                if (step % 2)
                    b.FillUniform(&d);
                else
                    b.FillNormal(&d);
                c->FillNormal(&e);
                x.Step();
                for (int i = 0; i < n; ++i) {
                    double s = 0.0;
                    for (int k = 0; k < n; ++k)
                        s += m[i][k] * z[k];
                    if (!(std::fabs(e[i] - s) < 1e-10))
                        x.Fail("bridge-stream", "length %d point %d: increment %d is %.15g, expected %.15g", n, step, i, e[i], s);
                    const double u = step % 2 ? NCDF(s) : s;
                    if (!(std::fabs(d[i] - u) < 1e-10))
                        x.Fail("bridge-stream", "length %d point %d: number %d is %.15g, expected %.15g", n, step, i, d[i], u);
                }
            }
        }
    }
}
