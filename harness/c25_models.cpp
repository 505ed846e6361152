// C25: simulated paths against the recurrence each model defines, for every small timeline, request, parameter set, draw and
// history of uses of one model object.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/operators.hpp>
#include <dal/model/factory.hpp>
#include <dal/model/utilities.hpp>
#include <dal/string/strings.hpp>
#include <cmath>
#include <cstdarg>
#include <memory>
#include <set>
using namespace Dal;
using AAD::Number_;
using AAD::SampleDef_;
using ld = long double;

namespace Dal {
    class Slide_ {};
}

namespace {
    __attribute__((format(printf, 2, 3))) void Seen(mc::Ctx_& x, const char* fmt, ...) {
        char buf[300];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        x.State(std::hash<std::string>()(buf));
        x.Sample(buf);
    }
    template <class F> void OnTape(F f) {
        static AAD::Tape_* tape = new AAD::Tape_;
        Number_::SetTape(*tape);
        tape->Rewind();
        f();
        tape->Rewind();
    }
    template <class F> bool Throws(F f) {
        try {
            f();
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    bool Near(double a, ld b, ld tol) { return std::isfinite(a) && fabsl(a - b) <= tol; }
    std::vector<double> D(std::initializer_list<double> v) { return v; }

    // the two models: parameters in one vector, spot rate yield vol(s)
    struct Spec_ {
        bool dupire = false;
        std::vector<double> spots, times; // local vol grid
        double maxDt = 1.0;
        std::vector<ld> par; // BS: spot vol rate div; Dupire: spot rate repo, vols row by row
        ld Rate() const { return par[dupire ? 1 : 2]; }
        ld Yield() const { return par[dupire ? 2 : 3]; }
    };
    struct Out_ {
        ld spot, numeraire;
        std::vector<ld> disc, libor;
        std::vector<std::vector<ld>> fwd;
    };

    // smallest number of equal steps not longer than maxDt
    int Steps(double gap, double maxDt) {
        int n = 1;
        while (gap / n > maxDt * (1.0 + 1e-12))
            ++n;
        return n;
    }
    std::vector<double> Line(const Spec_& m, const std::vector<double>& prod) {
        std::vector<double> all(1, 0.0);
        for (double t : prod) {
            if (t == 0.0)
                continue;
            const double last = all.back();
            const int n = m.dupire ? Steps(t - last, m.maxDt) : 1;
            for (int i = 1; i < n; ++i)
                all.push_back(last + (t - last) * i / n);
            all.push_back(t);
        }
        return all;
    }
    ld Lin(const std::vector<ld>& x, const std::vector<ld>& f, ld t) {
        const int n = x.size();
        if (t <= x[0])
            return f[0];
        for (int i = 1; i < n; ++i)
            if (t <= x[i])
                return f[i - 1] + (f[i] - f[i - 1]) * (t - x[i - 1]) / (x[i] - x[i - 1]);
        return f[n - 1];
    }
    std::vector<Out_> Path(const Spec_& m, const std::vector<double>& prod, const std::vector<SampleDef_>& defs, const std::vector<double>& g) {
        const std::vector<double> line = Line(m, prod);
        std::vector<Out_> ret;
        ld logS = logl(m.par[0]);
        const ld r = m.Rate(), q = m.Yield();
        auto emit = [&](double t) {
            const size_t i = ret.size();
            if (i >= prod.size() || prod[i] != t)
                return;
            const SampleDef_& d = defs[i];
            Out_ o;
            o.spot = expl(logS);
            o.numeraire = d.numeraire_ ? expl(r * t) : 1.0L;
            for (double u : d.discountMats_)
                o.disc.push_back(expl(-r * (u - t)));
            for (const auto& l : d.liborDefs_)
                o.libor.push_back((expl(r * (l.end_ - l.start_)) - 1.0L) / (l.end_ - l.start_));
            for (const auto& f : d.forwardMats_) {
                o.fwd.emplace_back();
                for (double u : f)
                    o.fwd.back().push_back(o.spot * expl((r - q) * (u - t)));
            }
            ret.push_back(o);
        };
        emit(0.0);
        for (size_t i = 1; i < line.size(); ++i) {
            const ld dt = (ld)line[i] - line[i - 1];
            ld vol;
            if (m.dupire) {
                const int nt = m.times.size(), ns = m.spots.size();
                std::vector<ld> xs(ns), row(ns), ts(m.times.begin(), m.times.end());
                for (int s = 0; s < ns; ++s) {
                    xs[s] = logl(m.spots[s]);
                    std::vector<ld> col(m.par.begin() + 3 + s * nt, m.par.begin() + 3 + (s + 1) * nt);
                    row[s] = Lin(ts, col, line[i - 1]);
                }
                vol = Lin(xs, row, logS);
            } else
                vol = m.par[1];
            logS += (r - q - 0.5L * vol * vol) * dt + vol * sqrtl(dt) * g[i - 1];
            emit(line[i]);
        }
        return ret;
    }

    template <class T> std::unique_ptr<AAD::Model_<T>> Make(const Spec_& m) {
        if (!m.dupire)
            return std::make_unique<AAD::BlackScholes_<T>>(T((double)m.par[0]), T((double)m.par[1]), T((double)m.par[2]), T((double)m.par[3]));
        Matrix_<T> v(m.spots.size(), m.times.size());
        for (int i = 0; i < v.Rows(); ++i)
            for (int j = 0; j < v.Cols(); ++j)
                v(i, j) = T((double)m.par[3 + i * v.Cols() + j]);
        return std::make_unique<AAD::Dupire_<T>>(T((double)m.par[0]), T((double)m.par[1]), T((double)m.par[2]), Vector_<>(m.spots.begin(), m.spots.end()), Vector_<>(m.times.begin(), m.times.end()), v, m.maxDt);
    }
    double Val(double d) { return d; }
    double Val(const Number_& n) { return n.value(); }

    template <class T> void Compare(mc::Ctx_& x, const AAD::Scenario_<T>& path, const std::vector<Out_>& want, const std::string& what) {
        if (path.size() != (int)want.size())
            x.Fail("samples", "%s: %d samples, expected %d", what.c_str(), (int)path.size(), (int)want.size());
        for (size_t i = 0; i < want.size(); ++i) {
            const auto& s = path[i];
            const Out_& o = want[i];
            if (!Near(Val(s.spot_), o.spot, 1e-11L * o.spot))
                x.Fail("spot", "%s: spot %d is %.15g, expected %.15Lg", what.c_str(), (int)i, Val(s.spot_), o.spot);
            if (!Near(Val(s.numeraire_), o.numeraire, 1e-12L * o.numeraire))
                x.Fail("numeraire", "%s: numeraire %d is %.15g, expected %.15Lg", what.c_str(), (int)i, Val(s.numeraire_), o.numeraire);
            for (size_t j = 0; j < o.disc.size(); ++j)
                if (!Near(Val(s.discounts_[j]), o.disc[j], 1e-12L * o.disc[j]))
                    x.Fail("discount", "%s: discount %d of sample %d is %.15g, expected %.15Lg", what.c_str(), (int)j, (int)i, Val(s.discounts_[j]), o.disc[j]);
            for (size_t j = 0; j < o.libor.size(); ++j)
                if (!Near(Val(s.libors_[j]), o.libor[j], 1e-12L))
                    x.Fail("libor", "%s: rate %d of sample %d is %.15g, expected %.15Lg", what.c_str(), (int)j, (int)i, Val(s.libors_[j]), o.libor[j]);
            for (size_t a = 0; a < o.fwd.size(); ++a)
                for (size_t j = 0; j < o.fwd[a].size(); ++j)
                    if (!Near(Val(s.forwards_[a][j]), o.fwd[a][j], 1e-11L * o.fwd[a][j]))
                        x.Fail("forward", "%s: forward %d of sample %d is %.15g, expected %.15Lg", what.c_str(), (int)j, (int)i, Val(s.forwards_[a][j]), o.fwd[a][j]);
        }
    }

    // what the product asks for at its dates
    std::vector<SampleDef_> Requests(const std::vector<double>& prod, int kind) {
        std::vector<SampleDef_> ret(prod.size());
        for (size_t i = 0; i < prod.size(); ++i) {
            SampleDef_& d = ret[i];
            const double t = prod[i];
            d.numeraire_ = kind != 1 && !(kind == 3 && i % 2);
            if (kind == 2) { // as scripted products do
                d.forwardMats_.push_back({t});
                d.discountMats_.push_back(t);
            } else if (kind == 3) {
                d.forwardMats_.push_back({t, t + 1.0, t + 5.0});
                d.discountMats_ = {t + 0.5, t + 3.0};
                d.liborDefs_.emplace_back(t, t + 0.25, String_("a"));
                d.liborDefs_.emplace_back(t + 1.0, t + 2.0, String_("b"));
            } else if (kind == 4 && i == prod.size() - 1) {
                d.forwardMats_.push_back({t + 2.0});
                d.discountMats_ = {t + 2.0};
            }
        }
        return ret;
    }
    const std::vector<double> DATES = {0.0, 0.25, 1.0, 2.5, 3.0};
    std::vector<double> Subset(int mask) {
        std::vector<double> ret;
        for (int i = 0; i < 5; ++i)
            if (mask >> i & 1)
                ret.push_back(DATES[i]);
        return ret;
    }
    Vector_<> V(const std::vector<double>& v) { return Vector_<>(v.begin(), v.end()); }

    // draws: every one from a small set in the first `full` dimensions, then one of three patterns
    std::vector<double> Draws(mc::Ctx_& x, int dim, int full) {
        static const double G[] = {0.0, -1.75, 1.25};
        std::vector<double> g(dim);
        int i = 0;
        for (; i < std::min(dim, full); ++i)
            g[i] = G[x.Choose(3)];
        if (i < dim) {
            const int p = x.Choose(3);
            for (; i < dim; ++i)
                g[i] = p == 0 ? 0.0 : p == 1 ? (i % 2 ? 1.0 : -0.5) : -0.75;
        }
        return g;
    }

    template <class T> AAD::Scenario_<T> Run(AAD::Model_<T>& m, const Vector_<>& prod, const Vector_<SampleDef_>& defs, const std::vector<double>& g) {
        AAD::Scenario_<T> path;
        AAD::AllocatePath(defs, path);
        AAD::InitializePath(path);
        m.GeneratePath(V(g), &path);
        return path;
    }

    void OneCase(mc::Ctx_& x, const Spec_& m, const std::vector<double>& prod, int kind, int full, const std::string& what) {
        const std::vector<SampleDef_> defs = Requests(prod, kind);
        const Vector_<> p = V(prod);
        const Vector_<SampleDef_> d(defs.begin(), defs.end());
        auto model = Make<double>(m);
        model->Allocate(p, d);
        model->Init(p, d);
        const int dim = Line(m, prod).size() - 1;
        if ((int)model->SimDim() != dim)
            x.Fail("dimension", "%s: %d draws per path, expected %d", what.c_str(), (int)model->SimDim(), dim);
        const std::vector<double> g = Draws(x, dim, full);
        std::string w = what + " draws";
        for (double v : g)
            w += " " + std::to_string(v).substr(0, 5);
        x.Step();
        const std::vector<Out_> want = Path(m, prod, defs, g);
        Compare(x, Run(*model, p, d, g), want, w);
        // differentiable numbers
        OnTape([&] {
            x.Step();
            auto a = Make<Number_>(m);
            if (a->NumParams() != m.par.size() || (int)a->ParameterLabels().size() != (int)m.par.size())
                x.Fail("parameters", "%s: %d parameters, %d labels", w.c_str(), (int)a->NumParams(), (int)a->ParameterLabels().size());
            a->Allocate(p, d);
            for (Number_* n : a->Parameters())
                n->PutOnTape();
            a->Init(p, d);
            const AAD::Scenario_<Number_> path = Run(*a, p, d, g);
            Compare(x, path, want, w + " (differentiable)");
            // one number of everything on the path, weights making terms distinguishable
            Number_ sum(0.0);
            for (int i = 0; i < path.size(); ++i) {
                const auto& s = path[i];
                sum = sum + (i + 1.0) * s.spot_;
                if (defs[i].numeraire_)
                    sum = sum + (0.3 * i + 1.7) * s.numeraire_;
                for (int j = 0; j < s.discounts_.size(); ++j)
                    sum = sum + (1.1 + j) * s.discounts_[j];
                for (int j = 0; j < s.libors_.size(); ++j)
                    sum = sum + (2.1 + j) * s.libors_[j];
                for (int j = 0; j < s.forwards_.size(); ++j)
                    for (int k = 0; k < s.forwards_[j].size(); ++k)
                        sum = sum + (0.7 - k) * s.forwards_[j][k];
            }
            Number_ res = sum + 0.0;
            res.PropagateToStart();
            auto value = [&](const Spec_& mm) {
                const auto o = Path(mm, prod, defs, g);
                ld v = 0.0L;
                for (size_t i = 0; i < o.size(); ++i) {
                    v += (i + 1.0L) * o[i].spot;
                    if (defs[i].numeraire_)
                        v += (0.3L * i + 1.7L) * o[i].numeraire;
                    for (size_t j = 0; j < o[i].disc.size(); ++j)
                        v += (1.1L + j) * o[i].disc[j];
                    for (size_t j = 0; j < o[i].libor.size(); ++j)
                        v += (2.1L + j) * o[i].libor[j];
                    for (size_t j = 0; j < o[i].fwd.size(); ++j)
                        for (size_t k = 0; k < o[i].fwd[j].size(); ++k)
                            v += (0.7L - k) * o[i].fwd[j][k];
                }
                return v;
            };
            const ld base = value(m);
            for (size_t i = 0; i < m.par.size(); ++i) {
                const ld h = 1e-7L * std::max(1e-2L, fabsl(m.par[i]));
                Spec_ up = m, dn = m;
                up.par[i] += h;
                dn.par[i] -= h;
                const ld u = value(up), l = value(dn);
                const ld right = (u - base) / h, left = (base - l) / h, mid = (u - l) / (2.0L * h);
                const ld scale = fabsl(mid) + fabsl(base) / std::max(1e-1L, fabsl(m.par[i])) + 1.0L;
                const double got = a->Parameters()[i]->Adjoint();
                const ld tol = 2e-6L * scale;
                // at a kink of the interpolated volatility anything between the one-sided slopes will do
                if (!(got >= std::min(right, left) - tol && got <= std::max(right, left) + tol))
                    x.Fail("slope", "%s: derivative to %s (%d) is %.10g, expected %.10Lg to %.10Lg (spot %Lg, %d grid spots)", w.c_str(), a->ParameterLabels()[i].c_str(), (int)i, got, left, right, m.par[0], (int)m.spots.size());
            }
        });
    }

    Spec_ BS(double s, double v, double r, double q) {
        Spec_ m;
        m.par = {s, v, r, q};
        return m;
    }
    Spec_ LV(mc::Ctx_& x) {
        Spec_ m;
        m.dupire = true;
        const int shape = x.Choose(4);
        m.spots = shape == 0 ? D({100}) : shape == 1 ? D({80, 120}) : shape == 2 ? D({60, 95, 140}) : D({90, 100, 105});
        m.times = shape == 0 ? D({1.0}) : shape == 1 ? D({0.5, 2.0}) : shape == 2 ? D({1.0}) : D({0.25, 1.0, 2.75});
        m.maxDt = x.Pick(D({0.25, 0.6, 1.0, 5.0, 0.999, 0.2495, 0.0999}));
        m.par = {x.Flip() ? 100.0L : 87.0L, 0.05L, 0.02L};
        for (size_t i = 0; i < m.spots.size(); ++i)
            for (size_t j = 0; j < m.times.size(); ++j)
                m.par.push_back(0.15L + 0.04L * ((i * 2 + j * 3) % 5) + 0.01L * i);
        return m;
    }
    std::string Dates(const std::vector<double>& p) {
        std::string s = "dates";
        char b[30];
        for (double t : p) {
            snprintf(b, sizeof b, " %g", t);
            s += b;
        }
        return s;
    }
}

MC_SECTION("black-scholes-paths", "all 31 sets of dates out of 5 (with and without today) x 5 request kinds x 16 parameter sets x every draw from {0, -1.75, 1.25} per date; values and derivatives to every parameter", 3) {
    const auto prod = Subset(1 + x.Choose(31));
    const int kind = x.Choose(5);
    const double r = x.Pick(D({0.0, 0.05, -0.01})), q = x.Pick(D({0.0, 0.03}));
    const double vol = x.Pick(D({0.2, 0.7})), spot = vol > 0.5 ? 3.0 : 100.0;
    OneCase(x, BS(spot, vol, r, q), prod, kind, x.thorough_ ? 4 : 3, "Black-Scholes " + Dates(prod) + " request " + std::to_string(kind));
    Seen(x, "BS %s kind %d r=%g q=%g vol=%g", Dates(prod).c_str(), kind, r, q, vol);
}

MC_SECTION("local-vol-paths", "all 31 sets of dates out of 5 x 3 request kinds x 4 grids x 7 maximal steps (some a little shorter than a gap) x 2 spots x draws ({0, -1.75, 1.25} in the first dimensions, 3 patterns after)", 3) {
    const auto prod = Subset(1 + x.Choose(31));
    const int kind = 1 + x.Choose(3);
    const Spec_ m = LV(x);
    OneCase(x, m, prod, kind, x.thorough_ ? 3 : 1, "Dupire " + Dates(prod) + " request " + std::to_string(kind) + " step " + std::to_string(m.maxDt));
    Seen(x, "LV %s kind %d grid %d step %g", Dates(prod).c_str(), kind, (int)m.spots.size(), m.maxDt);
}

MC_SECTION("histories", "2 models x every history of depth 4 (thorough 5) of: allocate for one of 4 timelines (two with the same size and last date), change one of 3 parameters, clone and go on with the clone (changing the original) or with the original (changing the clone), generate", 3) {
    Spec_ m = x.Flip() ? BS(100.0, 0.2, 0.04, 0.01) : Spec_();
    if (m.par.empty()) {
        m.dupire = true;
        m.spots = {90, 110};
        m.times = {0.5, 1.5};
        m.maxDt = 0.75;
        m.par = {100.0L, 0.04L, 0.01L, 0.2L, 0.25L, 0.3L, 0.22L};
    }
    const bool dup = m.dupire;
    static const std::vector<std::vector<double>> lines = {{0.0, 1.0}, {0.5}, {0.25, 1.0, 2.0}, {0.25, 1.0}};
    std::vector<std::unique_ptr<AAD::Model_<double>>> others;
    std::unique_ptr<AAD::Model_<double>> model = Make<double>(m);
    static std::vector<Vector_<>> prods;
    static std::vector<Vector_<SampleDef_>> defs;
    static std::vector<std::vector<SampleDef_>> rawDefs;
    if (prods.empty())
        for (const auto& l : lines) {
            rawDefs.push_back(Requests(l, 3));
            prods.push_back(V(l));
            defs.push_back(Vector_<SampleDef_>(rawDefs.back().begin(), rawDefs.back().end()));
        }
    int line = x.Choose(4);
    model->Allocate(prods[line], defs[line]);
    model->Init(prods[line], defs[line]);
    std::string h = "line " + std::to_string(line);
    auto check = [&](AAD::Model_<double>& mod, const Spec_& spec, int ln, const char* which) {
        const int dim = Line(spec, lines[ln]).size() - 1;
        if ((int)mod.SimDim() != dim)
            x.Fail("dimension", "%s after %s: %d draws, expected %d", which, h.c_str(), (int)mod.SimDim(), dim);
        std::vector<double> g(dim);
        for (int i = 0; i < dim; ++i)
            g[i] = 0.5 - 0.75 * (i % 3);
        const auto want = Path(spec, lines[ln], rawDefs[ln], g);
        for (int k = 0; k < 2; ++k)
            Compare(x, Run(mod, prods[ln], defs[ln], g), want, std::string(which) + " after " + h);
    };
    struct Kept_ {
        AAD::Model_<double>* m;
        Spec_ s;
        int line;
    };
    std::vector<Kept_> kept;
    const int depth = x.thorough_ ? 5 : 4;
    for (int step = 0; step < depth; ++step) {
        x.Step();
        const int op = x.Choose(9);
        if (op < 3 || op == 8) {
            line = op == 8 ? 3 : op;
            model->Allocate(prods[line], defs[line]);
            model->Init(prods[line], defs[line]);
            h += "; line " + std::to_string(line);
        } else if (op < 6) {
            const int which = op == 3 ? 0 : op == 4 ? 1 : (int)m.par.size() - 1;
            const double v = (double)m.par[which] * (1.0 + 0.1 * (step + 1));
            *model->Parameters()[which] = v;
            m.par[which] = v;
            model->Init(prods[line], defs[line]);
            h += "; set " + std::to_string(which);
        } else {
            auto c = model->Clone();
            if ((int)c->Parameters().size() != (int)m.par.size())
                x.Fail("clone-parameters", "clone has %d parameters", (int)c->Parameters().size());
            if (op == 6)
                std::swap(c, model);
            h += op == 6 ? "; clone, keep the clone" : "; clone, keep the original";
            // the one left behind moves on by itself
            Spec_ s = m;
            s.par[0] *= 2.0L;
            s.par.back() *= 1.5L;
            *c->Parameters()[0] = (double)s.par[0];
            *c->Parameters()[(int)s.par.size() - 1] = (double)s.par.back();
            c->Init(prods[line], defs[line]);
            kept.push_back({c.get(), s, line});
            others.push_back(std::move(c));
        }
        for (size_t i = 0; i < m.par.size(); ++i)
            if (!Near(*model->Parameters()[(int)i], m.par[i], 1e-12L * fabsl(m.par[i])))
                x.Fail("parameter", "parameter %d is %.15g after %s", (int)i, *model->Parameters()[(int)i], h.c_str());
        check(*model, m, line, dup ? "Dupire" : "Black-Scholes");
        for (const auto& k : kept)
            check(*k.m, k.s, k.line, "model left behind");
    }
    Seen(x, "%s", h.c_str());
}

MC_SECTION("factory", "model data of both kinds to models over plain and differentiable numbers: same parameters in the labelled order, same paths; renamed copies with 0, 1, 2 slides", 1) {
    const bool dup = x.Flip();
    const int n = x.Choose(3);
    const double s = x.Pick(D({100.0, 7.5}));
    Spec_ m = BS(s, 0.2, 0.04, 0.01);
    if (dup) {
        m.dupire = true;
        m.spots = {90, 100, 110};
        m.times = {0.5, 1.5, 2.5};
        m.par = {s, 0.04L, 0.01L, 0.2L, 0.25L, 0.35L, 0.3L, 0.22L, 0.27L, 0.1L, 0.4L, 0.15L};
    }
    Handle_<ModelData_> data;
    if (dup) {
        Matrix_<> v(3, 3);
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                v(i, j) = (double)m.par[3 + 3 * i + j];
        data = Handle_<ModelData_>(new DupireModelData_("a", s, 0.04, 0.01, V(m.spots), V(m.times), v));
    } else
        data = Handle_<ModelData_>(new BSModelData_("a", s, 0.2, 0.04, 0.01));
    for (int k = 0; k < 2; ++k) {
        if (k) {
            std::unique_ptr<ModelData_> copy(data->MutantModel(String_("other name"), Vector_<Handle_<Slide_>>(n)));
            if (!copy || copy->Name() != "other name")
                x.Fail("mutant-name", "renamed model data is called '%s'", copy ? copy->Name().c_str() : "(none)");
            data = Handle_<ModelData_>(copy.release());
        }
        const auto a = CreateModel<double>(data);
        static AAD::Tape_* tape = new AAD::Tape_;
        Number_::SetTape(*tape);
        const auto b = CreateModel<Number_>(data);
        const std::set<std::string> bsNames = {"spot", "vol", "rate", "div"};
        if (a->NumParams() != m.par.size() || b->NumParams() != m.par.size() || (int)a->ParameterLabels().size() != (int)m.par.size())
            x.Fail("parameters", "%d parameters", (int)a->NumParams());
        std::set<std::string> labels;
        for (size_t i = 0; i < m.par.size(); ++i) {
            labels.insert(a->ParameterLabels()[(int)i].c_str());
            if (*a->Parameters()[(int)i] != (double)m.par[i] || b->Parameters()[(int)i]->value() != (double)m.par[i] || a->ParameterLabels()[(int)i] != b->ParameterLabels()[(int)i])
                x.Fail("parameter", "parameter %d (%s) is %.15g", (int)i, a->ParameterLabels()[(int)i].c_str(), *a->Parameters()[(int)i]);
        }
        if (labels.size() != m.par.size())
            x.Fail("labels", "%d distinct labels for %d parameters", (int)labels.size(), (int)m.par.size());
        const char* first[] = {"spot", dup ? "rate" : "vol", dup ? "repo" : "rate"};
        for (int i = 0; i < 3; ++i)
            if (a->ParameterLabels()[i] != first[i])
                x.Fail("label", "label %d is '%s'", i, a->ParameterLabels()[i].c_str());
        if (a->NumAssets() != 1 || a->AssetNames().size() != 1)
            x.Fail("assets", "asset names");
        const std::vector<double> prod = {0.5, 2.0};
        const auto raw = Requests(prod, 3);
        const Vector_<SampleDef_> defs(raw.begin(), raw.end());
        a->Allocate(V(prod), defs);
        a->Init(V(prod), defs);
        std::vector<double> g(a->SimDim(), 0.3);
        Compare(x, Run(*a, V(prod), defs, g), Path(m, prod, raw, g), "model of the factory");
        x.Step(2);
    }
    if (!Throws([] { (void)CreateModel<double>(Handle_<ModelData_>()); }))
        x.Fail("no-data", "a model is made from nothing");
    if (dup) {
        Matrix_<> v(3, 2, 0.2);
        const Vector_<> two = {90, 110}, three = {90, 100, 110};
        if (!Throws([&] { AAD::Dupire_<double> bad(100.0, 0.0, 0.0, two, two, v); }) || !Throws([&] { AAD::Dupire_<double> bad(100.0, 0.0, 0.0, three, three, v); }))
            x.Fail("mismatch", "local volatilities not matching their grid are accepted");
    }
    Seen(x, "%s %d slides spot %g", dup ? "Dupire" : "BS", n, s);
}

MC_SECTION("fill", "every increasing sequence of up to 4 points out of 8 x 7 maximal steps x 3 minimal gaps x 6 sets of added points", 2) {
    static const double PTS[] = {0.0, 0.1, 0.5, 1.0, 1.25, 2.0, 3.7, 10.0};
    std::vector<double> pts;
    int at = 0;
    const int n = 1 + x.Choose(4);
    for (int i = 0; i < n; ++i) {
        const int room = 8 - (n - 1 - i) - at;
        at += x.Choose(room);
        pts.push_back(PTS[at++]);
    }
    const double maxDx = x.Pick(D({0.0313, 0.11, 0.25, 0.31, 1.0, 3.1, 20.0}));
    const double minDx = x.Pick(D({0.0, 1e-9, 0.01}));
    std::vector<double> add = std::vector<std::vector<double>>{{}, {0.0}, {0.75}, {0.0, 1.0, 12.0}, {0.485, 1.015}, {1.003, 2.006}}[x.Choose(6)];
    std::set<double> must(pts.begin(), pts.end());
    for (double a : add) { // an added point not further than the minimal gap from one that is there is that one
        bool there = false;
        for (double p : pts)
            there |= fabs(a - p) <= minDx;
        if (!there)
            must.insert(a);
    }
    const Vector_<> orig = V(pts);
    Vector_<> added = V(add);
    x.Step();
    const Vector_<> got = add.empty() ? AAD::FillData(orig, maxDx, minDx) : AAD::FillData(orig, maxDx, minDx, added.begin(), added.end());
    std::vector<double> want;
    for (double t : must) {
        if (!want.empty()) {
            const double last = want.back();
            const int k = Steps(t - last, maxDx);
            for (int i = 1; i < k; ++i)
                want.push_back(last + (t - last) * i / k);
        }
        want.push_back(t);
    }
    std::string w;
    for (double t : pts)
        w += std::to_string(t) + " ";
    if (got.size() != (int)want.size())
        x.Fail("count", "%s filled to steps of %g (minimum %g): %d points, expected %d", w.c_str(), maxDx, minDx, (int)got.size(), (int)want.size());
    for (size_t i = 0; i < want.size(); ++i)
        if (fabs(got[(int)i] - want[i]) > 1e-12 || (must.count(want[i]) && got[(int)i] != want[i]))
            x.Fail("point", "%s filled to steps of %g: point %d is %.17g, expected %.17g", w.c_str(), maxDx, (int)i, got[(int)i], want[i]);
    Seen(x, "fill %s by %g min %g add %d", w.c_str(), maxDx, minDx, (int)add.size());
}

namespace {
    struct Flat_ : AAD::IVS_ {
        double v_, slope_;
        Flat_(double s, double v, double slope) : IVS_(s), v_(v), slope_(slope) {}
        double ImpliedVol(double k, double t) const override { return v_ + slope_ * std::log(k / Spot()) + 0.01 * t; }
    };
}

MC_SECTION("calibration", "local volatilities from 3 implied surfaces x 4 spot grids (inside, straddling, entirely outside the trusted range) x 3 spot steps x 3 time sets x 2 time steps: grid filled, each value Dupire's formula inside the range and flat outside", 2) {
    const double v = x.Pick(D({0.1, 0.3})), slope = x.Pick(D({0.0, -0.02}));
    const Flat_ ivs(100.0, v, slope);
    const std::vector<double> spots = std::vector<std::vector<double>>{{95, 105}, {40, 100, 250}, {1000, 1010}, {4, 6}}[x.Choose(4)];
    const double maxDs = x.Pick(D({3.0, 10.0, 1000.0}));
    const std::vector<double> times = std::vector<std::vector<double>>{{1.0}, {0.5, 2.0}, {0.25, 0.5, 3.0}}[x.Choose(3)];
    const double maxDt = x.Pick(D({0.2, 1.0}));
    x.Step();
    const auto got = AAD::DupireCalib(ivs, V(spots), maxDs, V(times), maxDt);
    std::set<double> mustT(times.begin(), times.end());
    mustT.insert(maxDt);
    for (double s : spots)
        if (std::find(got.spots_.begin(), got.spots_.end(), s) == got.spots_.end())
            x.Fail("spots", "spot %g is not on the calibrated grid", s);
    for (double t : mustT)
        if (std::find(got.times_.begin(), got.times_.end(), t) == got.times_.end())
            x.Fail("times", "time %g is not on the calibrated grid", t);
    for (int i = 1; i < got.spots_.size(); ++i)
        if (!(got.spots_[i] > got.spots_[i - 1] && got.spots_[i] - got.spots_[i - 1] <= maxDs * (1 + 1e-9)))
            x.Fail("spot-steps", "spot step %g", got.spots_[i] - got.spots_[i - 1]);
    for (int i = 1; i < got.times_.size(); ++i)
        if (!(got.times_[i] > got.times_[i - 1] && got.times_[i] - got.times_[i - 1] <= maxDt * (1 + 1e-9)))
            x.Fail("time-steps", "time step %g", got.times_[i] - got.times_[i - 1]);
    if (got.lVols_.Rows() != got.spots_.size() || got.lVols_.Cols() != got.times_.size())
        x.Fail("shape", "%d x %d local volatilities for %d spots and %d times", got.lVols_.Rows(), got.lVols_.Cols(), (int)got.spots_.size(), (int)got.times_.size());
    for (int j = 0; j < got.times_.size(); ++j) {
        const double t = got.times_[j];
        const double sd = ivs.Call(100.0, t) * 2.506628274631;
        std::vector<int> in;
        for (int i = 0; i < got.spots_.size(); ++i)
            if (fabs(got.spots_[i] - 100.0) <= 2.5 * sd)
                in.push_back(i);
        for (int i = 0; i < got.spots_.size(); ++i) {
            x.Step();
            const double l = got.lVols_(i, j);
            const double at = in.empty() ? 100.0 : got.spots_[std::min(in.back(), std::max(in.front(), i))];
            const double ref = ivs.LocalVol(at, t);
            if (!std::isfinite(ref) && !std::isfinite(l))
                continue; // differences of prices too small to resolve
            if (!Near(l, ref, 1e-9L))
                x.Fail("local", "local volatility at spot %g time %g is %.12g, expected %.12g", got.spots_[i], t, l, ref);
        }
    }
    Seen(x, "v %g slope %g spots %g.. step %g times %d", v, slope, spots[0], maxDs, (int)times.size());
}

MC_SECTION("long-timelines", "both models on 6..120 dates at 3 spacings x 5 request kinds x 3 draw patterns; local volatility grids up to 30 x 12", 1) {
    static const int NS[] = {6, 7, 8, 12, 16, 17, 24, 31, 32, 33, 52, 64, 65, 100, 120};
    const bool dup = x.Flip();
    const int n = NS[dup ? (x.Choose(5) * 9) % 11 : x.Choose(15)], ph = x.Choose(3), kind = x.Choose(5);
    std::vector<double> prod;
    for (int i = 0; i < n; ++i)
        prod.push_back(ph == 0 ? i * 0.125 : ph == 1 ? (i + 1) / 52.0 : 0.01 + i * 0.05 + (i % 3) * 0.01);
    Spec_ m = BS(100.0, 0.3, 0.04, 0.01);
    if (dup) {
        m = Spec_();
        m.dupire = true;
        m.maxDt = ph == 1 ? 0.01 : 0.2;
        m.par = {100.0L, 0.05L, 0.02L};
        const int ns = 1 + n % 30, nt = 1 + n % 12;
        for (int i = 0; i < ns; ++i)
            m.spots.push_back(60.0 + 80.0 * (i + 1) / (ns + 1));
        for (int j = 0; j < nt; ++j)
            m.times.push_back(0.2 + 0.3 * j);
        for (int i = 0; i < ns; ++i)
            for (int j = 0; j < nt; ++j)
                m.par.push_back(0.15L + 0.01L * ((i * 2 + j * 3) % 9));
    }
    OneCase(x, m, prod, kind, 0, std::string(dup ? "Dupire" : "Black-Scholes") + " on " + std::to_string(n) + " dates, request " + std::to_string(kind));
    Seen(x, "long %d dates %d kind %d spacing %d", dup, n, kind, ph);
}

MC_SECTION("fill-many", "sequences of 5..60 points at 3 spacings x 5 maximal steps x up to 10 added points", 1) {
    const int n = 5 + x.Choose(56), ph = x.Choose(3);
    std::vector<double> pts;
    for (int i = 0; i < n; ++i)
        pts.push_back(ph == 0 ? 0.25 * i : ph == 1 ? 0.05 * i * (i + 1) : i + 0.3 * (i % 3));
    const double maxDx = x.Pick(D({0.0313071, 0.110371, 0.310713, 1.030571, 7.700713})); // no gap is a whole number of steps up to rounding
    const int na = x.Choose(11);
    std::vector<double> add;
    for (int i = 0; i < na; ++i)
        add.push_back(pts.back() * (i * 7 % 11) / 11.3 + 0.0107);
    std::sort(add.begin(), add.end());
    std::set<double> must(pts.begin(), pts.end());
    for (double a : add) {
        bool there = false;
        for (double p : pts)
            there |= fabs(a - p) <= 1e-9;
        if (!there)
            must.insert(a);
    }
    const Vector_<> orig = V(pts);
    Vector_<> added = V(add);
    x.Step();
    const Vector_<> got = add.empty() ? AAD::FillData(orig, maxDx, 1e-9) : AAD::FillData(orig, maxDx, 1e-9, added.begin(), added.end());
    std::vector<double> want;
    for (double t : must) {
        if (!want.empty()) {
            const double last = want.back();
            const int k = Steps(t - last, maxDx);
            for (int i = 1; i < k; ++i)
                want.push_back(last + (t - last) * i / k);
        }
        want.push_back(t);
    }
    if (got.size() != (int)want.size())
        x.Fail("count", "%d points filled to steps of %g with %d added: %d points, expected %d", n, maxDx, na, (int)got.size(), (int)want.size());
    for (size_t i = 0; i < want.size(); ++i)
        if (fabs(got[(int)i] - want[i]) > 1e-11 || (must.count(want[i]) && got[(int)i] != want[i]))
            x.Fail("point", "%d points filled to steps of %g: point %d is %.17g, expected %.17g", n, maxDx, (int)i, got[(int)i], want[i]);
    Seen(x, "fill %d by %g add %d spacing %d", n, maxDx, na, ph);
}
