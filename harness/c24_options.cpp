// C24: closed-form option prices, their sensitivities, implied volatilities and the normal distribution functions,
// over full grids of forward x strike x volatility x type, against expectations integrated numerically in extended precision.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/operators.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/distribution/utils.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/math/analytics/vanilla.hpp>
#include <dal/model/ivs.hpp>
#include <dal/string/strings.hpp>
#include <cmath>
#include <cstdarg>
#include <memory>
#include <functional>
#include <limits>
using namespace Dal;
using ld = long double;

namespace {
    const ld PI2 = 6.283185307179586476925286766559005768L;
    ld Phi(ld z) { return 0.5L * erfcl(-z / sqrtl(2.0L)); }
    ld phi(ld z) { return expl(-0.5L * z * z) / sqrtl(PI2); }

    enum { CALL, PUT, STRADDLE };
    const OptionType_ TYPES[3] = {OptionType_(OptionType_::Value_::CALL), OptionType_(OptionType_::Value_::PUT), OptionType_(OptionType_::Value_::STRADDLE)};
    const char* TNAMES[3] = {"call", "put", "straddle"};

    ld Payoff(int type, ld s, ld k) { return type == CALL ? std::max(0.0L, s - k) : type == PUT ? std::max(0.0L, k - s) : fabsl(s - k); }

    // exact price and the size of the terms it is the difference of (which bounds the accuracy double arithmetic can have)
    struct Ref_ {
        ld price, terms;
    };
    Ref_ Black(ld f, ld k, ld v, int type) {
        if (v <= 0.0L || f <= 0.0L || k <= 0.0L)
            return {Payoff(type, f, k), fabsl(f) + fabsl(k)};
        const ld dp = logl(f / k) / v + 0.5L * v, dm = dp - v;
        const ld amp = 1.0L + std::min(dp * dp, 1.0e4L);
        const ld c1 = f * Phi(dp), c2 = k * Phi(dm), p1 = k * Phi(-dm), p2 = f * Phi(-dp);
        if (type == CALL)
            return {c1 - c2, (c1 + c2) * amp};
        if (type == PUT)
            return {p1 - p2, (p1 + p2) * amp};
        return {c1 - c2 + p1 - p2, (f + k) * (amp > 2.0L ? 2.0L : amp) + f + k};
    }
    Ref_ Bachelier(ld f, ld k, ld v, int type) {
        if (v <= 0.0L)
            return {Payoff(type, f, k), fabsl(f) + fabsl(k)};
        const ld d = (f - k) / v, amp = 1.0L + std::min(d * d, 1.0e4L);
        const ld c1 = (f - k) * Phi(d), c2 = v * phi(d), p1 = (k - f) * Phi(-d);
        // a density below 1e-22 may be taken as zero
        const ld lost = fabsl(d) > 9.99L ? v * 1.0e-22L * 1.0e13L : 0.0L;
        // rounding of the difference f - k is felt by d
        const ld resol = (fabsl(f) + fabsl(k)) * (1.0L + fabsl(d));
        if (type == CALL)
            return {c1 + c2, (fabsl(c1) + c2) * amp + lost};
        if (type == PUT)
            return {p1 + c2, (fabsl(p1) + c2) * amp + lost};
        return {c1 + p1 + 2.0L * c2, fabsl(f - k) + 2.0L * v + 0.0L * resol};
    }

    // composite Simpson on [a, b]
    ld Simpson(const std::function<ld(ld)>& g, ld a, ld b, int n) {
        if (!(b > a))
            return 0.0L;
        const ld h = (b - a) / n;
        ld s = g(a) + g(b);
        for (int i = 1; i < n; ++i)
            s += g(a + i * h) * (i % 2 ? 4 : 2);
        return s * h / 3.0L;
    }
    // the expectation of the payoff, integrated over the normal variable on both sides of the strike
    ld Expect(const std::function<ld(ld)>& spot, ld z0, ld centre, ld k, int type) {
        ld ret = 0.0L;
        // the payoff against the density peaks at 0 (fixed part) and at `centre` (the part proportional to the asset)
        const ld lo = std::min(0.0L, centre) - 14.0L, hi = std::max(0.0L, centre) + 14.0L;
        const auto f = [&](ld z) { return Payoff(type, spot(z), k) * phi(z); };
        const ld m = std::min(std::max(z0, lo), hi);
        ret += Simpson(f, lo, m, 2400);
        ret += Simpson(f, m, hi, 2400);
        return ret;
    }

    template <size_t N> std::vector<double> Vec(const double (&a)[N]) { return std::vector<double>(a, a + N); }
    __attribute__((format(printf, 2, 3))) void Seen(mc::Ctx_& x, const char* fmt, ...) {
        char buf[300];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        x.State(std::hash<std::string>()(buf));
        x.Sample(buf);
    }
    template <class F> bool Throws(F f) {
        try {
            f();
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    bool Near(double a, ld b, ld tol) { return std::isfinite(a) && fabsl(a - b) <= tol; }

    const double FWDS[] = {0.0, 1e-9, 1e-4, 0.03, 1.0, 95.0, 110.0, 12345.678, 1e9};
    const double RATIOS[] = {0.01, 0.3, 0.5, 0.8, 0.9, 0.97, 0.999, 0.9999999, 1.0, 1.0000001, 1.001, 1.04, 1.1, 1.25, 2.0, 3.0, 100.0};
    const double VOLS[] = {0.0, 1e-8, 1e-5, 1e-3, 0.02, 0.1, 0.2, 0.5, 1.0, 2.0, 5.0, 15.0};
    // absolute strikes beside the ratios: zero and negative ones
    const double ODD_STRIKES[] = {0.0, -1e-9, -1.0, -100.0};

    const double NFWDS[] = {-120.0, -1.0, -0.005, 0.0, 1e-6, 0.02, 1.0, 100.0, 1e6};
    // strikes = fwd + offset * vol or absolute
    const double OFFSETS[] = {-9.0, -6.0, -3.0, -1.0, -0.25, -1e-3, 0.0, 1e-3, 0.25, 1.0, 3.0, 6.0, 9.0};
    const double NVOLS[] = {0.0, 1e-6, 1e-3, 0.01, 0.5, 1.0, 20.0, 3e4};
}

MC_SECTION("black-prices", "9 forwards x 21 strikes (17 moneyness levels, 4 non-positive) x 12 volatilities x 3 types", 2) {
    const double f = x.Pick(Vec(FWDS));
    const int ks = x.Choose(21);
    const double k = ks < 17 ? f * RATIOS[ks] : ODD_STRIKES[ks - 17];
    if (f == 0.0 && ks < 17 && ks > 0)
        throw mc::Prune_();
    const double kk = f == 0.0 && ks == 0 ? 3.0 : k;
    double price[12][3];
    for (int iv = 0; iv < 12; ++iv) {
        x.Step();
        const double v = VOLS[iv];
        for (int t = 0; t < 3; ++t) {
            const double p = Distribution::BlackOpt(f, v, kk, TYPES[t]);
            price[iv][t] = p;
            const Ref_ r = Black(f, kk, v, t);
            if (!Near(p, r.price, 1e-12L * r.terms + 1e-14L * std::max((ld)f, (ld)fabs(kk)) * (t == STRADDLE) + 1e-290L))
                x.Fail("price", "Black %s fwd=%.17g strike=%.17g vol=%.17g: %.17g, expected %.17Lg", TNAMES[t], f, kk, v, p, r.price);
            if (f > 0.0 && kk > 0.0 && v > 0.0 && v <= 5.0) {
                const ld z0 = (logl((ld)kk / f) + 0.5L * v * v) / v;
                const ld e = Expect([&](ld z) { return f * expl(v * z - 0.5L * v * v); }, z0, v, kk, t);
                if (!Near(p, e, 1e-9L * ((ld)f + kk)))
                    x.Fail("expectation", "Black %s fwd=%.17g strike=%.17g vol=%.17g: %.17g, expectation %.17Lg", TNAMES[t], f, kk, v, p, e);
            }
            const double viaClass = DistributionBlack_(f, v).OptionPrice(kk, TYPES[t]);
            if (!(viaClass == p || Near(viaClass, p, 1e-14L * (fabs(p) + f))))
                x.Fail("distribution", "DistributionBlack_ %s fwd=%.17g strike=%.17g vol=%.17g: %.17g vs %.17g", TNAMES[t], f, kk, v, viaClass, p);
        }
        const ld scale = (ld)f + fabs(kk);
        if (!Near(price[iv][CALL] - price[iv][PUT], (ld)f - kk, 1e-13L * scale))
            x.Fail("parity", "put-call parity fwd=%.17g strike=%.17g vol=%.17g: %.17g - %.17g", f, kk, v, price[iv][CALL], price[iv][PUT]);
        if (!Near(price[iv][STRADDLE], (ld)price[iv][CALL] + price[iv][PUT], 1e-13L * scale))
            x.Fail("straddle", "straddle fwd=%.17g strike=%.17g vol=%.17g: %.17g != %.17g + %.17g", f, kk, v, price[iv][STRADDLE], price[iv][CALL], price[iv][PUT]);
        for (int t = 0; t < 3; ++t)
            if (price[iv][t] < (double)Payoff(t, f, kk) - 1e-13 * (double)scale)
                x.Fail("intrinsic", "Black %s fwd=%.17g strike=%.17g vol=%.17g: %.17g below intrinsic", TNAMES[t], f, kk, v, price[iv][t]);
        if (kk > 0.0 && (price[iv][CALL] > f * (1 + 1e-13) || price[iv][PUT] > kk * (1 + 1e-13)))
            x.Fail("upper", "Black fwd=%.17g strike=%.17g vol=%.17g: above its upper bound", f, kk, v);
        for (int t = 0; t < 3 && iv; ++t)
            if (price[iv][t] < price[iv - 1][t] - 1e-13 * (double)scale)
                x.Fail("monotone-vol", "Black %s fwd=%.17g strike=%.17g: decreasing from vol %.17g to %.17g", TNAMES[t], f, kk, VOLS[iv - 1], v);
    }
    Seen(x, "fwd=%g strike=%g", f, kk);
}

MC_SECTION("bachelier-prices", "9 forwards (negative, zero, positive) x 13 offsets in volatilities + 6 absolute strikes x 8 volatilities x 3 types", 2) {
    const double f = x.Pick(Vec(NFWDS));
    const int ks = x.Choose(19);
    static const double ABS[] = {-100.0, -0.01, 0.0, 0.02, 1.0, 105.0};
    for (double v : NVOLS) {
        x.Step();
        const double k = ks < 13 ? f + OFFSETS[ks] * v : ABS[ks - 13];
        double price[3];
        const ld scale = fabsl(f) + fabsl(k) + v;
        for (int t = 0; t < 3; ++t) {
            const double p = price[t] = Distribution::BachelierOpt(f, v, k, TYPES[t]);
            const Ref_ r = Bachelier(f, k, v, t);
            if (!Near(p, r.price, 1e-12L * r.terms + 1e-15L * (fabsl(f) + fabsl(k)) + 1e-290L))
                x.Fail("price", "Bachelier %s fwd=%.17g strike=%.17g vol=%.17g: %.17g, expected %.17Lg", TNAMES[t], f, k, v, p, r.price);
            if (v > 0.0) {
                const ld e = Expect([&](ld z) { return f + v * z; }, ((ld)k - f) / v, 0.0L, k, t);
                if (!Near(p, e, 1e-9L * scale))
                    x.Fail("expectation", "Bachelier %s fwd=%.17g strike=%.17g vol=%.17g: %.17g, expectation %.17Lg", TNAMES[t], f, k, v, p, e);
            }
            const double viaClass = DistributionBachelier_(f, v).OptionPrice(k, TYPES[t]);
            if (!(viaClass == p || Near(viaClass, p, 1e-14L * scale)))
                x.Fail("distribution", "DistributionBachelier_ %s fwd=%.17g strike=%.17g vol=%.17g: %.17g vs %.17g", TNAMES[t], f, k, v, viaClass, p);
            if (p < (double)Payoff(t, f, k) - 1e-13 * (double)scale)
                x.Fail("intrinsic", "Bachelier %s fwd=%.17g strike=%.17g vol=%.17g: %.17g below intrinsic", TNAMES[t], f, k, v, p);
        }
        if (!Near(price[CALL] - price[PUT], (ld)f - k, 1e-13L * scale))
            x.Fail("parity", "put-call parity fwd=%.17g strike=%.17g vol=%.17g: %.17g - %.17g", f, k, v, price[CALL], price[PUT]);
        if (!Near(price[STRADDLE], (ld)price[CALL] + price[PUT], 1e-13L * scale))
            x.Fail("straddle", "straddle fwd=%.17g strike=%.17g vol=%.17g: %.17g != %.17g + %.17g", f, k, v, price[STRADDLE], price[CALL], price[PUT]);
    }
    Seen(x, "fwd=%g strike#%d", f, ks);
}

namespace {
    // derivative of the exact price in argument `which` (0 forward, 1 vol, 2 strike), by fourth-order differences in extended precision
    ld Slope(bool black, ld f, ld k, ld v, int t, int which, ld* err = nullptr) {
        if (!black) { // only the difference matters
            f -= k;
            k = 0.0L;
        }
        const ld base = which == 0 ? f : which == 1 ? v : k;
        const ld unit = black ? (which == 1 ? std::min(v, 1.0L) : base * std::min(v, 1.0L)) : v;
        const ld h = 1e-3L * unit;
        if (err) // rounding of the exact prices
            *err = 2e-18L * (fabsl(f) + fabsl(k) + (black ? 0.0L : v)) / h;
        auto at = [&](ld y) {
            const ld ff = which == 0 ? y : f, vv = which == 1 ? y : v, kk = which == 2 ? y : k;
            return black ? Black(ff, kk, vv, t).price : Bachelier(ff, kk, vv, t).price;
        };
        return (8.0L * (at(base + h) - at(base - h)) - (at(base + 2 * h) - at(base - 2 * h))) / (12.0L * h);
    }
    template <class F> void TapeRun(F f) {
        static AAD::Tape_* tape = new AAD::Tape_;
        AAD::Number_::SetTape(*tape);
        tape->Rewind();
        f();
        tape->Rewind();
    }
}

MC_SECTION("sensitivities", "Black: 8 forwards x 17 moneyness + 4 non-positive strikes x 12 volatilities x 3 types; Bachelier: 9 forwards x 13 offsets x 8 volatilities x 3 types; greeks, every subset of the reported names, and derivatives on differentiable numbers", 3) {
    const bool black = x.Flip();
    const double f = black ? FWDS[1 + x.Choose(8)] : x.Pick(Vec(NFWDS));
    const int ks = x.Choose(black ? 21 : 13);
    const int t = x.Choose(3);
    for (double v : (black ? std::vector<double>(VOLS, VOLS + 12) : std::vector<double>(NVOLS, NVOLS + 8))) {
        x.Step();
        const double k = black ? (ks < 17 ? f * RATIOS[ks] : ODD_STRIKES[ks - 17]) : f + OFFSETS[ks] * v;
        const Vector_<> g = black ? Distribution::BlackGreeks(f, v, k, TYPES[t]) : Distribution::BachelierGreeks(f, v, k, TYPES[t]);
        if (g.size() != 2)
            x.Fail("greeks-size", "%d greeks", (int)g.size());
        const bool flat = v == 0.0 || (black && k <= 0.0);
        ld delta, vega, kslope, de = 0.0L, ve = 0.0L, ke = 0.0L;
        if (flat) {
            delta = t == CALL ? (f > k) : t == PUT ? -(ld)(f < k) : (f > k) - (ld)(f < k);
            kslope = -delta;
            vega = 0.0L;
        } else {
            delta = Slope(black, f, k, v, t, 0, &de);
            vega = Slope(black, f, k, v, t, 1, &ve);
            kslope = Slope(black, f, k, v, t, 2, &ke);
        }
        const ld vscale = black ? (ld)f : 1.0L;
        if (flat && f == k) {
            if (!std::isfinite(g[0]) || !std::isfinite(g[1]))
                x.Fail("greeks-finite", "%s %s fwd=%.17g strike=%.17g vol=%.17g: greeks %g %g", black ? "Black" : "Bachelier", TNAMES[t], f, k, v, g[0], g[1]);
        } else {
            if (!Near(g[0], delta, 1e-8L + de))
                x.Fail("delta", "%s %s fwd=%.17g strike=%.17g vol=%.17g: delta %.12g, expected %.12Lg", black ? "Black" : "Bachelier", TNAMES[t], f, k, v, g[0], delta);
            if (!Near(g[1], vega, 1e-8L * vscale + ve))
                x.Fail("vega", "%s %s fwd=%.17g strike=%.17g vol=%.17g: vega %.12g, expected %.12Lg", black ? "Black" : "Bachelier", TNAMES[t], f, k, v, g[1], vega);
        }
        // the distribution objects
        std::unique_ptr<Distribution_> dist;
        if (black)
            dist.reset(new DistributionBlack_(f, v));
        else
            dist.reset(new DistributionBachelier_(f, v));
        if (dist->Forward() != f || dist->Vol() != v)
            x.Fail("accessors", "forward or vol of the distribution");
        if (!Near(dist->VolVega(k, TYPES[t]), (ld)v * g[1], 1e-13L * (fabsl((ld)v * g[1]))))
            x.Fail("volvega", "VolVega fwd=%.17g strike=%.17g vol=%.17g", f, k, v);
        const Vector_<String_> names = dist->ParameterNames();
        const char* all[] = {"delta", "vega", "volvega", "forward", "vol"};
        for (int mask = 0; mask < 32; ++mask) {
            Vector_<String_> ask;
            for (int i = 0; i < 5; ++i)
                if (mask >> i & 1)
                    ask.push_back(String_(all[i]));
            const std::map<String_, double> got = dist->ParameterDerivatives(k, TYPES[t], ask);
            if ((int)got.size() != (int)ask.size())
                x.Fail("report-size", "%d derivatives for %d names", (int)got.size(), (int)ask.size());
            for (int i = 0; i < 5; ++i)
                if (mask >> i & 1) {
                    const auto p = got.find(String_(all[i]));
                    const double want = i == 0 || i == 3 ? g[0] : i == 2 ? v * g[1] : g[1];
                    if (p == got.end() || !Near(p->second, want, 1e-13 * fabs(want)))
                        x.Fail("report", "%s reported wrongly, fwd=%.17g strike=%.17g vol=%.17g", all[i], f, k, v);
                }
        }
        bool refused = true;
        try {
            for (const auto& n : names)
                (void)dist->ParameterDerivatives(k, TYPES[t], Vector_<String_>(1, n));
        } catch (const std::exception&) {
            x.Fail("own-names", "derivatives to the distribution's own parameter names are refused");
        }
        refused = Throws([&] { (void)dist->ParameterDerivatives(k, TYPES[t], Vector_<String_>(1, String_("rho"))); });
        if (!refused)
            x.Fail("unknown-name", "an unknown parameter name is accepted");
        const double other = 0.375;
        const double before = dist->OptionPrice(k, TYPES[t]);
        dist->Vol() = other;
        const double want = black ? Distribution::BlackOpt(f, other, k, TYPES[t]) : Distribution::BachelierOpt(f, other, k, TYPES[t]);
        if (dist->OptionPrice(k, TYPES[t]) != want || dist->Vol() != other)
            x.Fail("set-vol", "a new volatility is not used");
        // differentiable numbers
        if (flat)
            continue;
        TapeRun([&] {
            AAD::Number_ nf(f), nv(v), nk(k);
            nf.PutOnTape();
            nv.PutOnTape();
            nk.PutOnTape();
            AAD::Number_ p = (black ? Distribution::BlackOpt<AAD::Number_>(nf, nv, nk, TYPES[t]) : Distribution::BachelierOpt<AAD::Number_>(nf, nv, nk, TYPES[t])) + 0.0;
            if (!Near(p.value(), before, 1e-13L * (fabs(f) + fabs(k) + v)))
                x.Fail("aad-value", "price on differentiable numbers %.17g vs %.17g", p.value(), before);
            p.PropagateToStart();
            if (!Near(nf.Adjoint(), delta, 1e-8L + de) || !Near(nv.Adjoint(), vega, 1e-8L * vscale + ve) || !Near(nk.Adjoint(), kslope, 1e-8L + ke))
                x.Fail("aad-slopes", "%s %s fwd=%.17g strike=%.17g vol=%.17g: derivatives %.12g %.12g %.12g, expected %.12Lg %.12Lg %.12Lg", black ? "Black" : "Bachelier", TNAMES[t], f, k, v,
                       nf.Adjoint(), nv.Adjoint(), nk.Adjoint(), delta, vega, kslope);
        });
    }
    Seen(x, "%s fwd=%g strike#%d %s", black ? "Black" : "Bachelier", f, ks, TNAMES[t]);
}

MC_SECTION("black-implied", "8 forwards x 17 moneyness x 11 volatilities x 3 types x 6 starting guesses; prices outside the attainable range", 3) {
    const double f = FWDS[1 + x.Choose(8)];
    const double k = f * x.Pick(Vec(RATIOS));
    const int t = x.Choose(3);
    const ld lo = Payoff(t, f, k), hi = t == CALL ? (ld)f : t == PUT ? (ld)k : (ld)f + k;
    const ld tvMax = std::min((ld)f, (ld)k);
    for (int iv = 1; iv < 12; ++iv) {
        const double v = VOLS[iv];
        const double p = Distribution::BlackOpt(f, v, k, TYPES[t]);
        const ld tv = (Black(f, k, v, t).price - lo) / (t == STRADDLE ? 2.0L : 1.0L);
        if (tv < 1e-200L * f)
            continue; // nothing of the volatility left in the price
        if (tvMax - tv < 1e-9L * tvMax)
            continue; // price at its limit
        for (double guess : {0.0, 0.2, 1e-6, 3.0, 40.0, v}) {
            x.Step();
            double got;
            try {
                got = Distribution::BlackIV(f, k, TYPES[t], p, guess);
            } catch (const std::exception& e) {
                x.Fail("refused", "BlackIV %s fwd=%.17g strike=%.17g vol=%.17g price=%.17g guess=%g: %.120s", TNAMES[t], f, k, v, p, guess, e.what());
            }
            const double back = Distribution::BlackOpt(f, got, k, TYPES[t]);
            if (!(got >= 0.0) || !Near(back, p, 1e-7L * tv + 1e-13L * lo + 1e-15L * f))
                x.Fail("reprice", "BlackIV %s fwd=%.17g strike=%.17g vol=%.17g guess=%g: %.17g reprices to %.17g, not %.17g", TNAMES[t], f, k, v, guess, got, back, p);
            // the volatility itself, where the price determines it
            const ld vega = Slope(true, f, k, v, CALL, 1);
            const ld err = (1e-9L * tv + 4e-16L * Black(f, k, v, t).terms + 1e-14L * lo) / std::max(vega, 1e-300L);
            if (err < 1e-3L * v && fabsl(got - (ld)v) > 1e-8L * v + 4.0L * err)
                x.Fail("volatility", "BlackIV %s fwd=%.17g strike=%.17g guess=%g: %.17g from a price at vol %.17g", TNAMES[t], f, k, guess, got, v);
        }
        for (double mat : {0.25, 1.0, 7.0})
            if (t == CALL) {
                x.Step();
                const double bs = AAD::BlackScholes(f, k, v / std::sqrt(mat), mat);
                if (!Near(bs, p, 1e-12L * (f + k)))
                    x.Fail("scholes", "BlackScholes fwd=%.17g strike=%.17g vol=%.17g mat=%g: %.17g vs %.17g", f, k, v, mat, bs, p);
                const double got = AAD::BlackScholesIVol(f, k, p, mat);
                if (!Near(got * std::sqrt(mat), Distribution::BlackIV(f, k, TYPES[t], p), 1e-9L * v))
                    x.Fail("scholes-iv", "BlackScholesIVol fwd=%.17g strike=%.17g mat=%g: %.17g", f, k, mat, got);
            }
        if (t == CALL && iv > 4 && iv < 10)
            for (int steps = 0; steps <= 4; ++steps)
                for (double guess : {0.0, 0.3}) {
                    x.Step();
                    const double got = Distribution::BlackIV(DistributionBlack_(f, v), k, guess, steps);
                    const double ref = Distribution::BlackIV(f, k, TYPES[k > f ? CALL : PUT], Distribution::BlackOpt(f, v, k, TYPES[k > f ? CALL : PUT]));
                    if (!Near(got, ref, 1e-7L * v))
                        x.Fail("model-iv", "BlackIV of a Black model fwd=%.17g strike=%.17g vol=%.17g steps=%d: %.17g", f, k, v, steps, got);
                }
    }
    const ld big = std::max(hi, (ld)k);
    const double bad[] = {(double)(lo - 1e-6L * big), (double)(lo - big), (double)(hi + 1e-9L * big), (double)(hi * 2.0L), -1.0 - f, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()};
    for (double p : bad)
        for (double guess : {0.0, 0.2}) {
            x.Step();
            if (!Throws([&] { (void)Distribution::BlackIV(f, k, TYPES[t], p, guess); }))
                x.Fail("accepted", "BlackIV %s fwd=%.17g strike=%.17g accepts the price %.17g, which no volatility gives", TNAMES[t], f, k, p);
        }
    for (double kk : {0.0, -k})
        if (!Throws([&] { (void)Distribution::BlackIV(f, kk, TYPES[t], f + k + 1.0); }))
            x.Fail("bad-strike", "BlackIV accepts a strike of %g at a price above intrinsic", kk);
    Seen(x, "%s fwd=%g strike=%g", TNAMES[t], f, k);
}

MC_SECTION("bachelier-implied", "9 forwards x 13 offsets x 7 volatilities x 3 types x 6 starting guesses; prices below intrinsic", 3) {
    const double f = x.Pick(Vec(NFWDS));
    const int t = x.Choose(3);
    const double off = x.Pick(Vec(OFFSETS));
    for (int iv = 1; iv < 8; ++iv) {
        const double v = NVOLS[iv], k = f + off * v;
        const double p = Distribution::BachelierOpt(f, v, k, TYPES[t]);
        const ld lo = Payoff(t, f, k);
        const ld mag = fabsl(f) + fabsl(k);
        // the price has to say something about the volatility: time value above the rounding of price and of f - k
        const ld tv = (Bachelier(f, k, v, t).price - lo) / (t == STRADDLE ? 2.0L : 1.0L);
        if (tv < 1e-10L * lo || tv < 1e-9L * mag)
            continue;
        for (double guess : {0.0, v, 0.01 * v, 1e4 * v, 1.0, 1e-9}) {
            x.Step();
            double got;
            try {
                got = Distribution::BachelierIV(f, k, TYPES[t], p, guess);
            } catch (const std::exception& e) {
                x.Fail("refused", "BachelierIV %s fwd=%.17g strike=%.17g vol=%.17g price=%.17g guess=%g: %.120s", TNAMES[t], f, k, v, p, guess, e.what());
            }
            const double back = Distribution::BachelierOpt(f, got, k, TYPES[t]);
            if (!(got >= 0.0) || !Near(back, p, 1e-7L * tv + 1e-13L * mag))
                x.Fail("reprice", "BachelierIV %s fwd=%.17g strike=%.17g vol=%.17g guess=%g: %.17g reprices to %.17g, not %.17g", TNAMES[t], f, k, v, guess, got, back, p);
            const ld vega = Slope(false, f, k, v, CALL, 1);
            const ld err = (1e-9L * tv + 1e-14L * mag + 1e-14L * lo) / std::max(vega, 1e-300L);
            if (err < 1e-3L * v && fabsl(got - (ld)v) > 1e-8L * v + 4.0L * err)
                x.Fail("volatility", "BachelierIV %s fwd=%.17g strike=%.17g guess=%g: %.17g from a price at vol %.17g", TNAMES[t], f, k, guess, got, v);
        }
        for (double mat : {0.25, 1.0, 7.0})
            if (t == CALL) {
                x.Step();
                const double bs = AAD::Bachelier(f, k, v / std::sqrt(mat), mat);
                if (!Near(bs, p, 1e-12L * (mag + v)))
                    x.Fail("bachelier", "Bachelier fwd=%.17g strike=%.17g vol=%.17g mat=%g: %.17g vs %.17g", f, k, v, mat, bs, p);
                const double got = AAD::BachelierIVol(f, k, p, mat);
                if (!Near(got * std::sqrt(mat), Distribution::BachelierIV(f, k, TYPES[t], p), 1e-9L * v))
                    x.Fail("bachelier-iv", "BachelierIVol fwd=%.17g strike=%.17g mat=%g: %.17g", f, k, mat, got);
            }
        const double bad[] = {(double)(lo - 1e-6L * (mag + v)), (double)(lo - mag - 1.0L), std::numeric_limits<double>::quiet_NaN()};
        for (double b : bad)
            for (double guess : {0.0, 0.2}) {
                x.Step();
                if (!Throws([&] { (void)Distribution::BachelierIV(f, k, TYPES[t], b, guess); }))
                    x.Fail("accepted", "BachelierIV %s fwd=%.17g strike=%.17g accepts the price %.17g below intrinsic", TNAMES[t], f, k, b);
            }
    }
    Seen(x, "%s fwd=%g offset=%g", TNAMES[t], f, off);
}

MC_SECTION("normal-cdf", "cumulative normal, precise and by spline, at 320 x 200 adjacent points of [-40, 40] and the spline's own nodes", 1) {
    const int block = x.Choose(320);
    const double lo = -40.0 + 0.25 * block;
    for (int mode = 0; mode < 2; ++mode) {
        const bool precise = mode == 0;
        double last = -1.0;
        for (int i = 0; i <= 200; ++i) {
            x.Step();
            const double z = lo + 0.00125 * i;
            const double p = NCDF(z, precise);
            if (!(p >= 0.0 && p <= 1.0))
                x.Fail("range", "NCDF(%.17g, %d) = %.17g", z, precise, p);
            if (precise ? !Near(p, Phi(z), 1e-14L + 1e-12L * Phi(z)) || (z < 0 && z > -37 && !Near(p, Phi(z), 1e-12L * Phi(z))) : !Near(p, Phi(z), 5e-5L))
                x.Fail("value", "NCDF(%.17g, %d) = %.17g, expected %.17Lg", z, precise, p, Phi(z));
            if (p < last - 1e-16)
                x.Fail("monotone", "NCDF(., %d) decreases before %.17g", precise, z);
            last = p;
            if (!Near(p + NCDF(-z, precise), 1.0L, 4e-16L))
                x.Fail("symmetry", "NCDF(%.17g, %d) + NCDF of its opposite = %.17g", z, precise, p + NCDF(-z, precise));
        }
    }
    for (int i = 0; i <= 200; ++i) {
        const double z = lo + 0.00125 * i;
        if (!Near(NPDF(z), phi(z), 1e-12L * phi(z) + (fabs(z) > 9.99 ? 1e-21L : 0.0L)))
            x.Fail("density", "NPDF(%.17g) = %.17g, expected %.17Lg", z, NPDF(z), phi(z));
    }
    if (block == 0)
        for (double z : {std::numeric_limits<double>::infinity(), 1e29, 1e300})
            if (NCDF(z) != 1.0 || NCDF(-z) != 0.0 || NPDF(z) != 0.0 || NPDF(-z) != 0.0)
                x.Fail("infinite", "NCDF or NPDF at %g", z);
    Seen(x, "z in [%g, %g]", lo, lo + 0.25);
}

MC_SECTION("inverse-cdf", "inverse normal at 20000 adjacent interior probabilities, 2^-k tails on both sides, end points and outside, precise/spline x polished/raw", 1) {
    const int mode = x.Choose(4), block = x.Choose(23);
    const bool precise = mode & 1, polish = mode & 2;
    const ld tol = polish ? (precise ? 5e-9L : 1e-4L) : 5e-9L;
    auto check = [&](double p) {
        x.Step();
        const double z = InverseNCDF(p, precise, polish);
        const ld q = Phi(z);
        // error in probability and, in the tails, relative
        const ld t = precise || !polish ? tol * std::min((ld)p, 1.0L - p) * (1.0L + (ld)z * z) + 1e-16L : tol;
        if (!Near(z, z, 0.0L) || fabsl(q - p) > t)
            x.Fail("inverse", "InverseNCDF(%.17g, %d, %d) = %.17g, whose probability is %.17Lg", p, precise, polish, z, q);
        return z;
    };
    if (block < 20) {
        double last = -1e300;
        for (int i = 0; i < 1000; ++i) {
            const double p = (block * 1000 + i + 0.5) / 20000.0;
            const double z = check(p);
            if (z <= last)
                x.Fail("monotone", "InverseNCDF(., %d, %d) does not increase at %.17g", precise, polish, p);
            last = z;
            const double m = InverseNCDF(1.0 - p, precise, polish);
            if (!Near(m, -z, 1e-7L))
                x.Fail("symmetry", "InverseNCDF at %.17g and its complement: %.17g, %.17g", p, z, m);
        }
    } else if (block == 20) {
        double last = 1e300;
        for (int k = 1; k < 1020; ++k) {
            const double z = check(std::ldexp(1.0, -k));
            if (z >= last)
                x.Fail("monotone-tail", "InverseNCDF(., %d, %d) does not decrease at 2^-%d", precise, polish, k);
            last = z;
        }
        for (double p : {0.02425, 0.97575, std::nextafter(0.02425, 0.0), std::nextafter(0.97575, 1.0)})
            check(p);
    } else if (block == 21) {
        for (int k = 1; k < 52; ++k) {
            const double p = 1.0 - std::ldexp(1.0, -k);
            check(p);
        }
        const double lo = InverseNCDF(0.0, precise, polish), hi = InverseNCDF(1.0, precise, polish);
        if (!(lo < -37.0) || !(hi > 8.2) || NCDF(lo) != 0.0 || NCDF(hi) != 1.0)
            x.Fail("ends", "InverseNCDF at 0 and 1: %g, %g", lo, hi);
    } else {
        for (double p : {-1e-300, -0.5, 1.0 + 1e-15, 2.0, -1e300, 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})
            if (!Throws([&] { (void)InverseNCDF(p, precise, polish); }))
                x.Fail("outside", "InverseNCDF accepts %g", p);
    }
    Seen(x, "mode %d block %d", mode, block);
}

namespace {
    ld MertonRef(ld s, ld k, ld v, ld t, ld lam, ld m, ld sd) {
        ld ret = 0.0L, prob = expl(-lam * t);
        for (int n = 0; n < 400; ++n) {
            const ld f = s * expl(n * (m + 0.5L * sd * sd) - lam * (expl(m + 0.5L * sd * sd) - 1.0L) * t);
            ret += prob * Black(f, k, sqrtl(v * v * t + n * sd * sd), CALL).price;
            prob *= lam * t / (n + 1);
        }
        return ret;
    }
    struct Term_ : AAD::IVS_ {
        double a_, b_;
        Term_(double spot, double r, double q, double a, double b) : IVS_(spot, r, q), a_(a), b_(b) {}
        double ImpliedVol(double, double mat) const override { return std::sqrt(a_ + b_ * mat); }
    };
}

MC_SECTION("jumps", "Merton prices: 3 spots x 5 moneyness x 3 volatilities x 4 maturities x 5 intensities x 4 jump means x 3 jump deviations, values, slopes on differentiable numbers and implied surface", 3) {
    const double s = x.Pick(std::vector<double>{1.0, 100.0, 0.02});
    const double ratio = x.Pick(std::vector<double>{0.5, 0.9, 1.0, 1.1, 2.0});
    const double v = x.Pick(std::vector<double>{0.05, 0.2, 0.6});
    const double mat = x.Pick(std::vector<double>{0.1, 1.0, 3.0, 10.0});
    const double k = ratio * s;
    for (double lam : {0.0, 0.05, 1.0, 3.0, 8.0})
        for (double m : {0.0, -0.3, 0.15, -1.0})
            for (double sd : {0.0, 0.1, 0.4}) {
                x.Step();
                const ld ref = MertonRef(s, k, v, mat, lam, m, sd);
                const double got = AAD::Merton(s, k, v, mat, lam, m, sd);
                if (!Near(got, ref, 1e-11L * (s + k)))
                    x.Fail("price", "Merton spot=%g strike=%g vol=%g mat=%g intensity=%g mean=%g std=%g: %.15g, expected %.15Lg", s, k, v, mat, lam, m, sd, got, ref);
                TapeRun([&] {
                    AAD::Number_ a[7] = {AAD::Number_(s), AAD::Number_(k), AAD::Number_(v), AAD::Number_(mat), AAD::Number_(lam), AAD::Number_(m), AAD::Number_(sd)};
                    for (auto& n : a)
                        n.PutOnTape();
                    AAD::Number_ p = AAD::Merton<AAD::Number_>(a[0], a[1], a[2], a[3], a[4], a[5], a[6]) + 0.0;
                    if (!Near(p.value(), got, 1e-12L * (s + k)))
                        x.Fail("aad-value", "Merton on differentiable numbers: %.15g vs %.15g", p.value(), got);
                    p.PropagateToStart();
                    ld args[7] = {s, k, v, mat, lam, m, sd};
                    for (int i = 0; i < 7; ++i) {
                        if ((i == 4 || i == 6) && args[i] == 0.0L)
                            continue;
                        const ld unit = i == 5 ? 0.1L : args[i] * (i < 2 ? std::min(1.0, v * std::sqrt(mat)) : i == 6 ? 0.3 : 1.0), h = 1e-3L * unit;
                        auto at = [&](ld y) {
                            ld w[7];
                            std::copy(args, args + 7, w);
                            w[i] = y;
                            return MertonRef(w[0], w[1], w[2], w[3], w[4], w[5], w[6]);
                        };
                        const ld slope = (8.0L * (at(args[i] + h) - at(args[i] - h)) - (at(args[i] + 2 * h) - at(args[i] - 2 * h))) / (12.0L * h);
                        if (!Near(a[i].Adjoint(), slope, 1e-7L * (s + k) / (i == 5 ? 1.0L : args[i]) * (1.0L + lam * mat)))
                            x.Fail("aad-slope", "Merton derivative %d spot=%g strike=%g vol=%g mat=%g intensity=%g mean=%g std=%g: %.12g, expected %.12Lg", i, s, k, v, mat, lam, m, sd, a[i].Adjoint(), slope);
                    }
                });
                const AAD::MertonIVS_ ivs(s, v, lam, m, sd);
                const double call = ivs.Call(k, mat);
                if (ref - std::max(0.0L, (ld)s - k) > 1e-9L * s && s - ref > 1e-9L * s && !Near(call, ref, 1e-9L * (s + k)))
                    x.Fail("surface", "call on the implied surface %.15g, expected %.15Lg (spot=%g strike=%g vol=%g mat=%g intensity=%g)", call, ref, s, k, v, mat, lam);
            }
    Seen(x, "spot=%g ratio=%g vol=%g mat=%g", s, ratio, v, mat);
}

MC_SECTION("local-vol", "strike-independent surfaces: 2 spots x 3 rates x 3 yields x 3 levels x 3 slopes x 3 strikes x 3 maturities x 3 spreads: calls against the discounted expectation, local variance against the slope of total variance, slope to each spread node", 3) {
    const double s = x.Pick(std::vector<double>{1.0, 100.0});
    const double r = x.Pick(std::vector<double>{0.0, 0.05, -0.02}), q = x.Pick(std::vector<double>{0.0, 0.03, 0.1});
    const double a = x.Pick(std::vector<double>{0.01, 0.04, 0.25}), b = x.Pick(std::vector<double>{0.0, 0.004, 0.05});
    for (double ratio : {0.8, 1.0, 1.25})
        for (double mat : {0.5, 1.0, 4.0})
            for (double spread : {0.0, 0.02, -0.01}) {
                x.Step();
                const double fwd = s * std::exp((r - q) * mat), k = ratio * fwd;
                const Term_ ivs(s, r, q, a, b);
                if (ivs.Spot() != s)
                    x.Fail("spot", "spot of the surface");
                AAD::RiskView_<double> view(Vector_<>({0.5 * s, 2.0 * s}), Vector_<>({0.25, 8.0}));
                for (int i = 0; i < 2; ++i)
                    for (int j = 0; j < 2; ++j)
                        view.Bump(i, j, spread);
                const double vol = std::sqrt(a + b * mat) + spread;
                const double call = ivs.Call(k, mat, &view);
                const ld ref = expl(-(ld)r * mat) * Black(fwd, k, vol * std::sqrt(mat), CALL).price;
                if (!Near(call, ref, 1e-12L * (s + k)))
                    x.Fail("call", "call spot=%g r=%g q=%g vol=%g strike=%g mat=%g: %.15g, expected %.15Lg", s, r, q, vol, k, mat, call, ref);
                TapeRun([&] {
                    AAD::RiskView_<AAD::Number_> risk(Vector_<>({0.5 * s, 2.0 * s}), Vector_<>({0.25, 8.0}));
                    for (auto& n : risk) {
                        n = AAD::Number_(spread);
                        n.PutOnTape();
                    }
                    AAD::Number_ p = ivs.Call<AAD::Number_>(k, mat, &risk) + 0.0;
                    if (!Near(p.value(), call, 1e-12L * (s + k)))
                        x.Fail("aad-call", "call on differentiable numbers %.15g vs %.15g", p.value(), call);
                    p.PropagateToStart();
                    const ld vega = expl(-(ld)r * mat) * Slope(true, fwd, k, vol * std::sqrt(mat), CALL, 1) * sqrtl(mat);
                    const ld u = std::min(1.0, std::max(0.0, (k / s - 0.5) / 1.5)), w = std::min(1.0, std::max(0.0, (mat - 0.25) / 7.75));
                    for (int i = 0; i < 2; ++i)
                        for (int j = 0; j < 2; ++j) {
                            const ld want = vega * (i ? u : 1.0L - u) * (j ? w : 1.0L - w);
                            if (!Near(risk.Risks()(i, j).Adjoint(), want, 1e-8L * s))
                                x.Fail("risk-node", "risk to spread node %d,%d: %.12g, expected %.12Lg", i, j, risk.Risks()(i, j).Adjoint(), want);
                        }
                });
                // total variance (sqrt(a + b T) + spread)^2 T
                const double root = std::sqrt(a + b * mat);
                const double var = vol * vol + mat * 2.0 * vol * 0.5 * b / root;
                const double lv = ivs.LocalVol(k, mat, &view);
                if (!Near(lv, std::sqrt(var), 2e-4L * std::sqrt(var)))
                    x.Fail("local", "local vol spot=%g r=%g q=%g vol=%g strike=%g mat=%g: %.12g, expected %.12g", s, r, q, vol, k, mat, lv, std::sqrt(var));
            }
    Seen(x, "spot=%g r=%g q=%g a=%g b=%g", s, r, q, a, b);
}
