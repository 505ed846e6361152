// Operators, dual numbers and the enumeration of composed expressions (C04).
#pragma once
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/specialfunctions.hpp>
#include "mc.hpp"
#include <functional>
#include <tuple>
using Dal::AAD::Number_;
using Dal::AAD::Tape_;

namespace aad {
    const int NI = 3;
    // reference: value, partials with respect to the three inputs, and whether the point is a smooth one
    struct Dual_ {
        double v = 0.0;
        double d[NI] = {0.0, 0.0, 0.0};
        double m[NI] = {0.0, 0.0, 0.0}; // sum of the absolute contributions: the scale of rounding errors
        bool ok = true, u = false; // u: depends on an input
        Dual_() = default;
        Dual_(double c) : v(c) {}
    };
    inline Dual_ Un(const Dual_& a, double v, double da) {
        Dual_ r;
        r.v = v;
        r.u = a.u;
        r.ok = a.ok && std::isfinite(v) && (!a.u || std::isfinite(da));
        for (int i = 0; i < NI; ++i)
            r.d[i] = a.d[i] == 0.0 ? 0.0 : da * a.d[i], r.m[i] = a.m[i] == 0.0 ? 0.0 : std::fabs(da) * a.m[i];
        return r;
    }
    inline Dual_ Bi(const Dual_& a, const Dual_& b, double v, double da, double db) {
        Dual_ r;
        r.v = v;
        const bool ua = a.u, ub = b.u;
        r.u = ua || ub;
        r.ok = a.ok && b.ok && std::isfinite(v) && (!ua || std::isfinite(da)) && (!ub || std::isfinite(db));
        for (int i = 0; i < NI; ++i)
            r.d[i] = (a.d[i] == 0.0 ? 0.0 : da * a.d[i]) + (b.d[i] == 0.0 ? 0.0 : db * b.d[i]),
            r.m[i] = (a.m[i] == 0.0 ? 0.0 : std::fabs(da) * a.m[i]) + (b.m[i] == 0.0 ? 0.0 : std::fabs(db) * b.m[i]);
        return r;
    }
    inline Dual_ operator+(const Dual_& a, const Dual_& b) { return Bi(a, b, a.v + b.v, 1, 1); }
    inline Dual_ operator-(const Dual_& a, const Dual_& b) { return Bi(a, b, a.v - b.v, 1, -1); }
    inline Dual_ operator*(const Dual_& a, const Dual_& b) { return Bi(a, b, a.v * b.v, b.v, a.v); }
    inline Dual_ operator/(const Dual_& a, const Dual_& b) { return Bi(a, b, a.v / b.v, 1 / b.v, -a.v / (b.v * b.v)); }
    inline Dual_ operator-(const Dual_& a) { return Un(a, -a.v, -1); }
    inline Dual_ operator+(const Dual_& a) { return a; }
    inline Dual_ pow(const Dual_& a, const Dual_& b) {
        const bool ua = a.u;
        const double v = std::pow(a.v, b.v);
        // d/da a^b = b a^(b-1); d/db a^b = a^b log a (0 for a = 0, b > 0)
        double da = b.v == 0.0 ? 0.0 : b.v * std::pow(a.v, b.v - 1.0);
        double db = a.v > 0.0 ? v * std::log(a.v) : (a.v == 0.0 && b.v > 0.0 ? 0.0 : NAN);
        Dual_ r = Bi(a, b, v, da, db);
        if (a.v == 0.0 && b.v == 0.0)
            r.ok = false; // no two-sided limit
        if (a.v == 0.0 && ua && b.v < 1.0)
            r.ok = false;
        return r;
    }
    inline Dual_ max(const Dual_& a, const Dual_& b) {
        Dual_ r = a.v > b.v ? a : b;
        r.v = std::max(a.v, b.v);
        r.u = a.u || b.u;
        r.ok = a.ok && b.ok && a.v != b.v;
        return r;
    }
    inline Dual_ min(const Dual_& a, const Dual_& b) {
        Dual_ r = a.v < b.v ? a : b;
        r.v = std::min(a.v, b.v);
        r.u = a.u || b.u;
        r.ok = a.ok && b.ok && a.v != b.v;
        return r;
    }
    inline Dual_ exp(const Dual_& a) { return Un(a, std::exp(a.v), std::exp(a.v)); }
    inline Dual_ log(const Dual_& a) {
        Dual_ r = Un(a, std::log(a.v), 1 / a.v);
        r.ok = r.ok && a.v > 0;
        return r;
    }
    inline Dual_ sqrt(const Dual_& a) { return Un(a, std::sqrt(a.v), 0.5 / std::sqrt(a.v)); }
    inline Dual_ fabs(const Dual_& a) {
        Dual_ r = Un(a, std::fabs(a.v), a.v > 0 ? 1 : -1);
        r.ok = r.ok && a.v != 0;
        return r;
    }
    const double PI = 3.14159265358979323846;
    inline Dual_ NPDF(const Dual_& a) {
        const double v = Dal::NPDF(a.v); // cut off far out
        return Un(a, v, -a.v * v);
    }
    inline Dual_ NCDF(const Dual_& a) { return Un(a, Dal::NCDF(a.v), std::exp(-0.5 * a.v * a.v) / std::sqrt(2 * PI)); }
    inline Dual_ erfc(const Dual_& a) { return Un(a, std::erfc(a.v), -2 / std::sqrt(PI) * std::exp(-a.v * a.v)); }

    // the same operation on Number_ expressions and on duals
    const double C = 1.25; // NOLINT
    struct BAdd { static constexpr const char* N = "+"; template <class A, class B> static auto F(const A& a, const B& b) { return a + b; } };
    struct BSub { static constexpr const char* N = "-"; template <class A, class B> static auto F(const A& a, const B& b) { return a - b; } };
    struct BMul { static constexpr const char* N = "*"; template <class A, class B> static auto F(const A& a, const B& b) { return a * b; } };
    struct BDiv { static constexpr const char* N = "/"; template <class A, class B> static auto F(const A& a, const B& b) { return a / b; } };
    struct BPow { static constexpr const char* N = "pow"; template <class A, class B> static auto F(const A& a, const B& b) { return pow(a, b); } };
    struct BMax { static constexpr const char* N = "max"; template <class A, class B> static auto F(const A& a, const B& b) { return max(a, b); } };
    struct BMin { static constexpr const char* N = "min"; template <class A, class B> static auto F(const A& a, const B& b) { return min(a, b); } };
#define UNARY(NAME, TXT, EXPR)                                                                                                                                                     \
    struct NAME {                                                                                                                                                                  \
        static constexpr const char* N = TXT;                                                                                                                                      \
        template <class A, class B> static auto F(const A& a, const B&) { return EXPR; }                                                                                           \
    };
    UNARY(UExp, "exp", exp(a))
    UNARY(ULog, "log", log(a))
    UNARY(USqrt, "sqrt", sqrt(a))
    UNARY(UAbs, "fabs", fabs(a))
    UNARY(UPdf, "NPDF", NPDF(a))
    UNARY(UCdf, "NCDF", NCDF(a))
    UNARY(UErfc, "erfc", erfc(a))
    UNARY(UNeg, "neg", -a)
    UNARY(UPlus, "plus", +a)
    UNARY(CAdd, "c+", C + a)
    UNARY(AddC, "+c", a + C)
    UNARY(CSub, "c-", C - a)
    UNARY(SubC, "-c", a - C)
    UNARY(CMul, "c*", C * a)
    UNARY(MulC, "*c", a * C)
    UNARY(CDiv, "c/", C / a)
    UNARY(DivC, "/c", a / C)
    UNARY(CPow, "c^", pow(C, a))
    UNARY(PowC, "^c", pow(a, C))
    UNARY(Pow2, "^2", pow(a, 2.0))
    UNARY(CMax, "max(c,)", max(C, a))
    UNARY(MaxC, "max(,c)", max(a, C))
    UNARY(CMin, "min(c,)", min(C, a))
    UNARY(MinC, "min(,c)", min(a, C))
    template <class... O> struct List_ {};
    using All_ = List_<BAdd, BSub, BMul, BDiv, BPow, BMax, BMin, UExp, ULog, USqrt, UAbs, UPdf, UCdf, UErfc, UNeg, UPlus, CAdd, AddC, CSub, SubC, CMul, MulC, CDiv, DivC, CPow, PowC, Pow2, CMax, MaxC, CMin, MinC>;

    struct Prog_ {
        std::string name;
        Number_ (*num)(const Number_&, const Number_&, const Number_&);
        Dual_ (*dual)(const Dual_&, const Dual_&, const Dual_&);
    };
    inline std::vector<Prog_>& Progs() {
        static std::vector<Prog_> p;
        return p;
    }
    template <class F, class G> struct Nest_ {
        // g(f(a,b), c), g(a, f(b,c)), g(f(a,b), f(b,a))
        template <class T> static T P0(const T& a, const T& b, const T& c) { return T(G::F(F::F(a, b), c)); }
        template <class T> static T P1(const T& a, const T& b, const T& c) { return T(G::F(a, F::F(b, c))); }
        template <class T> static T P2(const T& a, const T& b, const T& c) { return T(G::F(F::F(a, b), F::F(c, a))); }
    };
    template <class F, class G> void Add() {
        using N = Nest_<F, G>;
        Progs().push_back({std::string(G::N) + "(" + F::N + "(a,b), c)", &N::template P0<Number_>, &N::template P0<Dual_>});
        Progs().push_back({std::string(G::N) + "(a, " + F::N + "(b,c))", &N::template P1<Number_>, &N::template P1<Dual_>});
        Progs().push_back({std::string(G::N) + "(" + F::N + "(a,b), " + F::N + "(c,a))", &N::template P2<Number_>, &N::template P2<Dual_>});
    }
    template <class F, class... G> void AddRow(List_<G...>) { (Add<F, G>(), ...); }
    template <class... F> void AddRows(List_<F...>) { (AddRow<F>(All_()), ...); }
    void Part0();
    void Part1();
    void Part2();
    void Part3();
    void Part4();
    void Part5();
} // namespace aad
