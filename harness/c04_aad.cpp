// C04: adjoint derivatives against forward-mode dual numbers, for all programs of bounded size.
#include "c04_ops.hpp"
using namespace aad;

namespace {
    bool Same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)) || std::fabs(a - b) <= 1e-300; }
    bool SameD(double got, double exact, double scale) { return got == exact || std::fabs(got - exact) <= 1e-20 + 1e-11 * std::max(std::fabs(exact), scale); } // NPDF is cut off at 10
    void Input(Dual_& d, int i) {
        d.d[i] = d.m[i] = 1.0;
        d.u = true;
    }

    Tape_* s_tape;
    struct Init_ {
        Init_() {
            mc::g_init = [] {
                Part0(), Part1(), Part2(), Part3(), Part4(), Part5();
                s_tape = new Tape_;
                Number_::SetTape(*s_tape);
            };
        }
    } s_init;
} // namespace

MC_SECTION("expressions", "all compositions g(f(a,b),c), g(a,f(b,c)), g(f(a,b),f(c,a)) of 31 operators (with constants left and right) x all inputs from 7 values (thorough 11) per argument: value and three derivatives", 1) {
    const Prog_& p = Progs()[x.Choose(static_cast<int>(Progs().size()), "program")];
    static const std::vector<double> V = {0.5, 2.0, -1.5, 0.0, 1.0, 3.0, 1e-8}, VT = {0.5, 2.0, -1.5, 0.0, 1.0, 3.0, 1e-8, -0.25, 7.5, 1e-17, 1e9};
    const std::vector<double>& v = x.thorough_ ? VT : V;
    for (double a : v)
        for (double b : v)
            for (double c : v) {
                s_tape->Rewind();
                Dual_ da(a), db(b), dc(c);
                Input(da, 0), Input(db, 1), Input(dc, 2);
                const Dual_ e = p.dual(da, db, dc);
                Number_ na(a), nb(b), nc(c);
                Number_ r = p.num(na, nb, nc);
                x.Step();
                if (!e.ok && (std::isnan(e.v) || std::isnan(r.value())))
                    continue;
                if (!Same(r.value(), e.v))
                    x.Fail("value", "%s at (%g, %g, %g): value %.17g, on plain doubles %.17g", p.name.c_str(), a, b, c, r.value(), e.v);
                if (!e.ok)
                    continue;
                r.PropagateToStart();
                const double g[NI] = {na.Adjoint(), nb.Adjoint(), nc.Adjoint()};
                for (int i = 0; i < NI; ++i)
                    if (!SameD(g[i], e.d[i], e.m[i]))
                        x.Fail("derivative", "%s at (%g, %g, %g): derivative to argument %d is %.15g, exact %.15g", p.name.c_str(), a, b, c, i, g[i], e.d[i]);
            }
    if (x.WantSample())
        x.Sample(p.name);
}

namespace {
    // straight-line programs over three registers
    struct Op_ {
        int kind, i, j, k;
    };
    std::vector<Op_> MakeOps(bool thorough) {
        std::vector<Op_> o;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) {
                for (int k = 0; k < 4; ++k)
                    o.push_back({k, i, j, 0}); // r_i op= r_j, also with itself
                for (int k : {10, 11, 12, 13})
                    o.push_back({k, i, j, 0}); // r_i = f(r_j)
                if (i != j)
                    o.push_back({20, i, j, 0}); // copy
                for (int k : {30, 31, 32, 33})
                    o.push_back({k, i, j, 0}); // r_i = combination with the registers and constants
            }
        for (int i = 0; i < 3; ++i) {
            o.push_back({40, i, 0, 0}); // r_i = constant
            o.push_back({41, i, 0, 0}); // r_i += constant
            o.push_back({42, i, 0, 0}); // r_i *= constant
            o.push_back({43, i, 0, 0}); // r_i -= constant
            o.push_back({44, i, 0, 0}); // r_i /= constant
        }
        return o;
    }
    inline Dual_& operator+=(Dual_& a, const Dual_& b) { return a = a + b; }
    inline Dual_& operator-=(Dual_& a, const Dual_& b) { return a = a - b; }
    inline Dual_& operator*=(Dual_& a, const Dual_& b) { return a = a * b; }
    inline Dual_& operator/=(Dual_& a, const Dual_& b) { return a = a / b; }
    template <class T> void Run(const Op_& o, T* r) {
        T& a = r[o.i];
        const T& b = r[o.j];
        switch (o.kind) {
        case 0: a += b; break;
        case 1: a -= b; break;
        case 2: a *= b; break;
        case 3: a /= b; break;
        case 10: a = exp(b * 0.125); break;
        case 11: a = max(b, 1.5); break;
        case 12: a = -b; break;
        case 13: a = NCDF(b); break;
        case 20: a = b; break;
        case 30: a = a * b + r[2] / 3.0; break;
        case 31: a = 2.0 - b * b * r[0]; break;
        case 32: a = max(r[1] - b, a * 0.5); break;
        case 33: a = sqrt(b * b + 1.0) - r[1]; break;
        case 40: a = 0.75; break;
        case 41: a += 0.5; break;
        case 42: a *= -3.0; break;
        case 43: a -= 0.25; break;
        case 44: a /= 1e16; break;
        }
    }
    std::string Show(const std::vector<Op_>& p) {
        std::string s;
        for (auto& o : p)
            s += "[" + std::to_string(o.kind) + " r" + std::to_string(o.i) + " r" + std::to_string(o.j) + "]";
        return s;
    }
} // namespace

MC_SECTION("programs",
           "all straight-line programs of <=3 (thorough 4) operations over 3 registers (compound assignment also with itself, copies, constants, re-used results, tiny scalings) x 2 input points; every register as output in turn with adjoints reset in between, and with a seed other than one", 2) {
    static const std::vector<Op_> Q = MakeOps(false);
    std::vector<Op_> p;
    const int depth = x.thorough_ ? 4 : 3;
    const int pt = x.Choose(2, "inputs");
    static const double IN[2][3] = {{2.0, 0.5, -1.5}, {1.25, 3.0, 0.7}};
    s_tape->Rewind();
    Number_ in[3], r[3];
    Dual_ d[3];
    for (int i = 0; i < 3; ++i) {
        in[i] = IN[pt][i];
        r[i] = in[i];
        d[i] = Dual_(IN[pt][i]);
        Input(d[i], i);
    }
    for (int i = 0; i < depth; ++i) {
        p.push_back(x.Pick(Q, "operation"));
        Run(p.back(), r);
        Run(p.back(), d);
        x.Step();
    }
    for (int o = 0; o < 3; ++o) {
        if (!Same(r[o].value(), d[o].v))
            x.Fail("value", "%s: register %d is %.17g, on plain doubles %.17g", Show(p).c_str(), o, r[o].value(), d[o].v);
        if (!d[o].ok)
            continue;
        s_tape->ResetAdjoints();
        const double seed = o == 1 ? -2.5 : 1.0;
        if (o == 1) {
            r[o].Adjoint() = seed;
            auto it = s_tape->End();
            --it;
            Number_::PropagateAdjoints(it, s_tape->Begin());
        } else
            r[o].PropagateToStart();
        for (int i = 0; i < 3; ++i) {
            const double g = in[i].Adjoint();
            if (!SameD(g, seed * d[o].d[i], std::fabs(seed) * d[o].m[i]))
                x.Fail("derivative", "%s: derivative of register %d to input %d is %.15g, exact %.15g (seed %g)", Show(p).c_str(), o, i, g, seed * d[o].d[i], seed);
        }
    }
}

MC_SECTION("several outputs", "multi-output mode: all programs of <=2 (thorough 3) operations, three outputs propagated together; mode switched off afterwards", 1) {
    static const std::vector<Op_> Q = MakeOps(false);
    std::vector<Op_> p;
    const int depth = x.thorough_ ? 3 : 2;
    s_tape->Rewind();
    {
        auto reset = Dal::AAD::SetNumResultsForAAD(true, 3);
        s_tape->Rewind();
        static const double IN[3] = {2.0, 0.5, -1.5};
        Number_ in[3], r[3];
        Tape_::Iterator_ itIn[3], itOut[3];
        Dual_ d[3];
        for (int i = 0; i < 3; ++i) {
            in[i] = IN[i];
            itIn[i] = s_tape->End();
            --itIn[i];
            d[i] = Dual_(IN[i]);
            Input(d[i], i);
        }
        for (int i = 0; i < 3; ++i) {
            r[i] = in[i] + 0.0;
        }
        for (int i = 0; i < depth; ++i) {
            p.push_back(x.Pick(Q, "operation"));
            Run(p.back(), r);
            Run(p.back(), d);
            x.Step();
        }
        for (int i = 0; i < 3; ++i) {
            r[i] = r[i] + 0.0; // a node of its own for each output
            itOut[i] = s_tape->End();
            --itOut[i];
            itOut[i]->Adjoint(i) = i == 2 ? 3.0 : 1.0;
        }
        Number_::PropagateAdjointsMulti(itOut[2], s_tape->Begin());
        for (int o = 0; o < 3; ++o) {
            if (!Same(r[o].value(), d[o].v))
                x.Fail("value", "multi %s: register %d is %.17g, on plain doubles %.17g", Show(p).c_str(), o, r[o].value(), d[o].v);
            if (!(d[0].ok && d[1].ok && d[2].ok)) // one sweep for all outputs
                continue;
            for (int i = 0; i < 3; ++i) {
                const double g = itIn[i]->Adjoint(o), e = d[o].d[i] * (o == 2 ? 3.0 : 1.0);
                if (!SameD(g, e, 3.0 * d[o].m[i]))
                    x.Fail("multi", "%s: derivative of output %d to input %d is %.15g, exact %.15g", Show(p).c_str(), o, i, g, e);
            }
        }
        // reset and a second propagation give the same
        s_tape->ResetAdjoints();
        itOut[0]->Adjoint(1) = 1.0;
        Number_::PropagateAdjointsMulti(itOut[2], s_tape->Begin());
        for (int i = 0; i < 3 && d[0].ok && d[1].ok && d[2].ok; ++i) {
            const double g = itIn[i]->Adjoint(1);
            if (!SameD(g, d[0].d[i], d[0].m[i]))
                x.Fail("multi-again", "%s: second propagation gives %.15g, exact %.15g", Show(p).c_str(), g, d[0].d[i]);
            if (itIn[i]->Adjoint(0) != 0.0 || itIn[i]->Adjoint(2) != 0.0)
                x.Fail("multi-reset", "%s: adjoints of the other outputs are not zero after the reset", Show(p).c_str());
        }
    }
    s_tape->Rewind();
    Number_ a(3.0);
    Number_ b = a * a;
    b.PropagateToStart();
    if (a.Adjoint() != 6.0)
        x.Fail("after-multi", "after multi-output mode a single derivative is %.15g instead of 6", a.Adjoint());
}

MC_SECTION("accumulated", "a part before the mark (all 1-operation programs) and two or three recordings after it (all pairs of 2-operation programs from 20): sum of derivatives by propagating each to the mark and then once to the start", 2) {
    static const std::vector<Op_> Q = MakeOps(false);
    const Op_ pre = x.Pick(Q, "before the mark");
    const Op_ one = x.Pick(Q, "first");
    const int n = 2 + x.Choose(2);
    s_tape->Rewind();
    Number_ in[3], base[3], dummy;
    Dual_ d[3];
    static const double IN[3] = {2.0, 0.5, 1.5};
    for (int i = 0; i < 3; ++i) {
        in[i] = IN[i];
        base[i] = in[i];
        d[i] = Dual_(IN[i]);
        Input(d[i], i);
    }
    Run(pre, base);
    Run(pre, d);
    s_tape->Mark();
    double sum = 0.0, expect = 0.0, g[3] = {0, 0, 0}, gm[3] = {0, 0, 0};
    bool ok = true;
    for (int k = 0; k < n; ++k) {
        s_tape->RewindToMark();
        Number_ r[3] = {base[0], base[1], base[2]};
        Dual_ e[3] = {d[0], d[1], d[2]};
        Run(one, r);
        Run(one, e);
        Number_ w = r[one.i] * (k + 1.0);
        Dual_ we = e[one.i] * Dual_(k + 1.0);
        w.PropagateToMark();
        sum += w.value();
        expect += we.v;
        ok = ok && we.ok;
        for (int i = 0; i < 3; ++i)
            g[i] += we.d[i], gm[i] += we.m[i];
        x.Step();
    }
    Number_::PropagateMarkToStart();
    if (ok && !Same(sum, expect))
        x.Fail("value", "accumulated: sum %.17g, expected %.17g", sum, expect);
    for (int i = 0; i < 3 && ok; ++i)
        if (!SameD(in[i].Adjoint(), g[i], gm[i]))
            x.Fail("accumulated", "[%d r%d r%d] before the mark, [%d r%d r%d] after it %d times: derivative to input %d is %.15g, expected %.15g", pre.kind, pre.i, pre.j, one.kind, one.i, one.j, n, i, in[i].Adjoint(), g[i]);
}

namespace {
    // one expression of many arguments, not split by assignments
    template <class T> T Wide(int which, const T* v) {
        switch (which) {
        case 0: return v[0] * v[1] + v[2] * v[3] - v[4] / v[5] + v[6] * v[7];
        case 1: return v[0] + v[1] + v[2] + v[3] + v[4] + v[5] + v[6] + v[7] + v[8] + v[9] + v[10] + v[11];
        case 2: return v[0] - (v[1] - (v[2] - (v[3] - (v[4] - (v[5] - (v[6] - (v[7] - (v[8] - (v[9] * v[10]))))))))) ;
        case 3: return (v[0] * v[1] + 2.0) * (v[2] * v[3] - 1.5) * (v[4] + v[5]) / (v[6] * v[6] + v[7] * v[7] + 1.0) - exp(v[8] * 0.1) * sqrt(v[9] * v[9] + 0.5);
        case 4: return max(v[0] + v[1], v[2] * v[3]) - min(v[4] - v[5], v[6] * v[7] + v[8]) + max(v[9], 0.25) * min(v[10], 7.0);
        case 5: return v[0] * v[1] * v[2] * v[3] * v[4] * v[5] * v[6] * v[7] * v[8] * v[9] * v[10] * v[11] * v[12] * v[13] * v[14] * v[15];
        case 6: return v[0] / v[1] / v[2] / v[3] / v[4] / v[5] / v[6] + v[7] / (v[8] / (v[9] / (v[10] / (v[11] / v[12]))));
        case 7: return NCDF(v[0] - v[1]) * v[2] + NPDF(v[3] * 0.5) * v[4] + log(v[5] * v[5] + 1.0) * (v[6] - v[7]) - (v[8] + v[9]) * (v[10] + v[11]) * (v[12] + v[13]) * (v[14] + v[15]);
        default: return v[0] * (v[1] + v[2] * (v[3] + v[4] * (v[5] + v[6] * (v[7] + v[8] * (v[9] + v[10] * (v[11] + v[12] * (v[13] + v[14] * v[15])))))));
        }
    }
} // namespace

MC_SECTION("wide expressions", "9 single expressions of 8..16 arguments, the arguments being the three inputs in all 9 rotations and steps, directly or through a copy each, x 27 inputs", 1) {
    const int which = x.Choose(9), a = x.Choose(3), b = x.Choose(3), copies = x.Choose(2);
    static const double V[] = {0.5, 2.0, -1.5};
    for (int q = 0; q < 27; ++q) {
        const double u[3] = {V[q % 3], V[q / 3 % 3] + 0.125, V[q / 9] - 0.0625};
        s_tape->Rewind();
        Number_ in[3];
        Dual_ d[3], dl[16];
        for (int i = 0; i < 3; ++i) {
            in[i] = u[i];
            d[i] = Dual_(u[i]);
            Input(d[i], i);
        }
        Number_ l[16];
        for (int k = 0; k < 16; ++k) {
            const int i = (k * a + b + k / 5) % 3;
            dl[k] = d[i];
            if (copies)
                l[k] = in[i] + 0.0;
            else
                l[k] = in[i];
        }
        x.Step();
        Number_ r = Wide(which, l);
        const Dual_ e = Wide(which, dl);
        if (!Same(r.value(), e.v))
            x.Fail("value", "wide expression %d: value %.17g, on plain doubles %.17g", which, r.value(), e.v);
        if (!e.ok)
            continue;
        r.PropagateToStart();
        for (int i = 0; i < 3; ++i)
            if (!SameD(in[i].Adjoint(), e.d[i], e.m[i]))
                x.Fail("derivative", "wide expression %d with arguments %d+%dk at (%g, %g, %g): derivative to input %d is %.15g, exact %.15g", which, b, a, u[0], u[1], u[2], i, in[i].Adjoint(), e.d[i]);
    }
    x.State(which * 18 + a * 6 + b * 2 + copies);
}

MC_SECTION("long programs", "every operation alternating with a bounded function, repeated 100, 2731, 5462, 10923, 30000 times (past every block of the tape), one or three outputs: value and derivatives of every register", 1) {
    static const std::vector<Op_> Q = MakeOps(false);
    static const int NS[] = {100, 2731, 5462, 10923, 30000};
    const Op_ op = x.Pick(Q, "operation");
    const int n = NS[x.Choose(5)];
    const bool multi = x.Flip();
    s_tape->Rewind();
    {
        auto reset = Dal::AAD::SetNumResultsForAAD(multi, 3);
        s_tape->Rewind();
        static const double IN[3] = {1.25, 0.75, 0.7};
        Number_ in[3], r[3];
        Tape_::Iterator_ itIn[3], itOut[3];
        Dual_ d[3];
        for (int i = 0; i < 3; ++i) {
            in[i] = IN[i];
            itIn[i] = s_tape->End();
            --itIn[i];
            d[i] = Dual_(IN[i]);
            Input(d[i], i);
        }
        for (int i = 0; i < 3; ++i)
            r[i] = in[i] + 0.0;
        for (int k = 0; k < n; ++k) {
            const int g = k % 3;
            Run(op, r);
            Run(op, d);
            r[op.i] = NCDF(r[op.i] * 0.5) * 1.9 + r[g] * 0.01;
            d[op.i] = NCDF(d[op.i] * Dual_(0.5)) * Dual_(1.9) + d[g] * Dual_(0.01);
            if (k % 100 == 0)
                x.Step();
        }
        for (int i = 0; i < 3; ++i) {
            r[i] = r[i] + 0.0;
            itOut[i] = s_tape->End();
            --itOut[i];
        }
        const bool ok = d[0].ok && d[1].ok && d[2].ok;
        auto near = [](double got, double e, double m) { return got == e || std::fabs(got - e) <= 1e-20 + 1e-9 * std::max(std::fabs(e), m); };
        if (multi && ok) {
            for (int o = 0; o < 3; ++o)
                itOut[o]->Adjoint(o) = 1.0;
            Number_::PropagateAdjointsMulti(itOut[2], s_tape->Begin());
        }
        for (int o = 0; o < 3 && ok; ++o) {
            if (!(std::fabs(r[o].value() - d[o].v) <= 1e-9 * (1 + std::fabs(d[o].v))))
                x.Fail("value", "[%d r%d r%d] %d times: register %d is %.17g, on plain doubles %.17g", op.kind, op.i, op.j, n, o, r[o].value(), d[o].v);
            if (!multi) {
                s_tape->ResetAdjoints();
                r[o].PropagateToStart();
            }
            for (int i = 0; i < 3; ++i) {
                const double g = multi ? itIn[i]->Adjoint(o) : in[i].Adjoint();
                if (!near(g, d[o].d[i], d[o].m[i]))
                    x.Fail("derivative", "[%d r%d r%d] %d times: derivative of register %d to input %d is %.15g, exact %.15g%s", op.kind, op.i, op.j, n, o, i, g, d[o].d[i], multi ? " (three outputs)" : "");
            }
        }
    }
    s_tape->Clear();
    x.State(((op.kind * 3 + op.i) * 3 + op.j) * 10 + multi * 5 + n % 5);
}
