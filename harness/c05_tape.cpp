// C05: block lists and tapes through every history of bounded length, with recordings placed on block boundaries.
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/aad/blocklist.hpp>
#include "mc.hpp"
#include <memory>
using namespace Dal::AAD;

namespace {
    struct Entry_ {
        double* p;
        double v;
    };
    template <size_t B> void ListHistory(mc::Ctx_& x, int depth, bool multi) {
        BlockList_<double, B> l;
        using It_ = typename BlockList_<double, B>::Iterator_;
        std::vector<Entry_> m;      // the model: what is in the list, in order
        size_t mark = 0;
        bool markOk = true;
        It_ saved;
        size_t savedAt = 0;
        bool savedOk = false;
        double next = 1.0;
        std::string h;
        for (int i = 0; i < depth; ++i) {
            const int op = x.Choose(multi ? 8 : 7, "operation");
            if (op == 0) {
                double* p = l.EmplaceBack(next);
                m.push_back({p, next});
                next += 1.0;
                h += "p";
            } else if (op == 1) {
                double* p = l.EmplaceBack();
                *p = next;
                m.push_back({p, next});
                next += 1.0;
                h += "e";
            } else if (op == 2) {
                l.SetMark();
                mark = m.size();
                markOk = true;
                h += "M";
            } else if (op == 3) {
                if (!markOk || mark > m.size())
                    throw mc::Prune_();
                l.RewindToMark();
                m.resize(mark);
                h += "r";
                if (savedAt > m.size())
                    savedOk = false;
            } else if (op == 4) {
                l.Rewind();
                m.clear();
                if (mark > 0)
                    markOk = false;
                if (savedAt > 0)
                    savedOk = false;
                h += "R";
            } else if (op == 5) {
                l.Clear();
                m.clear();
                mark = 0;
                markOk = true;
                savedOk = false;
                h += "C";
            } else if (op == 6) {
                if (savedOk && savedAt <= m.size()) {
                    l.RewindTo(saved);
                    m.resize(savedAt);
                    if (mark > m.size())
                        markOk = false;
                    savedOk = false;
                    h += "t";
                } else {
                    saved = l.GetPosition();
                    savedAt = m.size();
                    savedOk = true;
                    h += "g";
                }
            } else {
                const int n = 1 + x.Choose(static_cast<int>(B));
                double* p = n == 2 ? l.template EmplaceBackMulti<2>() : l.EmplaceBackMulti(n);
                for (int k = 0; k < n; ++k) {
                    p[k] = next;
                    m.push_back({p + k, next});
                    next += 1.0;
                }
                h += "m" + std::to_string(n);
            }
            x.Step();
            // contents are where they were put
            for (size_t k = 0; k < m.size(); ++k)
                if (*m[k].p != m[k].v)
                    x.Fail("overwritten", "block size %d, history %s: entry %d is %g, it was recorded as %g", (int)B, h.c_str(), (int)k, *m[k].p, m[k].v);
            if (multi)
                continue;
            // iteration forward, backward, const, search, size
            size_t k = 0;
            for (auto it = l.Begin(); it != l.End(); ++it, ++k)
                if (k >= m.size() || &*it != m[k].p)
                    x.Fail("iteration", "block size %d, history %s: iteration shows %s at place %d of %d", (int)B, h.c_str(), k >= m.size() ? "an extra entry" : "another entry", (int)k, (int)m.size());
            if (k != m.size())
                x.Fail("iteration", "block size %d, history %s: iteration visits %d of %d entries", (int)B, h.c_str(), (int)k, (int)m.size());
            auto it = l.End();
            for (k = m.size(); k-- > 0;) {
                --it;
                if (&*it != m[k].p)
                    x.Fail("iteration-back", "block size %d, history %s: backward iteration shows another entry at place %d", (int)B, h.c_str(), (int)k);
                if (!(l.Find(m[k].p) == it))
                    x.Fail("find", "block size %d, history %s: entry %d is not found", (int)B, h.c_str(), (int)k);
            }
            if (!(it == l.Begin()))
                x.Fail("iteration-back", "block size %d, history %s: backward iteration does not end at the beginning", (int)B, h.c_str());
            const auto& cl = l;
            if (cl.Size() != static_cast<int>(m.size()))
                x.Fail("size", "block size %d, history %s: size is %d, %d entries recorded", (int)B, h.c_str(), cl.Size(), (int)m.size());
            if (markOk && mark <= m.size()) {
                auto b = l.Begin();
                for (size_t q = 0; q < mark; ++q)
                    ++b;
                if (!(b == l.Mark()))
                    x.Fail("mark", "block size %d, history %s: the mark is not after entry %d", (int)B, h.c_str(), (int)mark);
            }
            x.State(mc::HashStr(std::to_string(m.size()) + "," + std::to_string(mark) + (markOk ? "k" : "n"), B));
        }
        if (x.WantSample())
            x.Sample("block size " + std::to_string(B) + ", history " + h);
    }
} // namespace

MC_SECTION("lists", "block lists of block size 1..3: every history of 7 (thorough 9) operations from push, emplace, mark, rewind to mark, rewind, clear, save/rewind to position; iteration both ways, search, size and contents after every step", 2) {
    const int b = x.Choose(3);
    const int d = x.thorough_ ? 9 : 7;
    if (b == 0)
        ListHistory<1>(x, d, false);
    else if (b == 1)
        ListHistory<2>(x, d, false);
    else
        ListHistory<3>(x, d, false);
}
MC_SECTION("chunks", "block lists of block size 2..5 with chunks of every size up to the block: every history of 5 (thorough 6) operations; contents after every step", 2) {
    const int b = x.Choose(3);
    const int d = x.thorough_ ? 6 : 5;
    if (b == 0)
        ListHistory<2>(x, d, true);
    else if (b == 1)
        ListHistory<3>(x, d, true);
    else
        ListHistory<5>(x, d, true);
}

namespace {
    // a live number with its exact derivatives to the inputs that are live
    struct Num_ {
        Number_ n;
        std::map<int, double> d; // input id -> derivative
        double v;
        size_t at; // place on the tape
    };
    void TapeHistory(mc::Ctx_& x, bool multi, size_t fill, int depth) {
        static Tape_* tape = new Tape_;
        static int used = 0;
        if (++used % 64 == 0)
            tape->Clear();
        Tape_* old = Number_::Tape();
        Number_::SetTape(*tape);
        {
            std::unique_ptr<NumResultsResetterForAAD_> reset;
            if (multi)
                reset = SetNumResultsForAAD(true, 3);
            tape->Rewind();
            tape->Mark();
            std::vector<Num_> live;
            std::map<int, size_t> inputs; // input id -> index in live
            int nextInput = 0;
            size_t count = 0, mark = 0;
            std::string h;
            auto addInput = [&](double v) {
                Num_ q;
                q.n = Number_(v);
                q.v = v;
                q.d[nextInput] = 1.0;
                q.at = count++;
                inputs[nextInput++] = live.size();
                live.push_back(q);
            };
            auto addOp = [&](size_t i, size_t j) {
                Num_ q;
                const Num_ &a = live[i], &b = live[j];
                q.n = a.n * b.n + a.n;
                q.v = a.v * b.v + a.v;
                for (auto& t : a.d)
                    q.d[t.first] += t.second * (b.v + 1.0);
                for (auto& t : b.d)
                    q.d[t.first] += t.second * a.v;
                q.at = count++;
                live.push_back(q);
            };
            addInput(0.5);
            addInput(-1.5);
            // filler: a chain on the first input that the result depends on
            Number_ chain = live[0].n;
            if (fill > 2) {
                for (size_t i = 2; i < fill; ++i)
                    chain = chain + live[1].n;
                Num_ q;
                q.n = chain;
                q.d[0] = 1.0;
                q.d[1] = static_cast<double>(fill - 2);
                q.v = chain.value();
                count += fill - 2;
                q.at = count - 1;
                live.push_back(q);
            }
            auto keep = [&](size_t n) {
                while (!live.empty() && live.back().at >= n)
                    live.pop_back();
                for (auto it = inputs.begin(); it != inputs.end();)
                    it = it->second >= live.size() ? inputs.erase(it) : std::next(it);
                count = n;
            };
            bool markOk = true;
            for (int s = 0; s < depth; ++s) {
                const int op = x.Choose(8, "operation");
                switch (op) {
                case 0:
                    addInput(0.25 + 0.125 * nextInput);
                    h += "i";
                    break;
                case 1:
                    if (live.empty())
                        throw mc::Prune_();
                    addOp(live.size() - 1, 0);
                    h += "o";
                    break;
                case 2:
                    tape->Mark();
                    mark = count;
                    markOk = true;
                    h += "M";
                    break;
                case 3:
                    if (!markOk)
                        throw mc::Prune_();
                    tape->RewindToMark();
                    keep(mark);
                    h += "r";
                    break;
                case 4:
                    tape->Rewind();
                    keep(0);
                    if (mark > 0)
                        markOk = false;
                    h += "R";
                    break;
                case 5:
                    tape->ResetAdjoints();
                    h += "z";
                    break;
                case 6: // a propagation whose adjoints are reset later
                    if (live.empty())
                        throw mc::Prune_();
                    if (!multi)
                        live.back().n.PropagateToStart();
                    h += "P";
                    break;
                case 7:
                    if (h.find('C') != std::string::npos)
                        throw mc::Prune_();
                    tape->Clear();
                    keep(0);
                    mark = 0;
                    markOk = true;
                    h += "C";
                    break;
                }
                x.Step();
            }
            x.State(mc::HashStr(h, fill * 2 + multi));
            // number of nodes on the tape
            size_t n = 0;
            if (fill < 100 || x.thorough_ || h.back() == 'r') {
                for (auto it = tape->Begin(); it != tape->End(); ++it)
                    ++n;
                if (n != count)
                    x.Fail("count", "%s history %s after %d nodes: %d nodes on the tape, expected %d", multi ? "multi" : "single", h.c_str(), (int)fill, (int)n, (int)count);
            }
            if (live.empty()) {
                addInput(1.5);
                addInput(2.5);
                addOp(1, 0);
                h += "+";
            }
            // derivative of the last live number to every live input
            const Num_& y = live.back();
            if (std::fabs(y.n.value() - y.v) > 1e-12 * std::fabs(y.v))
                x.Fail("value", "history %s: value %.15g, expected %.15g", h.c_str(), y.n.value(), y.v);
            tape->ResetAdjoints();
            if (!multi) {
                Number_(y.n).PropagateToStart();
                for (auto& in : inputs) {
                    auto f = y.d.find(in.first);
                    const double e = f == y.d.end() ? 0.0 : f->second, g = live[in.second].n.Adjoint();
                    if (!(std::fabs(g - e) <= 1e-10 * std::max(1.0, std::fabs(e))))
                        x.Fail("derivative", "history %s after %d nodes: derivative to input %d is %.15g, on a fresh tape %.15g", h.c_str(), (int)fill, in.first, g, e);
                }
            } else {
                auto place = [&](size_t at) {
                    auto it = tape->End();
                    for (size_t k = count; k > at; --k)
                        --it;
                    return it;
                };
                auto it = place(y.at);
                it->Adjoint(1) = 1.0;
                it->Adjoint(2) = -2.0;
                Number_::PropagateAdjointsMulti(it, tape->Begin());
                for (auto& in : inputs) {
                    auto f = y.d.find(in.first);
                    const double e = f == y.d.end() ? 0.0 : f->second;
                    auto p = place(live[in.second].at);
                    const double g0 = p->Adjoint(0), g1 = p->Adjoint(1), g2 = p->Adjoint(2);
                    if (g0 != 0.0 || !(std::fabs(g1 - e) <= 1e-10 * std::max(1.0, std::fabs(e))) || !(std::fabs(g2 + 2 * e) <= 1e-10 * std::max(1.0, std::fabs(e))))
                        x.Fail("derivative-multi", "history %s after %d nodes: derivatives to input %d are (%.15g, %.15g, %.15g), on a fresh tape (0, %.15g, %.15g)", h.c_str(), (int)fill, in.first, g0, g1, g2, e, -2 * e);
                }
            }
            if (x.WantSample())
                x.Sample(std::string(multi ? "multi " : "single ") + "after " + std::to_string(fill) + " nodes: " + h);
        }
        if (old)
            Number_::SetTape(*old);
    }
} // namespace

MC_SECTION("tape", "every history of 6 (thorough 7) tape operations (input, operation, mark, rewind to mark, rewind, reset adjoints, propagate, clear), single and 3-output mode; derivatives of the result and node count at the end", 2) {
    const bool multi = x.Flip();
    TapeHistory(x, multi, 2, x.thorough_ ? 7 : 6);
}
MC_SECTION("boundaries", "every history of 3 (thorough 4) tape operations starting 3..0 nodes before and 0..1 after the node-block (16384), adjoint-block (10922 x 3) and argument-block (32768 x 2) boundaries, single and 3-output mode", 1) {
    static const std::vector<int> F = [] {
        std::vector<int> f;
        for (int b : {16384, 32768})
            for (int k = -3; k <= 1; ++k)
                f.push_back(b + k);
        for (int k = -1; k <= 1; ++k)
            f.push_back(10922 + k);
        return f;
    }();
    const int fill = x.Pick(F, "nodes");
    const bool multi = x.Flip();
    if (multi == (fill < 16000) || fill > 16000)
        TapeHistory(x, multi, fill, x.thorough_ ? 4 : 3);
}

extern "C" size_t __sanitizer_get_current_allocated_bytes();
MC_SECTION("memory", "single and 3-output mode, rewinding to the mark or to the start: 200000 recordings of 40 operations each do not make the tape grow", 1) {
    const bool multi = x.Flip(), toMark = x.Flip();
    Tape_* old = Number_::Tape();
    Tape_ tape;
    Number_::SetTape(tape);
    {
        std::unique_ptr<NumResultsResetterForAAD_> reset;
        if (multi)
            reset = SetNumResultsForAAD(true, 3);
        Number_ a(1.5);
        tape.Mark();
        size_t base = 0;
        for (int i = 0; i < 200000; ++i) {
            if (toMark)
                tape.RewindToMark();
            else {
                tape.Rewind();
                a.PutOnTape();
            }
            Number_ b = a;
            for (int k = 0; k < 40; ++k)
                b = b * a + 1.0;
            if (i == 10)
                base = __sanitizer_get_current_allocated_bytes();
        }
        x.Step(200000);
        const size_t now = __sanitizer_get_current_allocated_bytes();
        if (now > base + 100000)
            x.Fail("grows", "%s mode, rewinding %s: 200000 recordings hold %zu bytes more than 10", multi ? "multi" : "single", toMark ? "to the mark" : "to the start", now - base);
    }
    if (old)
        Number_::SetTape(*old);
}
