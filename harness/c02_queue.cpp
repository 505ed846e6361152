// C02: the concurrent queue under every interleaving (bounded preemptions) of small client programs.
// Oracle: the recorded history must have a linearization in a sequential queue with an interruption flag; when nothing
// can move any more, a pop may only be left waiting if that sequential queue is empty and not interrupted.
#include "sched.hpp"
#include <atomic>
#include <dal/concurrency/concurrentqueue.hpp>
#include <deque>
#include <memory>
#include <thread>

namespace {
    struct Tok_ { // move-only; a moved-from token is recognisable
        int v;
        std::unique_ptr<int> heap;
        Tok_(int x = -1) : v(x), heap(new int(x)) {}
        Tok_(Tok_&& o) noexcept : v(o.v), heap(std::move(o.heap)) { o.v = -2; }
        Tok_& operator=(Tok_&& o) noexcept {
            v = o.v;
            heap = std::move(o.heap);
            o.v = -2;
            return *this;
        }
    };
    enum Op_ { PUSH, POP, TRY, EMPTY, INT, RESET, CLEAR, QUIET };
    const char* NAMES[] = {"Push", "Pop", "TryPop", "Empty", "Interrupt", "ResetInterrupt", "Clear", "(quiescent)"};
    struct Ev_ {
        int thread, op, arg, res; // res: value, -1 none / false, 1 true
        int call, ret;
    };
    struct Hist_ {
        std::vector<Ev_> ev;
        int clock = 0;
    };

    struct Lin_ {
        const std::vector<Ev_>& ev;
        std::set<std::pair<uint64_t, uint64_t>> seen;
        std::deque<int> q;
        bool intr = false;
        explicit Lin_(const std::vector<Ev_>& e) : ev(e) {}
        bool Go(uint64_t done) {
            if (done == (1ULL << ev.size()) - 1)
                return true;
            uint64_t h = intr ? 1 : 2;
            for (int v : q)
                h = mc::Mix(h, v);
            if (!seen.insert({done, h}).second)
                return false;
            int minRet = 1 << 30;
            for (size_t i = 0; i < ev.size(); ++i)
                if (!(done >> i & 1))
                    minRet = std::min(minRet, ev[i].ret);
            for (size_t i = 0; i < ev.size(); ++i) {
                if (done >> i & 1 || ev[i].call > minRet)
                    continue;
                const Ev_& e = ev[i];
                auto q0 = q;
                const bool i0 = intr;
                bool ok = true;
                switch (e.op) {
                case PUSH:
                    q.push_back(e.arg);
                    break;
                case POP:
                    if (intr)
                        ok = e.res == -1;
                    else if (q.empty() || q.front() != e.res)
                        ok = false;
                    else
                        q.pop_front();
                    break;
                case TRY:
                    if (q.empty())
                        ok = e.res == -1;
                    else if (q.front() != e.res)
                        ok = false;
                    else
                        q.pop_front();
                    break;
                case EMPTY:
                    ok = e.res == (q.empty() ? 1 : 0);
                    break;
                case INT:
                    intr = true;
                    break;
                case RESET:
                    intr = false;
                    break;
                case CLEAR:
                    q.clear();
                    break;
                case QUIET:
                    ok = e.res == 0 || (q.empty() && !intr);
                    break;
                }
                if (ok && Go(done | 1ULL << i))
                    return true;
                q = q0;
                intr = i0;
            }
            return false;
        }
    };

    std::string Show(const Hist_& h) {
        std::string s;
        for (auto& e : h.ev) {
            char b[128];
            snprintf(b, sizeof b, "  thread %d: %s%s%d -> %d  [%d,%d]\n", e.thread, NAMES[e.op], e.op == PUSH ? " value " : " ", e.arg, e.res, e.call, e.ret);
            s += b;
        }
        return s;
    }

    int Do(Dal::ConcurrentQueue_<Tok_>& q, int op, int arg) {
        switch (op) {
        case PUSH:
            q.Push(Tok_(arg));
            return 0;
        case POP: {
            Tok_ t;
            if (!q.Pop(t))
                return -1;
            return t.heap && *t.heap == t.v ? t.v : -3;
        }
        case TRY: {
            Tok_ t;
            if (!q.TryPop(t))
                return -1;
            return t.heap && *t.heap == t.v ? t.v : -3;
        }
        case EMPTY:
            return q.Empty();
        case INT:
            q.Interrupt();
            return 0;
        case RESET:
            q.ResetInterrupt();
            return 0;
        case CLEAR:
            q.Clear();
            return 0;
        }
        return 0;
    }

    // histories are kept outside the instrumented code's view: plain memory owned by this harness, one slot per thread
    struct Slot_ {
        std::vector<Ev_> ev;
    };

    void Scenario(mc::Ctx_& x, const std::vector<std::vector<int>>& prog, int prefill, const sched::Options_& opt) {
        Hist_ h;
        auto st = sched::Run(x, opt, [&] {
            auto q = std::make_unique<Dal::ConcurrentQueue_<Tok_>>();
            std::vector<Slot_> slots(prog.size() + 1);
            auto run = [&](int th, int op, int arg) {
                Ev_ e{th, op, arg, 0, 0, 0};
                e.call = sched::Tick();
                e.res = Do(*q, op, arg);
                e.ret = sched::Tick();
                slots[th].ev.push_back(e);
            };
            for (int i = 0; i < prefill; ++i)
                run(0, PUSH, 90 + i);
            std::vector<std::thread> th;
            for (size_t t = 0; t < prog.size(); ++t)
                th.emplace_back([&, t] {
                    int k = 0;
                    for (int op : prog[t])
                        run(static_cast<int>(t) + 1, op, 10 * static_cast<int>(t + 1) + k++);
                });
            for (int n = 1; n > 0;) { // a client may reset the interruption and wait again: interrupt until all are through
                n = sched::WaitQuiescent();
                Ev_ quiet{0, QUIET, 0, n, 0, 0};
                quiet.call = sched::Tick(); // everything called earlier and not yet returned is pending here
                quiet.ret = sched::Tick();
                slots[0].ev.push_back(quiet);
                if (n)
                    run(0, INT, 0);
                if (slots[0].ev.size() > 20)
                    sched::Fail("interrupt", "blocked poppers do not return although the queue is interrupted");
            }
            for (auto& t : th)
                t.join();
            run(0, RESET, 0);
            for (;;) {
                run(0, TRY, 0);
                if (slots[0].ev.back().res == -1)
                    break;
                if (slots[0].ev.size() > 50)
                    sched::Fail("drain", "the queue cannot be emptied");
            }
            run(0, EMPTY, 0);
            for (auto& s : slots)
                h.ev.insert(h.ev.end(), s.ev.begin(), s.ev.end());
        });
        Lin_ lin(h.ev);
        const bool ok = lin.Go(0);
        uint64_t oh = 5;
        for (auto& e : h.ev)
            oh = mc::Mix(oh, e.thread * 131 + e.op * 17 + e.res + 7);
        x.Outcome(oh);
        if (x.Verbose())
            x.Log("%s", Show(h).c_str());
        if (!ok)
            x.Fail("not-linearizable", "no sequential order of a FIFO queue explains this history\n%s", Show(h).c_str());
        if (x.WantSample())
            x.Sample("schedule with " + std::to_string(st.points) + " points, " + std::to_string(st.preemptions) + " preemptions:\n" + Show(h));
    }
} // namespace

MC_SECTION("two-clients", "2 client threads x 2 operations each from {Push,Pop,TryPop,Empty,Interrupt,ResetInterrupt,Clear}, queue initially empty or holding one element; all interleavings with <=2 preemptions (thorough 3) and <=1 spurious wake-up", 1) {
    const int p = x.Choose(7 * 7 * 7 * 7);
    const int a[4] = {p % 7, p / 7 % 7, p / 49 % 7, p / 343};
    if (p % 49 > p / 49) // the two clients are symmetric
        return;
    const int pre = x.Choose(2);
    sched::Options_ o;
    o.preemptions = x.thorough_ ? 3 : 2;
    Scenario(x, {{a[0], a[1]}, {a[2], a[3]}}, pre, o);
}

MC_SECTION("three-clients", "3 client threads x 1 operation and one of them followed by a second, operations from {Push,Pop,TryPop,Interrupt,Clear}; queue initially with 0..1 elements; all interleavings with <=2 preemptions, <=1 spurious wake-up", 1) {
    static const int OPS[] = {PUSH, POP, TRY, INT, CLEAR};
    const int p = x.Choose(625);
    const int a[4] = {OPS[p % 5], OPS[p / 5 % 5], OPS[p / 25 % 5], OPS[p / 125]};
    if (a[1] > a[2])
        return;
    const int pre = x.Choose(2);
    sched::Options_ o;
    o.preemptions = x.thorough_ ? 3 : 2;
    Scenario(x, {{a[0], a[3]}, {a[1]}, {a[2]}}, pre, o);
}

MC_SECTION("blocked-poppers", "2 threads x 1..2 pops or 3 threads x 1 pop against a producer of 1..3 (3 threads: 1..2) elements followed by nothing or Interrupt; all interleavings with <=2 preemptions (3 threads: 1; thorough one more), <=1 spurious wake-up", 1) {
    const int nb = 16;
    const int k = x.Choose(2 * 2 * 3 * 2 * nb);
    const int bucket = k % nb, fin = k / nb % 2, nPush = 1 + k / nb / 2 % 3, twice = k / nb / 6 % 2, nPop = 2 + k / nb / 12;
    std::vector<std::vector<int>> prog;
    std::vector<int> prod(nPush, PUSH);
    if (fin)
        prod.push_back(INT);
    if (nPop == 3 && (twice || nPush == 3))
        return;
    prog.push_back(prod);
    for (int i = 0; i < nPop; ++i)
        prog.push_back(std::vector<int>(1 + twice, POP));
    sched::Options_ o;
    o.preemptions = (nPop == 2 ? 2 : 1) + (x.thorough_ ? 1 : 0);
    o.buckets = nb;
    o.bucket = bucket;
    Scenario(x, prog, 0, o);
}

MC_SECTION("long-queues", "a producer of 3..12 elements against 1..2 consumers that pop or try as often, queue initially with 0, 5 or 12 elements; all interleavings with <=1 preemption (two consumers or more than 8 elements: none, thorough one more)", 1) {
    static const int NP[] = {3, 6, 8, 12}, PRE[] = {0, 5, 12};
    const int n = NP[x.Choose(4)], pre = PRE[x.Choose(3)], cons = 1 + x.Choose(2), how = x.Choose(3);
    std::vector<std::vector<int>> prog(1, std::vector<int>(n, PUSH));
    for (int c = 0; c < cons; ++c)
        prog.push_back(std::vector<int>(n / cons, how == 0 ? POP : how == 1 ? TRY : c ? TRY : POP));
    sched::Options_ o;
    o.preemptions = (cons == 1 && n <= 8) + x.thorough_;
    o.spurious = 0;
    Scenario(x, prog, pre, o);
}
