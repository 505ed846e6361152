// C01: the thread pool under every interleaving (bounded preemptions) of small client programs.
#include "sched.hpp"
#include <atomic>
#include <dal/concurrency/threadpool.hpp>
#include <memory>
#include <thread>
using Dal::TaskHandle_;
using Dal::ThreadPool_;

namespace {
    const bool s_init = [] {
        mc::g_init = [] { ThreadPool_::GetInstance()->Stop(); }; // the pool starts real threads when the program is loaded
        return true;
    }();

    struct Rec_ {
        int runs = 0;
        size_t num = 999;
        int thread = -1;
        bool finished = false;
        int kind = 0;
    };
    struct World_ {
        std::vector<Rec_> rec;
        int busy[8];
        int depth[8];
        std::atomic<int> tick{0};
        size_t limit = 0;   // worker numbers must stay below
        explicit World_(int n) : rec(n) {
            for (auto& b : busy)
                b = -1;
            memset(depth, 0, sizeof depth);
        }
    };
    // enter/leave bookkeeping is done while this thread is the only one that runs; it is not part of the program under test
    __attribute__((no_sanitize("thread"))) void Enter(World_& w, int i) {
        Rec_& r = w.rec[i];
        ++r.runs;
        r.num = ThreadPool_::ThreadNum();
        r.thread = sched::Self();
        if (r.runs > 1)
            sched::Fail("ran-twice", "task " + std::to_string(i) + " runs a second time");
        if (r.num >= w.limit)
            sched::Fail("worker-number", "task sees worker number " + std::to_string(r.num) + " in a pool of " + std::to_string(w.limit));
        if (w.busy[r.num] >= 0 && w.busy[r.num] != sched::Self())
            sched::Fail("worker-number-shared", "two threads run tasks at the same time with worker number " + std::to_string(r.num));
        w.busy[r.num] = sched::Self();
        ++w.depth[r.num];
    }
    __attribute__((no_sanitize("thread"))) void Leave(World_& w, int i) {
        Rec_& r = w.rec[i];
        r.finished = true;
        if (--w.depth[r.num] == 0)
            w.busy[r.num] = -1;
    }
    struct Scope_ {
        World_& w;
        int i;
        Scope_(World_& ww, int ii) : w(ww), i(ii) { Enter(w, i); }
        ~Scope_() { Leave(w, i); }
    };

    struct Boom_ {
        int i;
    };
    enum Kind_ { YES, NO, THROW, WORK, PARENT, PARENT2, KINDS };

    // PARENT spawns the task child and helps until it is done
    std::function<bool()> Make(World_& w, int i, int kind, int child = -1);
    struct Fn_ {
        World_* w;
        int i, kind, child;
        bool operator()() const {
            Scope_ s(*w, i);
            switch (kind) {
            case YES:
                return true;
            case NO:
                return false;
            case THROW:
                throw Boom_{i};
            case WORK:
                ++w->tick;
                return true;
            case PARENT: {
                auto f = ThreadPool_::GetInstance()->SpawnTask(Fn_{w, child, YES, -1});
                ThreadPool_::GetInstance()->ActiveWait(f);
                return f.get();
            }
            case PARENT2: { // two children, waited for in reverse order
                auto pool = ThreadPool_::GetInstance();
                auto f = pool->SpawnTask(Fn_{w, child, YES, -1});
                auto g = pool->SpawnTask(Fn_{w, child + 1, NO, -1});
                pool->ActiveWait(g);
                pool->ActiveWait(f);
                return f.get() && !g.get();
            }
            }
            return true;
        }
    };

    enum Got_ { G_TRUE, G_FALSE, G_BOOM, G_BROKEN, G_OTHER };
    int Get(TaskHandle_& f, int i) {
        try {
            return f.get() ? G_TRUE : G_FALSE;
        } catch (const Boom_& b) {
            return b.i == i ? G_BOOM : G_OTHER;
        } catch (const std::future_error& e) {
            return e.code() == std::future_errc::broken_promise ? G_BROKEN : G_OTHER;
        } catch (...) {
            return G_OTHER;
        }
    }
    int Expect(int kind) { return kind == NO ? G_FALSE : kind == THROW ? G_BOOM : G_TRUE; }
    const char* GN[] = {"true", "false", "its exception", "broken promise", "something else"};

    void CheckDone(World_& w, int i, int kind, int got) {
        if (got != Expect(kind))
            sched::Fail("result", "handle of task " + std::to_string(i) + " gives " + GN[got] + " instead of " + GN[Expect(kind)]);
        if (w.rec[i].runs != 1 || !w.rec[i].finished)
            sched::Fail("not-run", "task " + std::to_string(i) + " ran " + std::to_string(w.rec[i].runs) + " times when its handle is ready");
    }
    // after a stop: either it ran once completely, or never
    void CheckStopped(World_& w, int i, int kind, int got) {
        const Rec_& r = w.rec[i];
        if (r.runs == 0) {
            if (got != G_BROKEN)
                sched::Fail("dropped", "task " + std::to_string(i) + " never ran but its handle gives " + GN[got]);
        } else
            CheckDone(w, i, kind, got);
    }
    uint64_t Sum(World_& w) {
        uint64_t h = 3;
        for (auto& r : w.rec)
            h = mc::Mix(h, r.runs * 100 + r.num * 10 + r.finished);
        return h;
    }
    void CheckReady(TaskHandle_& f, int i) {
        if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready)
            sched::Fail("not-ready", "handle of task " + std::to_string(i) + " is not ready after the wait");
    }

    void Pool(size_t n) {
        ThreadPool_::GetInstance()->Start(n);
        if (ThreadPool_::GetInstance()->NumThreads() != n)
            sched::Fail("num-threads", "pool of " + std::to_string(n) + " reports " + std::to_string(ThreadPool_::GetInstance()->NumThreads()));
    }
    void End() {
        ThreadPool_::GetInstance()->Stop();
        if (ThreadPool_::GetInstance()->NumThreads() != 1)
            sched::Fail("num-threads", "stopped pool reports workers");
    }

    const char* NAMES[] = {
        "spawn 2 tasks, help-wait in order",         // 0
        "spawn 2 tasks, blocking get in order",      // 1
        "spawn 3 tasks, help-wait in reverse order", // 2
        "task that spawns and helps, plus another",  // 3
        "stop with tasks pending, restart",          // 4
        "resize with tasks pending, run more",       // 5
        "two clients spawn and help",                // 6
        "stop while another client helps",           // 7
        "start/stop idempotent",                     // 8
        "two nested parents",                        // 9
        "parent of two children, blocking caller",   // 10
    };
    const int NSC = 11;

    void Scenario(mc::Ctx_& x, int sc, int nThreads, int k1, int k2, const sched::Options_& o) {
        uint64_t h = 0;
        auto st = sched::Run(x, o, [&] {
            auto pool = ThreadPool_::GetInstance();
            World_ w(8);
            w.limit = nThreads;
            Pool(nThreads);
            auto spawn = [&](int i, int kind, int child = -1) { return pool->SpawnTask(Fn_{&w, i, kind, child}); };
            switch (sc) {
            case 0:
            case 1: {
                auto a = spawn(0, k1), b = spawn(1, k2);
                if (sc == 0) {
                    pool->ActiveWait(a);
                    CheckReady(a, 0);
                    pool->ActiveWait(b);
                    CheckReady(b, 1);
                } else if (nThreads == 1) { // nobody else would run them
                    pool->ActiveWait(a);
                    pool->ActiveWait(b);
                }
                CheckDone(w, 0, k1, Get(a, 0));
                CheckDone(w, 1, k2, Get(b, 1));
                break;
            }
            case 2: {
                auto a = spawn(0, k1), b = spawn(1, k2), c = spawn(2, WORK);
                pool->ActiveWait(c);
                pool->ActiveWait(b);
                pool->ActiveWait(a);
                CheckDone(w, 2, WORK, Get(c, 2));
                CheckDone(w, 1, k2, Get(b, 1));
                CheckDone(w, 0, k1, Get(a, 0));
                break;
            }
            case 3: {
                auto a = spawn(0, PARENT, 5), b = spawn(1, k2);
                pool->ActiveWait(a);
                pool->ActiveWait(b);
                CheckDone(w, 0, PARENT, Get(a, 0));
                CheckDone(w, 1, k2, Get(b, 1));
                if (w.rec[5].runs != 1)
                    sched::Fail("not-run", "sub-task did not run");
                break;
            }
            case 4: {
                auto a = spawn(0, k1), b = spawn(1, k2);
                pool->Stop();
                for (auto& r : w.rec)
                    if (r.runs && !r.finished)
                        sched::Fail("running", "a task is still running after Stop");
                CheckReady(a, 0);
                CheckReady(b, 1);
                CheckStopped(w, 0, k1, Get(a, 0));
                CheckStopped(w, 1, k2, Get(b, 1));
                Pool(nThreads);
                auto c = spawn(2, WORK);
                if (nThreads == 1)
                    pool->ActiveWait(c);
                CheckDone(w, 2, WORK, Get(c, 2));
                break;
            }
            case 5: {
                auto a = spawn(0, k1);
                const size_t n2 = nThreads == 2 ? 3 : 2;
                w.limit = 3;
                pool->Start(n2, true);
                if (pool->NumThreads() != n2)
                    sched::Fail("num-threads", "resized pool reports a wrong number of threads");
                CheckReady(a, 0);
                CheckStopped(w, 0, k1, Get(a, 0));
                w.limit = n2;
                auto b = spawn(1, k2), c = spawn(2, WORK);
                CheckDone(w, 1, k2, Get(b, 1));
                CheckDone(w, 2, WORK, Get(c, 2));
                break;
            }
            case 6: {
                // the second client only blocks on its handle: worker numbers are per pool thread plus one outside thread
                std::thread other([&] {
                    auto a = spawn(0, k1);
                    CheckDone(w, 0, k1, Get(a, 0));
                });
                auto b = spawn(1, k2);
                pool->ActiveWait(b);
                CheckDone(w, 1, k2, Get(b, 1));
                if (nThreads == 1)
                    while (w.tick == 0 && w.rec[0].runs == 0) {
                        auto c = spawn(2, YES);
                        pool->ActiveWait(c);
                        w.rec[2] = Rec_();
                        sched::Yield();
                    }
                other.join();
                break;
            }
            case 7: {
                auto a = spawn(0, k1), b = spawn(1, k2);
                int ga = -1, gb = -1;
                std::thread other([&] {
                    pool->ActiveWait(a);
                    CheckReady(a, 0);
                    ga = Get(a, 0);
                    pool->ActiveWait(b);
                    gb = Get(b, 1);
                });
                pool->Stop();
                other.join();
                CheckStopped(w, 0, k1, ga);
                CheckStopped(w, 1, k2, gb);
                break;
            }
            case 8: {
                pool->Start(nThreads == 2 ? 3 : 2); // already running: no change
                if (pool->NumThreads() != static_cast<size_t>(nThreads))
                    sched::Fail("num-threads", "a second start changed the pool");
                pool->Stop();
                pool->Stop();
                auto a = spawn(0, k1); // stopped pool: the waiting thread runs it
                pool->ActiveWait(a);
                CheckDone(w, 0, k1, Get(a, 0));
                auto b = spawn(1, k2);
                Pool(nThreads);
                if (nThreads == 1)
                    pool->ActiveWait(b);
                CheckDone(w, 1, k2, Get(b, 1));
                break;
            }
            case 9: {
                auto a = spawn(0, PARENT, 5), b = spawn(1, PARENT, 6);
                pool->ActiveWait(b);
                pool->ActiveWait(a);
                CheckDone(w, 0, PARENT, Get(a, 0));
                CheckDone(w, 1, PARENT, Get(b, 1));
                break;
            }
            case 10: {
                auto a = spawn(0, PARENT2, 5);
                if (nThreads == 1)
                    pool->ActiveWait(a);
                CheckDone(w, 0, PARENT2, Get(a, 0));
                if (w.rec[5].runs != 1 || w.rec[6].runs != 1)
                    sched::Fail("not-run", "a sub-task did not run");
                break;
            }
            }
            End();
            h = Sum(w);
        });
        x.Outcome(mc::Mix(h, sc * 100 + nThreads));
        if (x.WantSample())
            x.Sample(std::string(NAMES[sc]) + ", " + std::to_string(nThreads) + " threads: " + std::to_string(st.points) + " points, " + std::to_string(st.threads) + " threads, " +
                     std::to_string(st.preemptions) + " preemptions");
    }
} // namespace

namespace {
    const int KINDS8[8][2] = {{YES, THROW}, {THROW, WORK}, {WORK, NO}, {YES, YES}, {NO, WORK}, {THROW, THROW}, {WORK, WORK}, {NO, NO}};
    void Small(mc::Ctx_& x, int nk, int preemptions) {
        const int nb = 8;
        const int k = x.Choose(NSC * 2 * nk * nb);
        const int bucket = k % nb, kk = k / nb % nk, n = 1 + k / nb / nk % 2, sc = k / nb / nk / 2;
        if (sc == 6 && n == 1)
            return; // one outside thread helps, the other only blocks: needs a worker
        sched::Options_ o;
        o.preemptions = preemptions;
        o.buckets = nb;
        o.bucket = bucket;
        Scenario(x, sc, n, KINDS8[kk][0], KINDS8[kk][1], o);
    }
    void Large(mc::Ctx_& x, int nk, int preemptions) {
        const int nb = 32;
        const int k = x.Choose(NSC * nk * nb);
        const int bucket = k % nb, kk = k / nb % nk, sc = k / nb / nk;
        sched::Options_ o;
        o.preemptions = preemptions;
        o.buckets = nb;
        o.bucket = bucket;
        Scenario(x, sc, 3, KINDS8[kk][0], KINDS8[kk][1], o);
    }
} // namespace

MC_SECTION("one-worker-1", "pool of 1..2 threads (0..1 workers + caller), 11 client programs x 8 combinations of task kinds {true,false,throw,work}; all interleavings at sync and atomic operations with <=1 preemption, <=1 spurious wake-up", 1) { Small(x, 8, 1); }
MC_SECTION("two-workers-1", "pool of 3 threads (2 workers + caller), 11 client programs x 3 combinations of task kinds; all interleavings with <=1 preemption, <=1 spurious wake-up", 1) { Large(x, 3, 1); }
MC_SECTION("one-worker-2", "as one-worker-1 with 2 (thorough 8) combinations of task kinds and <=2 preemptions", 1) { Small(x, x.thorough_ ? 8 : 2, 2); }
MC_SECTION_THOROUGH("one-worker-3", "as one-worker-1 with 1 combination of task kinds and <=3 preemptions", 1) { Small(x, 1, 3); }
MC_SECTION_THOROUGH("two-workers-2", "as two-workers-1 with 1 combination of task kinds and <=2 preemptions", 1) { Large(x, 1, 2); }

MC_SECTION("many-tasks", "pool of 1..2 threads, 6 or 24 tasks of kinds by position (values, exceptions, nested parents): helped in order, in reverse, blocking gets, stop with all pending, two clients; all interleavings of 6 tasks with <=1 preemption (thorough 2), of 24 without preemption (thorough 1)", 2) {
    const int size = x.Choose(2), nThreads = 1 + x.Choose(2), way = x.Choose(5), mix = x.Choose(3), nb = 8, bucket = x.Choose(nb);
    const int n = size ? 24 : 6;
    if (way == 4 && nThreads == 1)
        throw mc::Prune_();
    sched::Options_ o;
    o.preemptions = (n == 6) + x.thorough_;
    o.spurious = 0;
    o.buckets = nb;
    o.bucket = bucket;
    uint64_t h = 0;
    sched::Run(x, o, [&] {
        auto pool = ThreadPool_::GetInstance();
        World_ w(3 * n);
        w.limit = nThreads;
        Pool(nThreads);
        auto kind = [&](int i) -> int { return mix == 0 ? i % 4 : mix == 1 ? (i % 5 == 0 ? PARENT : i % 5 == 3 ? THROW : YES) : i % 4 == 1 ? PARENT2 : WORK; };
        std::vector<TaskHandle_> f;
        auto spawn = [&](int i) { return pool->SpawnTask(Fn_{&w, i, kind(i), n + 2 * i}); };
        if (way == 4) {
            std::thread other([&] {
                std::vector<TaskHandle_> g;
                for (int i = 0; i < n / 2; ++i)
                    g.push_back(spawn(i));
                for (int i = 0; i < n / 2; ++i)
                    CheckDone(w, i, kind(i), Get(g[i], i));
            });
            for (int i = n / 2; i < n; ++i)
                f.push_back(spawn(i));
            for (int i = n / 2; i < n; ++i) {
                pool->ActiveWait(f[i - n / 2]);
                CheckDone(w, i, kind(i), Get(f[i - n / 2], i));
            }
            other.join();
        } else {
            for (int i = 0; i < n; ++i)
                f.push_back(spawn(i));
            if (way == 3)
                pool->Stop();
            for (int k = 0; k < n; ++k) {
                const int i = way == 1 ? n - 1 - k : k;
                if (way == 3) {
                    CheckReady(f[i], i);
                    CheckStopped(w, i, kind(i), Get(f[i], i));
                    continue;
                }
                if (way < 2 || nThreads == 1) {
                    pool->ActiveWait(f[i]);
                    CheckReady(f[i], i);
                }
                CheckDone(w, i, kind(i), Get(f[i], i));
            }
        }
        if (way != 3)
            for (int i = 0; i < n; ++i)
                for (int c = 0; c < (kind(i) == PARENT ? 1 : kind(i) == PARENT2 ? 2 : 0); ++c)
                    if (w.rec[n + 2 * i + c].runs != 1)
                        sched::Fail("not-run", "a sub-task did not run");
        End();
        h = Sum(w);
    });
    x.Outcome(mc::Mix(h, (size * 4 + nThreads) * 16 + way * 3 + mix));
}
