#include "sched.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <string>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace {
    const int MAXT = 16;
    typedef unsigned VC_[MAXT];
    enum Why_ { RUN, MUTEX, COND, JOIN, FUTEX, ONCE, GUARD, RWLOCK, QUIET, DONE };
    const char* WHY[] = {"runnable", "mutex", "condition variable", "join", "future", "once", "static-init guard", "rwlock", "waiting for quiescence", "finished"};

    struct Thread_ {
        int id;
        sem_t sem;
        Why_ why = RUN;
        const void* on = nullptr;
        void* on2 = nullptr; // mutex to re-acquire after a condition wait
        bool timed = false;  // may time out
        bool timedOut = false;
        bool notified = false;
        pthread_t real{};
        void* (*fn)(void*) = nullptr;
        void* arg = nullptr;
        VC_ vc;
        unsigned futexVal = 0;
        long lastRun = 0;
    };
    struct Sync_ {
        int owner = -1;
        int count = 0;
        int readers = 0;
        VC_ vc;
        Sync_() { memset(vc, 0, sizeof vc); }
    };
    struct Shadow_ { // per 8-byte granule
        int wt = -1;
        unsigned wc = 0;
        unsigned char wmask = 0;
        bool watomic = false;
        const void* wpc = nullptr;
        unsigned rc[MAXT];
        unsigned char rmask[MAXT];
        unsigned char ratomic[MAXT];
        const void* rpc = nullptr;
        Shadow_() {
            memset(rc, 0, sizeof rc);
            memset(rmask, 0, sizeof rmask);
            memset(ratomic, 0, sizeof ratomic);
        }
    };

    mc::Ctx_* g_x = nullptr;
    sched::Options_ g_opt;
    sched::Stats_ g_stats;
    bool g_active = false;
    std::vector<Thread_*> g_th;
    std::unordered_map<const void*, Sync_> g_sync;
    std::unordered_map<uintptr_t, Shadow_> g_shadow;
    std::set<const void*> g_tried; // mutexes some thread try-locks
    bool g_diverged = false;
    long g_choicePts = 0;
    int g_spuriousUsed = 0, g_preempt = 0;
    long g_runLength = 0, g_yields = 0;
    int g_tick = 0;

    thread_local Thread_* t_self = nullptr;
    thread_local int t_inside = 0; // >0: inside the scheduler, do not intercept

    struct Inside_ {
        Inside_() { ++t_inside; }
        ~Inside_() { --t_inside; }
    };

    template <class F_> F_ Real(F_& cache, const char* name) {
        if (!cache)
            cache = reinterpret_cast<F_>(dlsym(RTLD_NEXT, name));
        return cache;
    }

    bool Managed() { return t_self && g_active && t_inside == 0; }

    std::string Where(const void* pc) {
        Dl_info i;
        char b[1024];
        if (pc && dladdr(pc, &i)) {
            int st = 0;
            char* d = i.dli_sname ? abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st) : nullptr;
            snprintf(b, sizeof b, "%s+0x%lx (module offset 0x%lx)", d ? d : (i.dli_sname ? i.dli_sname : "?"), (long)((const char*)pc - (const char*)i.dli_saddr), (long)((const char*)pc - (const char*)i.dli_fbase));
            return b;
        }
        return "?";
    }

    void Join(VC_& a, const VC_& b) {
        for (int i = 0; i < MAXT; ++i)
            if (b[i] > a[i])
                a[i] = b[i];
    }
    void Acquire(const void* p) { Join(t_self->vc, g_sync[p].vc); }
    void Release(const void* p) {
        Join(g_sync[p].vc, t_self->vc);
        ++t_self->vc[t_self->id];
    }

    bool Enabled(Thread_* t) {
        switch (t->why) {
        case RUN:
            return true;
        case MUTEX:
            return g_sync[t->on].owner < 0;
        case RWLOCK: {
            Sync_& s = g_sync[t->on];
            return t->futexVal ? (s.owner < 0 && s.readers == 0) : s.owner < 0;
        }
        case COND:
            return t->notified; // the mutex is re-acquired as a separate MUTEX wait
        case JOIN:
            return static_cast<const Thread_*>(t->on)->why == DONE;
        case FUTEX:
            return *static_cast<const volatile unsigned*>(t->on) != t->futexVal;
        case ONCE:
            return *static_cast<const volatile int*>(t->on) != 1;
        case GUARD:
            return g_sync[t->on].owner < 0;
        default:
            return false;
        }
    }

    [[noreturn]] void Dead(const char* key) {
        std::string m = std::string(key) + ": no thread can make progress\n";
        for (auto t : g_th)
            m += "  thread " + std::to_string(t->id) + ": " + WHY[t->why] + "\n";
        mc::FatalViolation(key, m);
    }

    // decide who runs next; `mustSwitch`: the caller cannot go on or offers to yield
    void Switch(bool yielding) {
        Thread_* me = t_self;
        if (++g_stats.points > g_opt.horizon)
            mc::FatalViolation("livelock", "execution does not end within the horizon of " + std::to_string(g_opt.horizon) + " scheduling points");
        std::vector<Thread_*> en;
        const bool meEnabled = me->why != DONE && Enabled(me);
        bool force = yielding;
        if (meEnabled && ++g_runLength > g_opt.spinLimit) { // a thread that spins must not starve the others
            force = true;
        }
        if (meEnabled && !force)
            en.push_back(me);
        for (auto t : g_th)
            if (t != me && Enabled(t))
                en.push_back(t);
        if (meEnabled && force) {
            if (en.empty())
                en.push_back(me);
            else if (++g_yields > 10) { // fairness: in the long run whoever has waited longest goes first
                Thread_* w = en[0];
                for (auto t : en)
                    if (t->lastRun < w->lastRun)
                        w = t;
                en.assign(1, w);
            }
        }
        if (en.empty()) // nobody can go on by itself: the thread that waits for exactly this may
            for (auto t : g_th)
                if (t->why == QUIET)
                    en.push_back(t);
        const int nPlain = static_cast<int>(en.size());
        if (g_opt.spurious > g_spuriousUsed)
            for (auto t : g_th)
                if (t->why == COND && !t->notified)
                    en.push_back(t); // spurious wake-up (or time-out)
                else if (t->why == FUTEX && t->timed && !Enabled(t))
                    en.push_back(t);
        if (nPlain == 0) {
            // a timed wait always gets its time-out in the end
            Thread_* w = nullptr;
            for (auto t : g_th)
                if ((t->why == COND || t->why == FUTEX) && t->timed)
                    w = t;
            if (!w)
                Dead("deadlock");
            w->timedOut = true;
            w->notified = true;
            if (w->why == FUTEX)
                w->why = RUN;
            en.clear();
            en.push_back(w);
        }
        int n = static_cast<int>(en.size());
        const bool preemptive = meEnabled && !force;
        if (force && g_yields > 10)
            n = 1;
        if (preemptive && g_preempt >= g_opt.preemptions) {
            // only spurious wake-ups could still be chosen, and they are preemptions too
            n = 1;
        }
        int c = 0;
        if (n > 1) {
            const long pt = g_choicePts++;
            if (g_diverged || pt % g_opt.buckets == g_opt.bucket)
                c = g_x->Choose(n);
            if (c)
                g_diverged = true;
        }
        Thread_* next = en[c];
        if (c >= nPlain && nPlain > 0) {
            ++g_spuriousUsed;
            next->timedOut = next->timed;
            next->notified = true;
            if (next->why == FUTEX)
                next->why = RUN;
        }
        if (preemptive && next != me) {
            ++g_preempt;
            ++g_stats.preemptions;
        }
        if (next != me) {
            g_runLength = 0;
            next->lastRun = g_stats.points;
            ++g_stats.switches;
            g_stats.scheduleHash = mc::Mix(g_stats.scheduleHash, next->id * 1000003ULL + g_stats.points);
            if (g_x->Verbose())
                g_x->Log("point %ld: thread %d (%s) -> thread %d", g_stats.points, me->id, WHY[me->why], next->id);
            const bool finished = me->why == DONE;
            sem_post(&next->sem);
            if (!finished)
                while (sem_wait(&me->sem) != 0) {
                }
        }
    }

    void Point() { Switch(false); }

    void Block(Why_ w, const void* on) {
        t_self->why = w;
        t_self->on = on;
        Switch(false);
        t_self->why = RUN;
    }

    void LockMutex(void* m, bool recursive) {
        Sync_* s = &g_sync[m];
        if (s->owner == t_self->id) {
            if (recursive) {
                ++s->count;
                return;
            }
            mc::FatalViolation("self-deadlock", "thread " + std::to_string(t_self->id) + " locks a mutex it already holds");
        }
        while (g_sync[m].owner >= 0)
            Block(MUTEX, m);
        s = &g_sync[m];
        s->owner = t_self->id;
        s->count = 1;
        Acquire(m);
    }
    void UnlockMutex(void* m) {
        Sync_& s = g_sync[m];
        if (s.owner != t_self->id)
            mc::FatalViolation("unlock", "thread " + std::to_string(t_self->id) + " unlocks a mutex it does not hold");
        if (--s.count > 0)
            return;
        Release(m);
        g_sync[m].owner = -1;
    }

    void* Trampoline(void* p) {
        Thread_* t = static_cast<Thread_*>(p);
        t_self = t;
        {
            Inside_ in;
            while (sem_wait(&t->sem) != 0) {
            }
        }
        void* r = t->fn(t->arg);
        {
            Inside_ in;
            ++t->vc[t->id];
            t->why = DONE;
            Switch(false);
        }
        t_self = nullptr;
        return r;
    }

    // ---- race detection -------------------------------------------------------------------------------------
    void Race(const char* what, const void* addr, const void* pc, const void* other, int t1, int t2) {
        char b[128];
        snprintf(b, sizeof b, "data race (%s) on %p between thread %d and thread %d", what, addr, t1, t2);
        ++t_inside;
        mc::FatalViolation("data-race", std::string(b) + "\n  " + Where(pc) + "\n  " + Where(other));
    }
    void Access(const void* addr, size_t n, bool write, bool atomic, const void* pc) {
        if (!g_opt.detectRaces)
            return;
        const uintptr_t a = reinterpret_cast<uintptr_t>(addr);
        const int me = t_self->id;
        for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
            const uintptr_t lo = std::max(a, g << 3), hi = std::min(a + n, (g + 1) << 3);
            const unsigned char mask = static_cast<unsigned char>(((1u << (hi - lo)) - 1) << (lo & 7));
            Shadow_& s = g_shadow[g];
            if (s.wt >= 0 && s.wt != me && (s.wmask & mask) && s.wc > t_self->vc[s.wt] && !(atomic && s.watomic))
                Race(write ? "write after write" : "read after write", addr, pc, s.wpc, me, s.wt);
            if (write) {
                for (int t = 0; t < static_cast<int>(g_th.size()); ++t)
                    if (t != me && (s.rmask[t] & mask) && s.rc[t] > t_self->vc[t] && !(atomic && s.ratomic[t]))
                        Race("write after read", addr, pc, s.rpc, me, t);
                if (s.wt == me && s.wc == t_self->vc[me] && s.watomic == atomic)
                    s.wmask |= mask;
                else
                    s.wmask = mask;
                s.wt = me;
                s.wc = t_self->vc[me];
                s.watomic = atomic;
                s.wpc = pc;
            } else {
                if (s.rc[me] == t_self->vc[me] && s.ratomic[me] == atomic)
                    s.rmask[me] |= mask;
                else
                    s.rmask[me] = mask;
                s.rc[me] = t_self->vc[me];
                s.ratomic[me] = atomic;
                s.rpc = pc;
            }
        }
    }
    void Forget(void* p) {
        const size_t n = malloc_usable_size(p);
        const uintptr_t a = reinterpret_cast<uintptr_t>(p);
        if (n > (1 << 20))
            return;
        for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
            g_shadow.erase(g);
        if (!g_sync.empty())
            for (auto q = g_sync.begin(); q != g_sync.end();) {
                const uintptr_t k = reinterpret_cast<uintptr_t>(q->first);
                if (k >= a && k < a + n && q->second.owner < 0)
                    q = g_sync.erase(q);
                else
                    ++q;
            }
    }
    void Fresh(void* p, size_t n) { // memory just obtained from the allocator carries no history
        const uintptr_t a = reinterpret_cast<uintptr_t>(p);
        if (n && n <= (1 << 20))
            for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
                g_shadow.erase(g);
    }
    bool IsAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
    bool IsRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
} // namespace

namespace sched {
    int Self() { return t_self ? t_self->id : -1; }
    bool Active() { return g_active; }
    void Yield() {
        if (Managed()) {
            Inside_ in;
            Switch(true);
        }
    }
    int Tick() { return ++g_tick; }
    int WaitQuiescent() {
        Inside_ in;
        Block(QUIET, nullptr);
        int n = 0;
        for (auto t : g_th)
            if (t != t_self && t->why != DONE)
                ++n;
        return n;
    }
    void Fail(const std::string& key, const std::string& msg) {
        Inside_ in;
        mc::FatalViolation(key, msg);
    }

    Stats_ Run(mc::Ctx_& x, const Options_& opt, const std::function<void()>& body) {
        ++t_inside;
        g_x = &x;
        g_opt = opt;
        g_stats = Stats_();
        g_sync.clear();
        g_tried.clear();
        g_shadow.clear();
        g_diverged = false;
        g_choicePts = 0;
        g_spuriousUsed = g_preempt = 0;
        g_runLength = g_yields = 0;
        g_tick = 0;
        for (auto t : g_th)
            delete t;
        g_th.clear();
        Thread_* t = new Thread_;
        t->id = 0;
        sem_init(&t->sem, 0, 0);
        memset(t->vc, 0, sizeof t->vc);
        t->vc[0] = 1;
        g_th.push_back(t);
        t_self = t;
        g_active = true;
        --t_inside;
        body();
        ++t_inside;
        for (size_t i = 1; i < g_th.size(); ++i)
            if (g_th[i]->why != DONE)
                mc::FatalViolation("thread-left", "thread " + std::to_string(i) + " is still running at the end of the scenario (" + WHY[g_th[i]->why] + ")");
        g_active = false;
        t_self = nullptr;
        g_stats.threads = static_cast<long>(g_th.size());
        --t_inside;
        x.Step(g_stats.points);
        x.State(mc::Mix(g_stats.scheduleHash, 77));
        return g_stats;
    }
} // namespace sched

// ---- interposed functions ------------------------------------------------------------------------------------
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = nullptr;
    Real(real, "pthread_create");
    if (!Managed())
        return real(th, at, fn, arg);
    Inside_ in;
    if (g_th.size() >= MAXT)
        return EAGAIN;
    Thread_* t = new Thread_;
    t->id = static_cast<int>(g_th.size());
    sem_init(&t->sem, 0, 0);
    t->fn = fn;
    t->arg = arg;
    memcpy(t->vc, t_self->vc, sizeof(VC_));
    t->vc[t->id] = 1;
    ++t_self->vc[t_self->id];
    g_th.push_back(t);
    const int rc = real(&t->real, at, Trampoline, t);
    *th = t->real; // no point here: the creator's next operation is one
    return rc;
}
int pthread_join(pthread_t th, void** ret) {
    static int (*real)(pthread_t, void**) = nullptr;
    Real(real, "pthread_join");
    if (Managed()) {
        Inside_ in;
        for (auto t : g_th)
            if (t->id && t->real == th) {
                if (t->why != DONE)
                    Block(JOIN, t);
                else
                    Point();
                Join(t_self->vc, t->vc);
                const int rc = real(th, ret);
                t->real = 0;
                return rc;
            }
    }
    return real(th, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_mutex_lock")(m);
    Inside_ in;
    Point();
    LockMutex(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_mutex_trylock")(m);
    Inside_ in;
    g_tried.insert(m);
    Point();
    if (g_sync[m].owner >= 0 && !(g_sync[m].owner == t_self->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP))
        return EBUSY;
    LockMutex(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_mutex_unlock")(m);
    Inside_ in;
    // Releasing commutes with everything but a try-lock (a left mover), so the point of the next operation is enough
    if (g_tried.count(m))
        Point();
    UnlockMutex(m);
    return 0;
}
static void RwLock(pthread_rwlock_t* l, bool write) {
    Point();
    for (;;) {
        Sync_& s = g_sync[l];
        if (write ? (s.owner < 0 && s.readers == 0) : s.owner < 0)
            break;
        t_self->futexVal = write;
        Block(RWLOCK, l);
    }
    Sync_& s = g_sync[l];
    if (write)
        s.owner = t_self->id;
    else
        ++s.readers;
    Acquire(l);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    static int (*real)(pthread_rwlock_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_rwlock_rdlock")(l);
    Inside_ in;
    RwLock(l, false);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    static int (*real)(pthread_rwlock_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_rwlock_wrlock")(l);
    Inside_ in;
    RwLock(l, true);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    static int (*real)(pthread_rwlock_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_rwlock_unlock")(l);
    Inside_ in;
    Release(l);
    Sync_& s = g_sync[l];
    if (s.owner == t_self->id)
        s.owner = -1;
    else
        --s.readers;
    return 0;
}
static int CondWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    Point(); // a notification may come between the test of the condition and the wait
    t_self->notified = false;
    t_self->timed = timed;
    t_self->timedOut = false;
    UnlockMutex(m);
    Block(COND, c);
    t_self->timed = false;
    LockMutex(m, false);
    return t_self->timedOut ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static int (*real)(pthread_cond_t*, pthread_mutex_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_cond_wait")(c, m);
    Inside_ in;
    return CondWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    static int (*real)(pthread_cond_t*, pthread_mutex_t*, const timespec*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_cond_timedwait")(c, m, ts);
    Inside_ in;
    return CondWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) {
    static int (*real)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_cond_clockwait")(c, m, k, ts);
    Inside_ in;
    return CondWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c) {
    static int (*real)(pthread_cond_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_cond_signal")(c);
    Inside_ in;
    Point();
    std::vector<Thread_*> w;
    for (auto t : g_th)
        if (t->why == COND && t->on == c && !t->notified)
            w.push_back(t);
    if (!w.empty()) {
        int k = 0;
        if (w.size() > 1) { // which waiter is woken is the environment's choice
            const long pt = g_choicePts++;
            if (g_diverged || pt % g_opt.buckets == g_opt.bucket)
                k = g_x->Choose(static_cast<int>(w.size()));
            if (k)
                g_diverged = true;
        }
        w[k]->notified = true;
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    static int (*real)(pthread_cond_t*) = nullptr;
    if (!Managed())
        return Real(real, "pthread_cond_broadcast")(c);
    Inside_ in;
    Point();
    for (auto t : g_th)
        if (t->why == COND && t->on == c)
            t->notified = true;
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    static int (*real)(pthread_once_t*, void (*)(void)) = nullptr;
    if (!Managed())
        return Real(real, "pthread_once")(o, fn);
    {
        Inside_ in;
        Point();
        while (*o == 1)
            Block(ONCE, o);
        if (*o == 2) {
            Acquire(o);
            return 0;
        }
        *o = 1;
    }
    try {
        fn();
    } catch (...) {
        *o = 0;
        throw;
    }
    Inside_ in;
    Release(o);
    *o = 2;
    return 0;
}
int sched_yield(void) {
    if (Managed()) {
        Inside_ in;
        Switch(true);
    }
    return 0;
}
int nanosleep(const timespec* a, timespec* b) {
    static int (*real)(const timespec*, timespec*) = nullptr;
    if (!Managed())
        return Real(real, "nanosleep")(a, b);
    Inside_ in;
    Switch(true);
    return 0;
}
int clock_nanosleep(clockid_t k, int f, const timespec* a, timespec* b) {
    static int (*real)(clockid_t, int, const timespec*, timespec*) = nullptr;
    if (!Managed())
        return Real(real, "clock_nanosleep")(k, f, a, b);
    Inside_ in;
    Switch(true);
    return 0;
}
// static-initialisation guards
int __cxa_guard_acquire(long long* g) {
    if (*reinterpret_cast<char*>(g)) {
        if (Managed()) {
            Inside_ in;
            Acquire(g);
        }
        return 0;
    }
    if (!Managed()) {
        static int (*real)(long long*) = nullptr;
        return Real(real, "__cxa_guard_acquire")(g);
    }
    Inside_ in;
    Point();
    while (g_sync[g].owner >= 0)
        Block(GUARD, g);
    if (*reinterpret_cast<char*>(g)) {
        Acquire(g);
        return 0;
    }
    g_sync[g].owner = t_self->id;
    return 1;
}
void __cxa_guard_release(long long* g) {
    if (!Managed()) {
        static void (*real)(long long*) = nullptr;
        Real(real, "__cxa_guard_release")(g);
        return;
    }
    Inside_ in;
    *reinterpret_cast<char*>(g) = 1;
    Release(g);
    g_sync[g].owner = -1;
}
void __cxa_guard_abort(long long* g) {
    if (!Managed()) {
        static void (*real)(long long*) = nullptr;
        Real(real, "__cxa_guard_abort")(g);
        return;
    }
    Inside_ in;
    g_sync[g].owner = -1;
    Point();
}
} // extern "C"

// std::future's futex
#include <atomic>
#include <bits/atomic_futex.h>
#include <thread>
namespace std {
    static bool VfFutexWait(unsigned* addr, unsigned val, bool timed) {
        Inside_ in;
        if (*addr != val)
            return true;
        t_self->futexVal = val;
        t_self->timed = timed;
        t_self->timedOut = false;
        Block(FUTEX, addr);
        t_self->timed = false;
        return !t_self->timedOut;
    }
    bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool timed, chrono::seconds s, chrono::nanoseconds n) {
        if (Managed())
            return VfFutexWait(addr, val, timed);
        typedef bool (*F_)(__atomic_futex_unsigned_base*, unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
        static F_ real = nullptr;
        return Real(real, "_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE")(this, addr, val, timed, s, n);
    }
    bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool timed, chrono::seconds s, chrono::nanoseconds n) {
        if (Managed())
            return VfFutexWait(addr, val, timed);
        typedef bool (*F_)(__atomic_futex_unsigned_base*, unsigned*, unsigned, bool, chrono::seconds, chrono::nanoseconds);
        static F_ real = nullptr;
        return Real(real, "_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE")(this, addr, val, timed, s, n);
    }
    void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
        if (Managed()) {
            return; // waiters are re-evaluated from the value itself
        }
        typedef void (*F_)(unsigned*);
        static F_ real = nullptr;
        Real(real, "_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj")(addr);
    }
    // a fixed machine: what the library derives from it must not depend on where the check runs
    unsigned thread::hardware_concurrency() noexcept { return 4; }
} // namespace std

// memory released and reused must not look like a race
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    if (Managed()) {
        Inside_ in;
        Fresh(p, n);
    }
    return p;
}
extern "C" void* __cxa_allocate_exception(size_t n) noexcept {
    static void* (*real)(size_t) = nullptr;
    void* p = Real(real, "__cxa_allocate_exception")(n);
    if (Managed()) {
        Inside_ in;
        Fresh(p, n);
    }
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept {
    if (p && Managed()) {
        Inside_ in;
        // freeing is a write to the whole block
        if (g_opt.detectRaces) {
            const size_t n = malloc_usable_size(p);
            if (n <= 4096)
                Access(p, n, true, false, __builtin_return_address(0));
        }
        Forget(p);
    }
    free(p);
}
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ---- our own runtime for -fsanitize=thread instrumentation -------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) {
    if (Managed()) {
        Inside_ in;
        Access(p, 8, true, false, __builtin_return_address(0));
    }
}
void __tsan_vptr_read(void** p) {
    if (Managed()) {
        Inside_ in;
        Access(p, 8, false, false, __builtin_return_address(0));
    }
}
#define RW(N)                                                                                                                                                                      \
    void __tsan_read##N(void* p) {                                                                                                                                                 \
        if (Managed()) {                                                                                                                                                           \
            Inside_ in;                                                                                                                                                            \
            Access(p, N, false, false, __builtin_return_address(0));                                                                                                               \
        }                                                                                                                                                                          \
    }                                                                                                                                                                              \
    void __tsan_write##N(void* p) {                                                                                                                                                \
        if (Managed()) {                                                                                                                                                           \
            Inside_ in;                                                                                                                                                            \
            Access(p, N, true, false, __builtin_return_address(0));                                                                                                                \
        }                                                                                                                                                                          \
    }                                                                                                                                                                              \
    void __tsan_unaligned_read##N(void* p) { __tsan_read##N(p); }                                                                                                                  \
    void __tsan_unaligned_write##N(void* p) { __tsan_write##N(p); }                                                                                                                \
    void __tsan_volatile_read##N(void* p) { __tsan_read##N(p); }                                                                                                                   \
    void __tsan_volatile_write##N(void* p) { __tsan_write##N(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) {
    if (n && Managed()) {
        Inside_ in;
        Access(p, n, false, false, __builtin_return_address(0));
    }
}
void __tsan_write_range(void* p, size_t n) {
    if (n && Managed()) {
        Inside_ in;
        Access(p, n, true, false, __builtin_return_address(0));
    }
}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
} // extern "C"

namespace {
    struct Atomic_ {
        bool on_;
        volatile void* p_;
        Atomic_(volatile void* p, size_t n, int mo, bool read, bool write, const void* pc) : on_(Managed()), p_(p) {
            if (!on_)
                return;
            ++t_inside;
            if (g_opt.atomicsArePoints)
                Point();
            Access(const_cast<const void*>(p), n, write, true, pc);
            if (read && IsAcq(mo))
                Acquire(const_cast<const void*>(p));
            if (write && IsRel(mo))
                Release(const_cast<const void*>(p));
        }
        ~Atomic_() {
            if (on_)
                --t_inside;
        }
    };
} // namespace

typedef unsigned char u8;
typedef unsigned short u16;
typedef unsigned int u32;
typedef unsigned long long u64;
#define PC __builtin_return_address(0)
#define ATOMIC(B, T)                                                                                                                                                               \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                                                                                                       \
        Atomic_ g(const_cast<volatile T*>(a), sizeof(T), mo, true, false, PC);                                                                                                     \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                                                                               \
    }                                                                                                                                                                              \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                                                                                                    \
        Atomic_ g(a, sizeof(T), mo, false, true, PC);                                                                                                                              \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                                                                                  \
    }                                                                                                                                                                              \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                                                                                                    \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                                                                        \
    }                                                                                                                                                                              \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {                                                                                                                   \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                                                                         \
    }                                                                                                                                                                              \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {                                                                                                                   \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                                                                         \
    }                                                                                                                                                                              \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {                                                                                                                   \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                                                                         \
    }                                                                                                                                                                              \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {                                                                                                                    \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                                                                          \
    }                                                                                                                                                                              \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {                                                                                                                   \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                                                                         \
    }                                                                                                                                                                              \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                                                                                   \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                                    \
    }                                                                                                                                                                              \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                                                                                     \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                                    \
    }                                                                                                                                                                              \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                                                                                          \
        Atomic_ g(a, sizeof(T), mo, true, true, PC);                                                                                                                               \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                                          \
        return c;                                                                                                                                                                  \
    }
extern "C" {
ATOMIC(8, u8)
ATOMIC(16, u16)
ATOMIC(32, u32)
ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int) {
    if (Managed()) {
        Inside_ in;
        Point();
    }
}
void __tsan_atomic_signal_fence(int) {}
}
