// Controlled scheduler: serialises the real threads of the program and enumerates their interleavings.
//
// Synchronisation is intercepted by link-time interposition (pthread_*, std::future's futex, pthread_once, static-init
// guards) and, for the instrumented code (-fsanitize=thread with our own __tsan_* runtime), every atomic operation.
// One thread runs at a time; at each intercepted operation the explorer decides who runs next.  Switching away from a
// thread that could go on costs one preemption; executions with at most `preemptions` of them are enumerated completely.
// A vector-clock race detector watches all plain accesses of instrumented code (hand-offs of the scheduler are no
// happens-before edges, so it is not blinded by them).
#pragma once
#include "mc.hpp"
#include <functional>

namespace sched {
    struct Options_ {
        int preemptions = 2; // bound on switches away from a runnable thread
        int spurious = 1;    // bound on spurious condition-variable wake-ups and time-outs
        int buckets = 1;     // partition of the executions by the position of their first divergence from the default schedule
        int bucket = 0;
        bool atomicsArePoints = true;
        bool detectRaces = true;
        long spinLimit = 80;   // points a thread may run on while others could; then it yields
        long horizon = 200000; // scheduling points in one execution
    };
    struct Stats_ {
        long points = 0, switches = 0, preemptions = 0, threads = 0;
        uint64_t scheduleHash = 0;
    };
    // run body as thread 0 under the scheduler; returns when body has returned and every thread it created is finished
    Stats_ Run(mc::Ctx_& x, const Options_& opt, const std::function<void()>& body);
    int Self();          // number of the calling managed thread, -1 if none
    bool Active();
    void Yield();        // explicit scheduling point without preemption cost
    int Tick();          // number of this moment in the execution (strictly increasing)
    int WaitQuiescent(); // block until no other managed thread can go on; number of threads that are not finished
    [[noreturn]] void Fail(const std::string& key, const std::string& msg);
} // namespace sched
