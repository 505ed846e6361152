// C30 under concurrency: notes of one thread never show in errors of another, in every interleaving within the preemption bound.
#include "mc.hpp"
#include "sched.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/string/strings.hpp>
#include <dal/utilities/exceptions.hpp>
#include <thread>
using namespace Dal;
namespace {
    void Check(const char* mine, const char* other, int want) {
        std::string what;
        try {
            THROW("boom");
        } catch (const Exception_& e) {
            what = e.what();
        }
        int n = 0;
        for (size_t p = what.find(mine); p != std::string::npos; p = what.find(mine, p + 1))
            ++n;
        if (n != want || what.find(other) != std::string::npos)
            sched::Fail("notes", std::string("a thread with ") + std::to_string(want) + " notes raises: " + what);
    }
    void Work(int ops, const char* mine, const char* other) {
        const int value = 7;
        NOTICE2(mine, value);
        sched::Yield();
        Check(mine, other, 1);
        if (ops & 1) {
            NOTE(mine);
            sched::Yield();
            Check(mine, other, 2);
        }
        sched::Yield();
        if (ops & 2)
            try {
                const String_ text("t");
                NOTICE2(mine, text);
                sched::Yield();
                THROW("out");
            } catch (const Exception_&) {
            }
        Check(mine, other, 1);
    }
} // namespace
MC_SECTION("threads", "two threads with all 4 x 4 small nests of notes, all interleavings at every note and synchronisation, races detected", 2) {
    static const bool warm = [] { // one-time initialisations (of the C++ runtime's exception support, too) are not part of the histories
        Work(3, "[first]", "[second]");
        return true;
    }();
    (void)warm;
    const int a = x.Choose(4), b = x.Choose(4);
    sched::Options_ opt;
    opt.preemptions = x.thorough_ ? 4 : 3;
    auto st = sched::Run(x, opt, [&] {
        std::thread t([&] { Work(b, "[second]", "[first]"); });
        Work(a, "[first]", "[second]");
        t.join();
        Check("[first]", "[second]", 0);
    });
    x.State(st.scheduleHash);
}
