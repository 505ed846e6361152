// Bounded exhaustive explorer.
//
// A "section" is a deterministic function of a sequence of choices.  Explore() enumerates *every* choice
// sequence depth first (no sampling): each execution replays the current prefix and takes choice 0 after it,
// then the last choice that still has an alternative is advanced.  One execution = one complete behaviour of the
// real code under one environment / input / schedule; the section compares it with a reference model.
//
// Sharding: at the choose() number `shardDepth` the alternatives are dealt round-robin to the shards, so the union
// of the shards is the whole space and no execution is run twice.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {
    struct Prune_ {};
    struct Violation_ {
        std::string key_;
        std::string msg_;
    };

    inline uint64_t Mix(uint64_t h, uint64_t v) {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h ^= h >> 31;
        h *= 0xbf58476d1ce4e5b9ULL;
        h ^= h >> 29;
        return h;
    }
    inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
        const unsigned char* c = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i)
            h = (h ^ c[i]) * 1099511628211ULL;
        return h;
    }
    inline uint64_t HashStr(const std::string& s, uint64_t h = 1469598103934665603ULL) { return HashBytes(s.data(), s.size(), h); }
    inline uint64_t HashD(double d, uint64_t h) { return HashBytes(&d, sizeof(d), h); }

    class Ctx_ {
    public:
        struct Pt_ {
            int c_, n_;
        };
        std::vector<Pt_> path_;
        size_t pos_ = 0;
        bool replay_ = false;
        bool thorough_ = false;
        int shard_ = 0, nShards_ = 1, shardDepth_ = 1;
        uint64_t prefixHash_ = 0;
        // statistics
        uint64_t executions_ = 0, transitions_ = 0, checks_ = 0;
        std::unordered_set<uint64_t> states_;
        std::unordered_set<uint64_t> outcomes_;
        bool statesCapped_ = false;
        std::vector<std::string> samples_;
        std::string log_;

        int Choose(int n, const char* what = nullptr); // 0 .. n-1
        template <class T_> const T_& Pick(const std::vector<T_>& v, const char* what = nullptr) { return v[Choose(static_cast<int>(v.size()), what)]; }
        bool Flip(const char* what = nullptr) { return Choose(2, what) == 1; }

        // one operation applied to the system under test
        void Step(uint64_t n = 1) { transitions_ += n; }
        void State(uint64_t h) {
            if (states_.size() < 4000000)
                states_.insert(h);
            else
                statesCapped_ = true;
        }
        void Outcome(uint64_t h) {
            if (outcomes_.size() < 1000000)
                outcomes_.insert(h);
        }
        bool Verbose() const { return replay_; }
        void Log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
        [[noreturn]] void Fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
        // description used as a sample in the evidence
        void Sample(const std::string& s) {
            if (samples_.size() < 3)
                samples_.push_back(s);
        }
        bool WantSample() const { return samples_.size() < 3; }
    };

    using Body_ = std::function<void(Ctx_&)>;
    struct Section_ {
        std::string name_;
        Body_ body_;
        int shardDepth_ = 1;
        bool thoroughOnly_ = false;
        std::string bounds_; // human readable statement of the bound
    };
    std::vector<Section_>& Sections();
    struct Register_ {
        Register_(const char* name, const char* bounds, int shardDepth, bool thoroughOnly, Body_ body) { Sections().push_back({name, body, shardDepth, thoroughOnly, bounds}); }
    };
    // called once per process before anything else
    extern void (*g_init)();
    // limits for the hang detector of one execution
    extern double g_caseCpuLimit, g_caseWallLimit;
    // report a violation from any thread and end the process (used when the execution cannot be unwound)
    [[noreturn]] void FatalViolation(const std::string& key, const std::string& msg);
    int Main(int argc, char** argv);
} // namespace mc

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SECTION(name, bounds, shardDepth)                                                                                                                                       \
    static void MC_CAT(mc_body_, __LINE__)(mc::Ctx_ & x);                                                                                                                          \
    static mc::Register_ MC_CAT(mc_reg_, __LINE__)(name, bounds, shardDepth, false, MC_CAT(mc_body_, __LINE__));                                                                    \
    static void MC_CAT(mc_body_, __LINE__)(mc::Ctx_ & x)
#define MC_SECTION_THOROUGH(name, bounds, shardDepth)                                                                                                                              \
    static void MC_CAT(mc_body_, __LINE__)(mc::Ctx_ & x);                                                                                                                          \
    static mc::Register_ MC_CAT(mc_reg_, __LINE__)(name, bounds, shardDepth, true, MC_CAT(mc_body_, __LINE__));                                                                     \
    static void MC_CAT(mc_body_, __LINE__)(mc::Ctx_ & x)
