#include "mc.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace mc {
    void (*g_init)() = nullptr;
    double g_caseCpuLimit = 30.0, g_caseWallLimit = 120.0;

    // the choices of the execution under way, visible to the driver after a crash
    struct Shared_ {
        char section_[120];
        volatile uint32_t len_;
        volatile uint32_t status_; // 0 running, 1 finished, 2 violation, 3 hang
        int32_t choices_[4096];
    };
    static Shared_ s_dummy;
    static Shared_* s_cur = &s_dummy;
    static volatile uint64_t s_execNo = 0;
    static double s_caseStartWall = 0, s_caseStartCpu = 0;
    static volatile uint64_t s_seenExec = ~0ULL;

    static double Wall() {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }
    static double Cpu() {
        timespec t;
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
        return t.tv_sec + 1e-9 * t.tv_nsec;
    }
    static void OnTimer(int) {
        if (s_seenExec != s_execNo) {
            s_seenExec = s_execNo;
            s_caseStartWall = Wall();
            s_caseStartCpu = Cpu();
            return;
        }
        if (Wall() - s_caseStartWall > g_caseWallLimit || Cpu() - s_caseStartCpu > g_caseCpuLimit) {
            s_cur->status_ = 3;
            _exit(97);
        }
    }

    std::vector<Section_>& Sections() {
        static std::vector<Section_> s;
        return s;
    }

    int Ctx_::Choose(int n, const char* what) {
        if (n <= 0) {
            fprintf(stderr, "choose(%d) in section\n", n);
            abort();
        }
        int c;
        if (pos_ < path_.size()) {
            c = path_[pos_].c_;
            if (replay_ && path_[pos_].n_ < 0)
                path_[pos_].n_ = n;
            if (path_[pos_].n_ != n || c >= n) {
                fprintf(stderr, "DIVERGENCE at choice %zu (%s): recorded %d of %d, now %d options\n", pos_, what ? what : "", c, path_[pos_].n_, n);
                _exit(96);
            }
        } else {
            c = 0;
            if (!replay_ && nShards_ > 1 && static_cast<int>(pos_) + 1 == shardDepth_) {
                c = static_cast<int>((shard_ + nShards_ - prefixHash_ % nShards_) % nShards_);
                if (c >= n) {
                    path_.push_back({n - 1, n}); // nothing here belongs to this shard
                    ++pos_;
                    throw Prune_();
                }
            }
            path_.push_back({c, n});
        }
        prefixHash_ = Mix(prefixHash_, c);
        if (pos_ < 4096)
            s_cur->choices_[pos_] = c;
        ++pos_;
        s_cur->len_ = static_cast<uint32_t>(pos_);
        if (replay_ && what)
            Log("choose %s: %d/%d", what, c, n);
        return c;
    }

    void Ctx_::Log(const char* fmt, ...) {
        if (!replay_)
            return;
        char buf[4096];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        fprintf(stdout, "  %s\n", buf);
        fflush(stdout);
    }

    void Ctx_::Fail(const std::string& key, const char* fmt, ...) {
        char buf[8192];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Violation_{key, buf};
    }

    static std::string Esc(const std::string& s) {
        std::string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += c;
            } else if (c == '\n')
                r += "\\n";
            else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            } else
                r += c;
        }
        return r;
    }

    static std::string Choices(const Ctx_& x) {
        std::string r;
        for (size_t i = 0; i < x.pos_ && i < x.path_.size(); ++i)
            r += (i ? "," : "") + std::to_string(x.path_[i].c_);
        return r;
    }

    static Ctx_* s_ctx = nullptr;
    static const Section_* s_section = nullptr;
    static std::string s_out;
    static std::string s_doneJson; // sections already completed

    void FatalViolation(const std::string& key, const std::string& msg) {
        const std::string k = (s_section ? s_section->name_ : std::string("<init>")) + "|" + key;
        if (s_ctx && s_ctx->replay_)
            printf("REPLAY-VIOLATION key=%s\n%s\n", k.c_str(), msg.c_str());
        else if (s_out.empty())
            printf("VIOLATION-FOUND key=%s\n%s\nchoices %s\n", k.c_str(), msg.c_str(), s_ctx ? Choices(*s_ctx).c_str() : "");
        else {
            char buf[256];
            snprintf(buf, sizeof buf, "\"executions\":%llu,\"transitions\":%llu,\"states\":0,\"outcomes\":0,\"capped\":false,\"wall\":0,\"samples\":[],\"known\":[],", (unsigned long long)s_ctx->executions_, (unsigned long long)s_ctx->transitions_);
            const std::string json = s_doneJson + "{\"name\":\"" + Esc(s_section->name_) + "\",\"bounds\":\"" + Esc(s_section->bounds_) + "\"," + buf + "\"violation\":{\"key\":\"" + Esc(k) + "\",\"msg\":\"" + Esc(msg) +
                                     "\",\"choices\":\"" + Choices(*s_ctx) + "\"}}]}";
            FILE* f = fopen((s_out + ".json").c_str(), "w");
            fwrite(json.data(), 1, json.size(), f);
            fclose(f);
            s_cur->status_ = 2;
        }
        fflush(stdout);
        _exit(1);
    }

    static void WriteSet(const std::string& fn, const std::unordered_set<uint64_t>& s) {
        FILE* f = fopen(fn.c_str(), "wb");
        if (!f)
            return;
        std::vector<uint64_t> v(s.begin(), s.end());
        fwrite(v.data(), 8, v.size(), f);
        fclose(f);
    }

    static int MergeSets(int argc, char** argv) {
        std::vector<uint64_t> all;
        for (int i = 2; i < argc; ++i) {
            FILE* f = fopen(argv[i], "rb");
            if (!f)
                continue;
            uint64_t buf[4096];
            size_t n;
            while ((n = fread(buf, 8, 4096, f)) > 0)
                all.insert(all.end(), buf, buf + n);
            fclose(f);
        }
        std::sort(all.begin(), all.end());
        all.erase(std::unique(all.begin(), all.end()), all.end());
        printf("%zu\n", all.size());
        return 0;
    }

    // usage: --shard i/n --out prefix --known file --tier quick|thorough [--section s]   explore
    //        --section s --replay c,c,c --tier t                                          replay one execution
    //        --merge files...
    int Main(int argc, char** argv) {
        std::string out, known, tier = "quick", only, replay;
        bool doReplay = false;
        double deadline = 0;
        int shard = 0, nShards = 1;
        if (argc > 1 && !strcmp(argv[1], "--merge"))
            return MergeSets(argc, argv);
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--shard")
                sscanf(next().c_str(), "%d/%d", &shard, &nShards);
            else if (a == "--out")
                out = next();
            else if (a == "--known")
                known = next();
            else if (a == "--tier")
                tier = next();
            else if (a == "--deadline")
                deadline = Wall() + atof(next().c_str());
            else if (a == "--section")
                only = next();
            else if (a == "--replay") {
                doReplay = true;
                replay = next();
            } else if (a == "--list") {
                for (auto& s : Sections())
                    printf("%s\t%s\t%s\n", s.name_.c_str(), s.thoroughOnly_ ? "thorough" : "quick", s.bounds_.c_str());
                return 0;
            }
        }
        std::set<std::string> knownKeys;
        if (!known.empty()) {
            if (FILE* f = fopen(known.c_str(), "r")) {
                char line[4096];
                while (fgets(line, sizeof line, f)) {
                    std::string s = line;
                    while (!s.empty() && (s.back() == '\n' || s.back() == '\r'))
                        s.pop_back();
                    if (!s.empty())
                        knownKeys.insert(s);
                }
                fclose(f);
            }
        }
        if (!out.empty()) {
            int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Shared_)) == 0) {
                void* p = mmap(nullptr, sizeof(Shared_), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED)
                    s_cur = static_cast<Shared_*>(p);
            }
        }
        if (doReplay) {
            g_caseCpuLimit *= 2;
            g_caseWallLimit *= 2;
        }
        snprintf(s_cur->section_, sizeof s_cur->section_, "%s", "<init>");
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = OnTimer;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGALRM, &sa, nullptr);
        itimerval tv{{2, 0}, {2, 0}};
        setitimer(ITIMER_REAL, &tv, nullptr);

        if (g_init)
            g_init();

        std::string json = "{\"sections\":[";
        bool first = true, violated = false;
        int rc = 0;
        for (auto& s : Sections()) {
            if (!only.empty() && s.name_ != only)
                continue;
            if (only.empty() && s.thoroughOnly_ && tier != "thorough")
                continue;
            snprintf(s_cur->section_, sizeof s_cur->section_, "%s", s.name_.c_str());
            s_cur->len_ = 0;
            Ctx_ x;
            x.shard_ = shard;
            x.nShards_ = nShards;
            x.shardDepth_ = s.shardDepth_;
            x.thorough_ = tier == "thorough";
            if (doReplay) {
                x.replay_ = true;
                std::stringstream ss(replay);
                std::string t;
                while (std::getline(ss, t, ','))
                    if (!t.empty())
                        x.path_.push_back({atoi(t.c_str()), -1});
            }
            s_ctx = &x;
            s_section = &s;
            s_out = out;
            s_doneJson = json + (first ? "" : ",");
            const double t0 = Wall();
            bool truncated = false;
            std::map<std::string, std::pair<uint64_t, std::string>> knownSeen;
            std::string vjson;
            bool more = true;
            while (more) {
                x.pos_ = 0;
                x.prefixHash_ = 0;
                s_cur->len_ = 0;
                ++s_execNo;
                bool counted = true;
                try {
                    s.body_(x);
                } catch (const Prune_&) {
                    counted = false;
                } catch (const Violation_& v) {
                    const std::string k = s.name_ + "|" + v.key_;
                    if (knownKeys.count(k) && !doReplay) {
                        auto& e = knownSeen[k];
                        if (e.first++ == 0)
                            e.second = v.msg_;
                    } else {
                        vjson = "{\"key\":\"" + Esc(k) + "\",\"msg\":\"" + Esc(v.msg_) + "\",\"choices\":\"" + Choices(x) + "\"}";
                        violated = true;
                        if (doReplay)
                            printf("REPLAY-VIOLATION section=%s key=%s\n%s\n", s.name_.c_str(), v.key_.c_str(), v.msg_.c_str());
                    }
                } catch (const std::exception& e) {
                    vjson = "{\"key\":\"" + Esc(s.name_) + "|unexpected-exception\",\"msg\":\"" + Esc(std::string("unexpected exception: ") + e.what()) + "\",\"choices\":\"" +
                            Choices(x) + "\"}";
                    violated = true;
                    if (doReplay)
                        printf("REPLAY-VIOLATION section=%s key=unexpected-exception\n%s\n", s.name_.c_str(), e.what());
                }
                if (counted && !(static_cast<int>(x.pos_) < s.shardDepth_ && shard != 0))
                    ++x.executions_;
                if (violated)
                    break;
                if (doReplay)
                    break;
                if (x.pos_ < x.path_.size()) {
                    fprintf(stderr, "DIVERGENCE: execution of %s ended after %zu of %zu recorded choices\n", s.name_.c_str(), x.pos_, x.path_.size());
                    _exit(96);
                }
                static const bool progress = getenv("MC_PROGRESS") != nullptr;
                static double last = 0;
                if (progress && Wall() > last + 2) {
                    last = Wall();
                    fprintf(stderr, "[%s] %llu executions, at %s\n", s.name_.c_str(), (unsigned long long)x.executions_, Choices(x).c_str());
                }
                if (deadline > 0 && Wall() > deadline) { // stop in an orderly way and say so
                    truncated = true;
                    break;
                }
                // advance
                for (;;) {
                    if (x.path_.empty()) {
                        more = false;
                        break;
                    }
                    auto& p = x.path_.back();
                    const int stride = (nShards > 1 && static_cast<int>(x.path_.size()) == s.shardDepth_) ? nShards : 1;
                    if (p.c_ + stride < p.n_) {
                        p.c_ += stride;
                        break;
                    }
                    x.path_.pop_back();
                }
            }
            if (!out.empty()) {
                WriteSet(out + "." + s.name_ + ".st", x.states_);
                WriteSet(out + "." + s.name_ + ".oc", x.outcomes_);
            }
            char buf[512];
            snprintf(buf, sizeof buf, "\"executions\":%llu,\"transitions\":%llu,\"states\":%zu,\"outcomes\":%zu,\"capped\":%s,\"truncated\":%s,\"wall\":%.3f", (unsigned long long)x.executions_,
                     (unsigned long long)x.transitions_, x.states_.size(), x.outcomes_.size(), x.statesCapped_ ? "true" : "false", truncated ? "true" : "false", Wall() - t0);
            json += std::string(first ? "" : ",") + "{\"name\":\"" + Esc(s.name_) + "\",\"bounds\":\"" + Esc(s.bounds_) + "\"," + buf + ",\"samples\":[";
            first = false;
            for (size_t i = 0; i < x.samples_.size(); ++i)
                json += (i ? ",\"" : "\"") + Esc(x.samples_[i]) + "\"";
            json += "],\"known\":[";
            bool f2 = true;
            for (auto& k : knownSeen) {
                json += std::string(f2 ? "" : ",") + "{\"key\":\"" + Esc(k.first) + "\",\"count\":" + std::to_string(k.second.first) + ",\"msg\":\"" + Esc(k.second.second) + "\"}";
                f2 = false;
            }
            json += "],\"violation\":" + (vjson.empty() ? std::string("null") : vjson) + "}";
            if (violated) {
                rc = 1;
                break;
            }
        }
        json += "]}";
        if (!out.empty()) {
            FILE* f = fopen((out + ".json").c_str(), "w");
            fwrite(json.data(), 1, json.size(), f);
            fclose(f);
            s_cur->status_ = violated ? 2 : 1;
        } else if (!doReplay)
            printf("%s\n", json.c_str());
        fflush(stdout);
        _exit(rc); // skip static destructors of the library under test
    }
} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::Main(argc, argv); }
#endif
