// C03: a whole simulation (two or three batches) under the controlled scheduler: every assignment of batches to threads
// within the preemption bound gives the plain result, and no schedule has a data race.
#include "sched.hpp"
#include "simref.hpp"
using namespace simref;

namespace {
    const Date_ TODAY(2022, 6, 22);
    const bool s_init = [] {
        mc::g_init = [] {
            ThreadPool_::GetInstance()->Stop();
            Number_::SetTape(*new Tape_);
            Global::Dates_::SetEvaluationDate(TODAY);
        };
        mc::g_caseCpuLimit = mc::g_caseWallLimit = 300;
        return true;
    }();
    struct Setup_ {
        std::unique_ptr<ScriptProduct_> p;
        int nested = 0;
        Handle_<ModelData_> md;
        Res_ expect;
    };
    void Sim(mc::Ctx_& x, int prod, int n, int threads, bool aad, bool compiled, bool bad, const sched::Options_& o) {
        static std::map<int, Setup_> cache;
        Setup_& s = cache[((prod * 10000 + n) * 2 + aad) * 2 + compiled];
        if (!s.p) {
            s.p.reset(new ScriptProduct_(Make(Prods()[prod], TODAY)));
            s.nested = (int)s.p->PreProcess(aad && !compiled, false);
            if (compiled)
                s.p->Compile();
            s.md = Model(0);
            s.expect = aad ? PlainAAD(*s.p, s.md, n, "irn", false, compiled, s.nested, 0.01) : Plain(*s.p, s.md, n, "irn", false);
        }
        std::string err;
        auto st = sched::Run(x, o, [&] {
            auto* pool = ThreadPool_::GetInstance();
            pool->Start(threads, true);
            bool threw = false;
            try {
                const String_ rsg(bad ? "nosuch" : "irn");
                SimResults_ r = aad ? MCSimulation<Number_>(*s.p, s.md, n, rsg, false, compiled, s.nested, 0.01) : MCSimulation<double>(*s.p, s.md, n, rsg, false, compiled, s.nested, 0.01);
                if (!bad) {
                    if (!Close(r.aggregated_, s.expect.sum, s.expect.sum))
                        sched::Fail("value", "the simulated sum differs from the plain one: " + std::to_string(r.aggregated_) + " against " + std::to_string(s.expect.sum));
                    if (aad)
                        for (size_t j = 0; j < s.expect.risks.size(); ++j)
                            if (!Close(r.risks_[j], s.expect.risks[j] / n, s.expect.risks[j] / n))
                                sched::Fail("risk", "risk " + std::to_string(j) + " differs from the plain average: " + std::to_string(r.risks_[j]));
                }
            } catch (const std::exception&) {
                threw = true;
            }
            if (threw != bad)
                sched::Fail("error", bad ? "the failure of a batch was not reported" : "a simulation failed under this schedule");
            pool->Stop();
        });
        x.Step(st.points);
        x.Outcome(st.scheduleHash);
        if (x.WantSample())
            x.Sample(std::string(Prods()[prod].label) + (aad ? " risks, " : " value, ") + std::to_string(n) + " paths, pool of " + std::to_string(threads) + ": " + std::to_string(st.points) + " points");
    }
    void Cases(mc::Ctx_& x, int preemptions, const std::vector<int>& prods, int n, int threads, int nb) {
        const int k = x.Choose((int)prods.size() * 5 * nb);
        const int bucket = k % nb, mode = k / nb % 5, prod = prods[k / nb / 5];
        sched::Options_ o;
        o.preemptions = preemptions;
        o.spurious = 0;
        o.buckets = nb;
        o.bucket = bucket;
        if (mode == 4)
            Sim(x, prod, n, threads, true, false, true, o);
        else
            Sim(x, prod, n, threads, mode & 1, mode & 2, false, o);
    }
} // namespace

MC_SECTION("two-batches", "1025 paths (2 batches), pool of 2 (1 worker + caller), 2 products x value/risks x compiled/interpreted and a failing one; all interleavings with <=1 preemption", 1) { Cases(x, 1, {0, 2}, 1025, 2, 8); }
MC_SECTION("three-threads", "1025 paths (2 batches), pool of 3; all interleavings with <=1 preemption", 1) { Cases(x, 1, {0}, 1025, 3, 8); }
MC_SECTION_THOROUGH("three-batches", "2049 paths (3 batches), pool of 2; all interleavings with <=2 preemptions", 1) { Cases(x, 2, {0}, 2049, 2, 32); }
MC_SECTION_THOROUGH("two-batches-2", "1025 paths, pool of 3; all interleavings with <=2 preemptions", 1) { Cases(x, 2, {0}, 1025, 3, 32); }
