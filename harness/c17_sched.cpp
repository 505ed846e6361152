// C17 under concurrency: readers and writers of global dates and fixings in every interleaving within the preemption bound.
#include "mc.hpp"
#include "sched.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <map>
#include <thread>
using namespace Dal;
namespace {
    const Date_ D0(2020, 1, 1), D1(2021, 2, 2), D2(2022, 3, 3);
    const DateTime_ T0(D0, 0, 0, 0), T1(D1, 0, 0, 0);
    Date_ Dt(int i) { return i == 0 ? D0 : i == 1 ? D1 : D2; }
    int Code(const Date_& d) { return d == D0 ? 0 : d == D1 ? 1 : d == D2 ? 2 : 9; }
    // 0 read evaluation, 1 read accounting, 2/3 set evaluation D1/D2, 4 set accounting D1, 5 append (T0,1), 6 append (T1,2), 7 replace by (T0,3), 8 read fixings
    const int N_OPS = 9;
    struct State_ {
        int ev = 0, ac = 0;
        std::map<int, int> fix;
    };
    int CodeFix(const std::map<int, int>& f) {
        int r = 100;
        for (auto& p : f)
            r = r * 10 + p.first * 5 + p.second;
        return r;
    }
    FixHistory_ One(const DateTime_& t, double v) {
        FixHistory_ f;
        f.vals_.push_back(std::make_pair(t, v));
        return f;
    }
    int ReadFix() {
        std::map<int, int> f;
        for (auto& v : Global::Fixings_().History("IX").vals_)
            f[v.first == T0 ? 0 : 1] = (int)v.second;
        return CodeFix(f);
    }
    int Do(int op) {
        switch (op) {
        case 0:
            return Code(Global::Dates_::EvaluationDate());
        case 1:
            return Code(Global::Dates_::AccountingDate());
        case 2:
        case 3:
            XGLOBAL::SetEvaluationDate(Dt(op - 1));
            return -1;
        case 4:
            XGLOBAL::SetAccountingDate(D1);
            return -1;
        case 5:
            return XGLOBAL::StoreFixings("IX", One(T0, 1));
        case 6:
            return XGLOBAL::StoreFixings("IX", One(T1, 2));
        case 7:
            return XGLOBAL::StoreFixings("IX", One(T0, 3), false);
        default:
            return ReadFix();
        }
    }
    int Model(int op, State_& s) {
        switch (op) {
        case 0:
            return s.ev;
        case 1:
            return s.ac;
        case 2:
        case 3:
            s.ev = op - 1;
            return -1;
        case 4:
            s.ac = 1;
            return -1;
        case 5:
            s.fix[0] = 1;
            return (int)s.fix.size();
        case 6:
            s.fix[1] = 2;
            return (int)s.fix.size();
        case 7:
            s.fix.clear();
            s.fix[0] = 3;
            return 1;
        default:
            return CodeFix(s.fix);
        }
    }
    void Reset() {
        (void)ObjectAccess_().Erase(String_(""));
        XGLOBAL::SetEvaluationDate(D0);
        XGLOBAL::SetAccountingDate(D0);
    }
    struct Init_ {
        Init_() {
            mc::g_init = [] {
                Reset();
                for (int i = 0; i < N_OPS; ++i)
                    Do(i);
            };
        }
    } s_init;
    bool Explain(const std::vector<std::vector<int>>& p, const std::vector<std::vector<int>>& r, std::vector<size_t> at, State_ s, int fin) {
        bool done = true;
        for (size_t t = 0; t < p.size(); ++t)
            if (at[t] < p[t].size()) {
                done = false;
                State_ n = s;
                if (Model(p[t][at[t]], n) != r[t][at[t]])
                    continue;
                auto a = at;
                ++a[t];
                if (Explain(p, r, a, n, fin))
                    return true;
            }
        return done && (s.ev * 10 + s.ac) * 100000 + CodeFix(s.fix) == fin;
    }
    void Scenario(mc::Ctx_& x, const std::vector<std::vector<int>>& p, const sched::Options_& o) {
        Reset();
        std::vector<std::vector<int>> r;
        for (auto& q : p)
            r.push_back(std::vector<int>(q.size()));
        auto st = sched::Run(x, o, [&] {
            std::vector<std::thread> th;
            for (size_t t = 1; t < p.size(); ++t)
                th.emplace_back([&, t] {
                    for (size_t i = 0; i < p[t].size(); ++i)
                        r[t][i] = Do(p[t][i]);
                });
            for (size_t i = 0; i < p[0].size(); ++i)
                r[0][i] = Do(p[0][i]);
            for (auto& t : th)
                t.join();
        });
        x.Step(st.points);
        x.Outcome(st.scheduleHash);
        const int fin = (Do(0) * 10 + Do(1)) * 100000 + Do(8);
        if (!Explain(p, r, std::vector<size_t>(p.size()), State_(), fin)) {
            std::string s;
            for (size_t t = 0; t < p.size(); ++t)
                for (size_t i = 0; i < p[t].size(); ++i)
                    s += " " + std::string(1, char('A' + t)) + ":" + std::to_string(p[t][i]) + "=" + std::to_string(r[t][i]);
            x.Fail("order", "no order of the operations gives these results:%s, final %d", s.c_str(), fin);
        }
    }
} // namespace
MC_SECTION("two clients", "2 threads x 2 operations (all of 9: read or set either date, append, replace or read fixings); all interleavings with <=1 preemption (thorough 2)", 1) {
    const int k = x.Choose(N_OPS * N_OPS * N_OPS * N_OPS);
    const int a = k % N_OPS, b = k / N_OPS % N_OPS, c = k / N_OPS / N_OPS % N_OPS, d = k / N_OPS / N_OPS / N_OPS;
    if (a * N_OPS + b > c * N_OPS + d)
        return;
    sched::Options_ o;
    o.preemptions = x.thorough_ ? 2 : 1;
    Scenario(x, {{a, b}, {c, d}}, o);
}
MC_SECTION("one operation each", "2 threads x 1 operation (all of 9); all interleavings with <=3 preemptions (thorough 4)", 1) {
    const int k = x.Choose(N_OPS * N_OPS);
    if (k % N_OPS > k / N_OPS)
        return;
    sched::Options_ o;
    o.preemptions = x.thorough_ ? 4 : 3;
    Scenario(x, {{k % N_OPS}, {k / N_OPS}}, o);
}
