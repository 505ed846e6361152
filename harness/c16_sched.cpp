// C16 under concurrency: two threads using the repository; every interleaving within the preemption bound gives the result of
// some sequential order of their operations, without data race.
#include "mc.hpp"
#include "sched.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/box.hpp>
#include <dal/math/cell.hpp>
#include <set>
#include <thread>
using namespace Dal;
namespace {
    using Obj_ = Handle_<Storable_>;
    const std::vector<Obj_>& Objects() {
        static const std::vector<Obj_> o = {Obj_(new Box_("a", Matrix_<Cell_>(1, 1))), Obj_(new Box_("a", Matrix_<Cell_>(1, 1))), Obj_(new Box_("b", Matrix_<Cell_>(1, 1)))};
        return o;
    }
    const String_& Tag(int o) {
        static String_ t[3];
        return t[o];
    }
    // operations: 0..2 add object o with rule NAME, 3 add 1 with NONE, 4 add 2 with TYPE, 5 erase all, 6 erase object 0, 7 size, 8 fetch 0, 9 find all
    const int N_OPS = 10;
    int Do(int op) {
        ObjectAccess_ r;
        static const RepositoryErase_ NAME("NAME"), NONE("NONE"), TYPE("TYPE");
        auto& O = Objects();
        switch (op) {
        case 0:
        case 1:
        case 2:
            (void)r.Add(O[op], NAME);
            return -1;
        case 3:
            (void)r.Add(O[1], NONE);
            return -1;
        case 4:
            (void)r.Add(O[2], TYPE);
            return -1;
        case 5:
            return r.Erase(String_(""));
        case 6:
            return r.Erase(*O[0]);
        case 7:
            return r.Size();
        case 8:
            return r.Fetch(Tag(0), true).get() == O[0].get();
        default:
            return (int)r.Find(String_("~")).size();
        }
    }
    int Model(int op, std::set<int>& s) {
        switch (op) {
        case 0:
        case 1:
            s.erase(0);
            s.erase(1);
            s.insert(op);
            return -1;
        case 2:
            s.insert(2);
            return -1;
        case 3:
            s.insert(1);
            return -1;
        case 4:
            s = {2};
            return -1;
        case 5: {
            const int n = (int)s.size();
            s.clear();
            return n;
        }
        case 6:
            return (int)s.erase(0);
        case 8:
            return (int)s.count(0);
        default:
            return (int)s.size();
        }
    }
    struct Init_ {
        Init_() {
            mc::g_init = [] {
                for (int o = 0; o < 3; ++o)
                    const_cast<String_&>(Tag(o)) = ObjectAccess_().Add(Objects()[o], RepositoryErase_("NONE"));
                Do(5);
                Do(9);
            };
        }
    } s_init;
    // does some order of the two programs explain the results and the final content?
    bool Explain(const std::vector<int>& p, const std::vector<int>& pr, size_t i, const std::vector<int>& q, const std::vector<int>& qr, size_t j, std::set<int> s, const std::set<int>& fin) {
        if (i == p.size() && j == q.size())
            return s == fin;
        if (i < p.size()) {
            auto t = s;
            if (Model(p[i], t) == pr[i] && Explain(p, pr, i + 1, q, qr, j, t, fin))
                return true;
        }
        if (j < q.size()) {
            auto t = s;
            if (Model(q[j], t) == qr[j] && Explain(p, pr, i, q, qr, j + 1, t, fin))
                return true;
        }
        return false;
    }
    void Scenario(mc::Ctx_& x, const std::vector<int>& p, const std::vector<int>& q, int pre, const sched::Options_& o) {
        std::vector<int> pr(p.size()), qr(q.size());
        std::set<int> start, fin;
        Do(5);
        if (pre) {
            Do(0);
            Model(0, start);
        }
        auto st = sched::Run(x, o, [&] {
            std::thread t([&] {
                for (size_t i = 0; i < q.size(); ++i)
                    qr[i] = Do(q[i]);
            });
            for (size_t i = 0; i < p.size(); ++i)
                pr[i] = Do(p[i]);
            t.join();
        });
        for (int i = 0; i < 3; ++i)
            if (ObjectAccess_().Fetch(Tag(i), true).get())
                fin.insert(i);
        x.Step(st.points);
        x.Outcome(st.scheduleHash);
        if (!Explain(p, pr, 0, q, qr, 0, start, fin)) {
            std::string s;
            for (size_t i = 0; i < p.size(); ++i)
                s += " A:" + std::to_string(p[i]) + "=" + std::to_string(pr[i]);
            for (size_t i = 0; i < q.size(); ++i)
                s += " B:" + std::to_string(q[i]) + "=" + std::to_string(qr[i]);
            x.Fail("order", "no order of the operations of the two threads gives these results:%s, %zu objects left", s.c_str(), fin.size());
        }
    }
} // namespace
MC_SECTION("two clients", "2 threads x 2 operations (all of 10: additions under 3 rules, erasures, size, fetch, search), empty repository or one object; all interleavings with <=1 preemption (thorough 2)", 1) {
    const int k = x.Choose(N_OPS * N_OPS * N_OPS * N_OPS);
    const int a = k % N_OPS, b = k / N_OPS % N_OPS, c = k / N_OPS / N_OPS % N_OPS, d = k / N_OPS / N_OPS / N_OPS;
    if (a * N_OPS + b > c * N_OPS + d)
        return;
    sched::Options_ o;
    o.preemptions = x.thorough_ ? 2 : 1;
    Scenario(x, {a, b}, {c, d}, x.Choose(2), o);
}
MC_SECTION("one operation each", "2 threads x 1 operation (all of 10), empty repository or one object; all interleavings with <=3 preemptions (thorough 4)", 1) {
    const int k = x.Choose(N_OPS * N_OPS);
    if (k % N_OPS > k / N_OPS)
        return;
    sched::Options_ o;
    o.preemptions = x.thorough_ ? 4 : 3;
    Scenario(x, {k % N_OPS}, {k / N_OPS}, x.Choose(2), o);
}
