// C17: global dates, scoped overrides, environments and stored fixings against stack and map models, for every sequence of
// operations within the bound.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/audit.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/box.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/time/date.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetime.hpp>
#include <list>
#include <map>
#include <optional>
using namespace Dal;

namespace {
    using Override_ = XGLOBAL::ScopedOverride_<Date_>;
    Date_ D(int i) { return Date_(2020 + i, 1 + i, 3 + i); }
    Date_ Get(int which) { return which ? Global::Dates_::AccountingDate() : Global::Dates_::EvaluationDate(); }
    void Set(int which, const Date_& d, bool wide) {
        if (wide)
            which ? Global::Dates_::SetAccountingDate(d) : Global::Dates_::SetEvaluationDate(d);
        else
            which ? XGLOBAL::SetAccountingDate(d) : XGLOBAL::SetEvaluationDate(d);
    }
} // namespace
MC_SECTION("dates and overrides", "all sequences of 5 operations (thorough 6) from: set either date (2 values), open an override of either date (2 values), move the innermost override (construct, assign to a finished one), close the innermost; then all are closed", 3) {
    struct Open_ {
        int which;
        Date_ saved;
        std::unique_ptr<Override_> o;
    };
    std::list<Open_> open;
    Date_ val[2] = {D(0), D(1)};
    Set(0, val[0], true);
    Set(1, val[1], false);
    std::string hist;
    auto check = [&] {
        x.Step();
        for (int w = 0; w < 2; ++w)
            if (Get(w) != val[w])
                x.Fail("value", "%s date differs from the stack model after%s", w ? "accounting" : "evaluation", hist.c_str());
    };
    auto close = [&] {
        val[open.back().which] = open.back().saved;
        open.pop_back();
    };
    const int depth = x.thorough_ ? 6 : 5;
    for (int i = 0; i < depth; ++i) {
        const int k = x.Choose(open.empty() ? 8 : 11);
        const int which = k & 1, v = 2 + (k >> 1 & 1);
        if (k < 4) {
            hist += " set" + std::to_string(k);
            Set(which, D(v), v == 2);
            val[which] = D(v);
        } else if (k < 8) {
            hist += " open" + std::to_string(k);
            open.push_back({which, val[which], nullptr});
            open.back().o.reset(new Override_(which ? XGLOBAL::SetAccountingDateInScope(D(v)) : XGLOBAL::SetEvaluationDateInScope(D(v))));
            val[which] = D(v);
        } else if (k == 8) {
            hist += " close";
            close();
        } else if (k == 9) { // moved to a new place; the old one is closed
            hist += " move";
            auto n = std::make_unique<Override_>(std::move(*open.back().o));
            open.back().o.reset();
            open.back().o = std::move(n);
        } else { // moved away and back into the emptied one
            hist += " moveback";
            Override_ n(std::move(*open.back().o));
            *open.back().o = std::move(n);
            Override_& self = *open.back().o;
            self = std::move(*open.back().o);
            // and into a finished one which was about something else
            auto other = std::make_unique<Override_>([](const Date_&) {}, D(1));
            { Override_ finished(std::move(*other)); }
            *other = std::move(*open.back().o);
            open.back().o = std::move(other);
        }
        check();
    }
    x.State(mc::HashStr(hist));
    while (!open.empty()) {
        close();
        hist += " end";
        check();
    }
}
MC_SECTION("every date", "every supported date (quick: every 29th) set as either date, overridden by the same day mirrored in the range, and restored", 0) {
    Date_ other[2] = {D(0), D(1)};
    Set(0, other[0], true);
    Set(1, other[1], true);
    const int step = x.thorough_ ? 1 : 29;
    int k = 0;
    for (Date_ d = Date::Minimum(); d <= Date::Maximum(); d = d.AddDays(step), ++k) {
        const int w = k & 1;
        const Date_ mirror = Date::Maximum().AddDays(Date::Minimum() - d);
        x.Step();
        Set(w, d, k & 2);
        if (Get(w) != d || Get(1 - w) != other[1 - w])
            x.Fail("value", "%s set is read as %s", Date::ToString(d).c_str(), Date::ToString(Get(w)).c_str());
        {
            Override_ o(w ? XGLOBAL::SetAccountingDateInScope(mirror) : XGLOBAL::SetEvaluationDateInScope(mirror));
            if (Get(w) != mirror || Get(1 - w) != other[1 - w])
                x.Fail("value", "%s in scope is read as %s", Date::ToString(mirror).c_str(), Date::ToString(Get(w)).c_str());
        }
        if (Get(w) != d)
            x.Fail("value", "%s is restored as %s", Date::ToString(d).c_str(), Date::ToString(Get(w)).c_str());
        Set(w, other[w], true);
        if (Date::Maximum() - d < step)
            break;
    }
}
MC_SECTION("unset dates", "each date read first with nothing set: today's date, and the same from then on", 0) {
    for (int w = 0; w < 2; ++w) {
        (void)ObjectAccess_().Erase(String_(""));
        const Date_ t0 = Date::Today(), d = Get(w), t1 = Date::Today();
        x.Step();
        if (!(t0 <= d && d <= t1) || Get(w) != d)
            x.Fail("unset", "a date that was never set is not today's");
        Set(w, D(0), true);
        Set(1 - w, D(1), true);
        (void)ObjectAccess_().Add(Handle_<Storable_>(new Box_(String_("##GLOBAL##") + (w ? "AccountingDate" : "EvaluationDate") + "~!", Matrix_<Cell_>(1, 1))), RepositoryErase_("NONE"));
        (void)ObjectAccess_().Add(Handle_<Storable_>(new Box_(String_("##GLOBAL##") + (w ? "AccountingDate" : "EvaluationDat"), Matrix_<Cell_>(1, 1))), RepositoryErase_("NONE"));
        if (w == 0 && (Get(0) != D(0) || Get(1) != D(1)))
            x.Fail("value", "another object in the repository is taken for a global date");
        (void)ObjectAccess_().Erase(String_(""));
    }
}

// ------------------------------------------------------------------ environments
namespace {
    struct EA_ : Environment::Entry_ {
        int id;
        explicit EA_(int i) : id(i) {}
    };
    struct EB_ : Environment::Entry_ {
        int id;
        explicit EB_(int i) : id(i) {}
    };
    struct EC_ : EA_ {
        explicit EC_(int i) : EA_(i) {}
    };
    struct Env_ {
        mc::Ctx_& x;
        std::vector<std::pair<int, int>> model; // innermost last: kind (0 A, 1 B, 2 C), id
        std::string hist;
        int n = 0;
        void Check(const Environment_* _env) {
            x.Step();
            std::vector<int> a, b, ga, gb, all;
            const int n0 = (int)model.size();
            for (int i = n0 - 1; i >= 0; --i)
                (model[i].first == 1 ? b : a).push_back(model[i].second);
            for (auto p : Environment::Collect<EA_>(_env))
                ga.push_back(p->id);
            for (auto p : Environment::Collect<EB_>(_env))
                gb.push_back(p->id);
            int count = 0;
            Environment::Iterate(_env, [&](const Environment::Entry_&) { ++count; });
            const EA_* fa = Environment::Find<EA_>(_env);
            const EB_* fb = Environment::Find<EB_>(_env);
            const EC_* fc = Environment::Find<EC_>(_env);
            int c = -1;
            for (int i = 0; i < n0; ++i)
                if (model[i].first == 2)
                    c = model[i].second;
            if (a != ga || b != gb || count != n0 || (fa ? fa->id : -1) != (a.empty() ? -1 : a[0]) || (fb ? fb->id : -1) != (b.empty() ? -1 : b[0]) || (fc ? fc->id : -1) != c)
                x.Fail("lookup", "entries found differ from the stack model after%s", hist.c_str());
        }
        int left = 0;
        void Go(const Environment_*& _env) {
            while (left-- > 0) {
                const int k = x.Choose(4);
                if (k == 3) {
                    hist += " )";
                    return;
                }
                hist += std::string(" (") + "ABC"[k];
                model.push_back({k, ++n});
                if (k == 0) {
                    EA_ e(n);
                    ENV_ADD(e);
                    Check(_env);
                    Go(_env);
                    Check(_env);
                    model.pop_back();
                } else if (k == 1) {
                    EB_ e(n);
                    ENV_ADD(e);
                    Check(_env);
                    Go(_env);
                    model.pop_back();
                } else {
                    EC_ e(n);
                    Environment::XDecorated_ d(_env, e);
                    Check(_env);
                    Go(_env);
                    model.pop_back();
                }
                Check(_env);
            }
        }
    };
} // namespace
MC_SECTION("environments", "all sequences of 7 (thorough 8) openings of decorations of 3 kinds and closings (one kind derived from another) over no environment or a base of 0..3 entries: lookups and iterations before, within and after every scope", 3) {
    const int nb = x.Choose(5) - 1;
    Vector_<Handle_<Environment::Entry_>> vals;
    Env_ e{x};
    for (int i = 0; i < nb; ++i)
        vals.push_back(i == 1 ? Handle_<Environment::Entry_>(new EB_(100 + i)) : Handle_<Environment::Entry_>(new EA_(100 + i)));
    // a base's entries are seen in order, after all decorations
    for (int i = nb - 1; i >= 0; --i)
        e.model.push_back({i == 1 ? 1 : 0, 100 + i});
    Environment::Base_ base(vals);
    const Environment_* _env = nb < 0 ? nullptr : &base;
    const Environment_* start = _env;
    e.Check(_env);
    e.left = x.thorough_ ? 8 : 7;
    e.Go(_env);
    e.Check(_env);
    if (_env != start)
        x.Fail("scope", "the environment is not restored after%s", e.hist.c_str());
}
MC_SECTION("auditors", "all sequences of 4 notices (2 keys, 3 values) to a reading or exclusively reading auditor, one or two of them nested, then recalled by key", 2) {
    static const std::vector<Handle_<Box_>> V = {Handle_<Box_>(new Box_("x", Matrix_<Cell_>(1, 1))), Handle_<Box_>(new Box_("y", Matrix_<Cell_>(1, 1))), Handle_<Box_>(new Box_("z", Matrix_<Cell_>(1, 1)))};
    const int nAud = 1 + x.Choose(2), modes = x.Choose(1 << nAud), n = x.Choose(5);
    AuditorImp_ aud[2];
    if (aud[0].Find("k0").size() || aud[1].Find("k0").size())
        x.Fail("audit", "a new auditor recalls something");
    const Environment_* _env = nullptr;
    std::map<std::string, std::vector<const Storable_*>> model[2];
    {
        std::unique_ptr<Environment::XDecorated_> d0(new Environment::XDecorated_(_env, aud[0])), d1;
        if (nAud > 1)
            d1.reset(new Environment::XDecorated_(_env, aud[1]));
        for (int a = 0; a < nAud; ++a)
            aud[a].mode_ = modes >> a & 1 ? AuditorImp_::READING_EXCLUSIVE : AuditorImp_::READING;
        for (int i = 0; i < n; ++i) {
            const int k = x.Choose(2), v = x.Choose(3);
            const std::string key = "k" + std::to_string(k);
            Environment::Audit(_env, String_(key), V[v]);
            for (int a = 0; a < nAud; ++a) {
                if (modes >> a & 1)
                    model[a][key].clear();
                model[a][key].push_back(V[v].get());
            }
        }
        for (int a = 0; a < nAud; ++a)
            aud[a].mode_ = AuditorImp_::SHOWING;
        for (int k = 0; k < 3; ++k) {
            const std::string key = "k" + std::to_string(k);
            std::set<const Storable_*> all;
            for (int a = 0; a < nAud; ++a) {
                std::vector<const Storable_*> got;
                for (auto& h : aud[a].Find(String_(key)))
                    got.push_back(h.get());
                x.Step();
                if (got != model[a][key])
                    x.Fail("audit", "an auditor recalls %zu objects instead of %zu", got.size(), model[a][key].size());
                all.insert(got.begin(), got.end());
            }
            Handle_<Box_> r;
            bool threw = false;
            try {
                Environment::Recall(_env, String_(key), &r);
            } catch (const std::exception&) {
                threw = true;
            }
            if (threw != (all.size() > 1) || (!threw && r.get() != (all.empty() ? nullptr : *all.begin())))
                x.Fail("recall", "%zu different objects were noticed and recalling %s", all.size(), threw ? "fails" : "succeeds");
        }
        d1.reset();
        d0.reset();
    }
}

// ------------------------------------------------------------------ fixings
MC_SECTION("fixings", "all sequences of 3 stores (thorough 4) of 0..2 fixings (4 times a second apart or on another day, 2 values) for 2 of 3 index names (equal up to a prefix), appending or replacing; the whole history of every name read after each", 3) {
    (void)ObjectAccess_().Erase(String_(""));
    static const String_ NAMES[3] = {"EQ[IBM]", "EQ[IBM]>3M", "EQ[IB]"};
    static const DateTime_ T[4] = {DateTime_(Date_(2022, 3, 4), 0, 0, 0), DateTime_(Date_(2022, 3, 4), 23, 59, 59), DateTime_(Date_(2022, 3, 5), 0, 0, 0), DateTime_(Date_(2021, 3, 4), 12, 0, 1)};
    std::map<int, std::map<DateTime_, double>> model;
    std::string hist;
    const int depth = x.thorough_ ? 4 : 3;
    for (int i = 0; i < depth; ++i) {
        const int name = x.Choose(2), append = x.Choose(2), k = x.Choose(1 + 4 + 6);
        FixHistory_ f;
        // nothing, one, or two in either order
        if (k >= 1 && k < 5)
            f.vals_.push_back(std::make_pair(T[k - 1], 100.0 + i));
        else if (k >= 5) {
            static const int P[6][2] = {{0, 1}, {1, 0}, {2, 1}, {3, 0}, {2, 2}, {1, 3}};
            f.vals_.push_back(std::make_pair(T[P[k - 5][0]], 200.0 + i));
            f.vals_.push_back(std::make_pair(T[P[k - 5][1]], -0.1 - i));
        }
        hist += " store " + std::to_string(name) + (append ? " + " : " = ") + std::to_string(k);
        if (!append)
            model[name].clear();
        for (auto& v : f.vals_)
            model[name][v.first] = v.second;
        const int stored = XGLOBAL::StoreFixings(NAMES[name], f, append == 1);
        if (stored != (int)model[name].size())
            x.Fail("count", "%d stored instead of %zu after%s", stored, model[name].size(), hist.c_str());
        for (int n = 0; n < 3; ++n) {
            x.Step();
            const auto h = Global::Fixings_().History(NAMES[n]);
            bool ok = h.vals_.size() == model[n].size();
            size_t j = 0;
            if (ok)
                for (auto& m : model[n]) {
                    ok = ok && h.vals_[j].first == m.first && h.vals_[j].second == m.second;
                    ++j;
                }
            if (!ok)
                x.Fail("history", "the history of %s differs from what was stored after%s", NAMES[n].c_str(), hist.c_str());
        }
    }
}

MC_SECTION("many fixings", "2 names, 12 stores of 0..1000 fixings each (4 sizes) at times increasing, decreasing, repeated or all over the place, appending or replacing by 6 patterns: the whole history read after each", 3) {
    (void)ObjectAccess_().Erase(String_(""));
    static const String_ NAMES[2] = {"EQ[IBM]", "EQ[IBM]>3M"};
    static const int NS[] = {1, 10, 150, 1000};
    const int size = NS[x.Choose(4)], order = x.Choose(4), pattern = x.Choose(6), empty = x.Choose(2);
    std::map<DateTime_, double> model[2];
    for (int i = 0; i < 12; ++i) {
        const int name = i % 3 == 1;
        const bool append = pattern == 0 || (pattern == 1 ? i % 2 : pattern == 2 ? i % 4 != 3 : pattern == 3 ? i < 6 : pattern == 4 ? i >= 6 : false);
        FixHistory_ f;
        const int n = empty && i % 5 == 4 ? 0 : size;
        for (int k = 0; k < n; ++k) {
            const int j = order == 0 ? k + i * n / 2 : order == 1 ? 12 * n - k - i * n : order == 2 ? k % 3 + i : (k * 37 + i) % (2 * n);
            f.vals_.push_back(std::make_pair(DateTime_(Date_(2010, 1, 1).AddDays(j / 4), 6 * (j % 4), 0, 0), 1000.0 * i + k));
        }
        if (!append)
            model[name].clear();
        for (auto& v : f.vals_)
            model[name][v.first] = v.second;
        const int stored = XGLOBAL::StoreFixings(NAMES[name], f, append);
        if (stored != (int)model[name].size())
            x.Fail("count", "%d stored instead of %zu in store %d", stored, model[name].size(), i);
        for (int m = 0; m < 2; ++m) {
            x.Step();
            const auto h = Global::Fixings_().History(NAMES[m]);
            bool ok = h.vals_.size() == model[m].size();
            size_t j = 0;
            if (ok)
                for (auto& e : model[m]) {
                    ok = ok && h.vals_[j].first == e.first && h.vals_[j].second == e.second;
                    ++j;
                }
            if (!ok)
                x.Fail("history", "the history of %s differs from what was stored in store %d of %d fixings", NAMES[m].c_str(), i, n);
        }
    }
    x.State(((size * 4 + order) * 6 + pattern) * 2 + empty);
}
