// C12: date increments and schedules.
#include "reftime.hpp"
#include <dal/currency/currency.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/schedules.hpp>
#include "mc.hpp"
#include <set>
using namespace Dal;
using namespace ref;

namespace {
    // one calendar with holidays around month, quarter and year ends and two working weekends
    std::set<int> HOL, WW;
    void Init() {
        for (auto t : {Ymd_{2019, 12, 31}, {2020, 1, 1}, {2020, 1, 2}, {2020, 2, 28}, {2020, 3, 18}, {2020, 3, 20}, {2020, 6, 30}, {2020, 7, 1}, {2020, 12, 31}, {2021, 1, 1}, {2021, 1, 4}, {2021, 3, 31}, {2021, 5, 31}, {2021, 12, 20},
                       {2022, 2, 28}, {2022, 3, 1}, {2022, 3, 2}, {2022, 3, 3}, {2022, 3, 4}})
            HOL.insert(Day(t.y, t.m, t.d));
        for (auto t : {Ymd_{2020, 2, 29}, {2020, 8, 30}, {2021, 2, 27}, {2021, 10, 31}})
            WW.insert(Day(t.y, t.m, t.d));
        Vector_<Date_> h, w;
        for (int z : HOL)
            h.push_back(D(z));
        for (int z : WW)
            w.push_back(D(z));
        Holidays::AddCenter("T1", h, w);
    }
    struct Init_ {
        Init_() { mc::g_init = Init; }
    } s_init;
    bool Bus(int z, bool cal) { return cal ? WW.count(z) || (!Weekend(z) && !HOL.count(z)) : !Weekend(z); }
    int Next(int z, bool cal) {
        while (!Bus(z, cal))
            ++z;
        return z;
    }
    int Prev(int z, bool cal) {
        while (!Bus(z, cal))
            --z;
        return z;
    }
    int Imm(int y, int m) {
        int z = Day(y, m, 15);
        while (Dow(z) != 3)
            ++z;
        return z;
    }
    // the reference meaning of one increment
    int RefStep(const std::string& kind, int n, bool cal, int z, bool fwd) {
        const int s = fwd ? 1 : -1;
        if (kind == "IMM" || kind == "IMM1" || kind == "CDS" || kind == "EOM") {
            for (int k = z + s;; k += s) {
                const Ymd_ t = Civil(k);
                if (kind == "IMM" && t.m % 3 == 0 && Imm(t.y, t.m) == k)
                    return k;
                if (kind == "IMM1" && Imm(t.y, t.m) == k)
                    return k;
                if (kind == "CDS" && t.m % 3 == 0 && t.d == 20)
                    return k;
                if (kind == "EOM" && t.d == Dim(t.y, t.m))
                    return k;
            }
        }
        int r = z;
        if (kind == "Y")
            r = ref::AddMonths(z, 12 * n * s);
        else if (kind == "M")
            r = ref::AddMonths(z, n * s);
        else if (kind == "W")
            r = z + 7 * n * s;
        else if (kind == "CD")
            r = z + n * s;
        else
            for (int i = 0; i < n; ++i)
                r = fwd ? Next(r + 1, cal) : Prev(r - 1, cal);
        if (cal)
            r = fwd ? Next(r, true) : Prev(r, true);
        return r;
    }
    struct Inc_ {
        std::string text, kind;
        int n;
        bool cal;
    };
    const std::vector<Inc_>& Incs() {
        static std::vector<Inc_> v = [] {
            std::vector<Inc_> r;
            for (auto a : {std::pair<const char*, const char*>{"IMM", "IMM"}, {"IMM3", "IMM"}, {"IMM_QUARTERLY", "IMM"}, {"imm", "IMM"}, {"IMM1", "IMM1"}, {"IMM_MONTHLY", "IMM1"}, {"CDS", "CDS"}, {"CDS3", "CDS"}, {"CDS_QUARTERLY", "CDS"}, {"EOM", "EOM"}, {"eom", "EOM"}})
                r.push_back({a.first, a.second, 0, false});
            for (auto u : {std::pair<const char*, const char*>{"Y", "Y"}, {"YEAR", "Y"}, {"YEARS", "Y"}, {"M", "M"}, {"MONTH", "M"}, {"months", "M"}, {"W", "W"}, {"WEEK", "W"}, {"WEEKS", "W"}, {"BD", "BD"}, {"BUS_DAY", "BD"}, {"BUSINESS_DAY", "BD"}, {"CD", "CD"}, {"CAL_DAY", "CD"}, {"CALENDAR_DAY", "CD"}})
                for (int n : {0, 1, 2, 3, 5, 11, 12, 13, 24}) {
                    const bool canon = std::string(u.first) == u.second;
                    if (!canon && n != 2)
                        continue;
                    r.push_back({std::to_string(n) + u.first, u.second, n, false});
                    r.push_back({std::to_string(n) + u.first + ";T1", u.second, n, true});
                }
            return r;
        }();
        return v;
    }
    const int Z0 = Day(2019, 11, 1), Z1 = Day(2023, 2, 1);
} // namespace

MC_SECTION("increments", "every date 2019-11-01..2023-02-01 (thorough 1975..2145) x every increment name, count and calendar x both directions", 1) {
    const int lo = x.thorough_ ? Day(1975, 1, 1) : Z0, hi = x.thorough_ ? Day(2120, 1, 1) : Z1;
    const int z = lo + x.Choose(hi - lo);
    static std::vector<Handle_<Date::Increment_>> parsed;
    if (parsed.empty())
        for (auto& i : Incs())
            parsed.push_back(Date::ParseIncrement(String_(i.text)));
    for (size_t k = 0; k < Incs().size(); ++k) {
        const Inc_& inc = Incs()[k];
        for (bool fwd : {true, false}) {
            x.Step();
            const int want = RefStep(inc.kind, inc.n, inc.cal, z, fwd);
            const int got = Z(fwd ? D(z) + *parsed[k] : D(z) - *parsed[k]);
            if (got != want)
                x.Fail("step", "%s %s %s = %s, expected %s", Str(z).c_str(), fwd ? "+" : "-", inc.text.c_str(), Str(got).c_str(), Str(want).c_str());
        }
    }
    for (int n = 0; n < 4; ++n)
        for (int cal = 0; cal < 2; ++cal) {
            auto inc = Date::NBusDays(n, cal ? Holidays_("T1") : Holidays::None());
            x.Step(2);
            if (Z(D(z) + *inc) != RefStep("BD", n, cal, z, true) || Z(D(z) - *inc) != RefStep("BD", n, cal, z, false))
                x.Fail("nbus", "%d business days from %s", n, Str(z).c_str());
        }
    for (bool monthly : {false, true}) {
        auto inc = Date::ToIMM(monthly);
        x.Step(2);
        if (Z(D(z) + *inc) != RefStep(monthly ? "IMM1" : "IMM", 0, false, z, true) || Z(D(z) - *inc) != RefStep(monthly ? "IMM1" : "IMM", 0, false, z, false))
            x.Fail("to-imm", "IMM step from %s", Str(z).c_str());
    }
    if (x.WantSample())
        x.Sample("all increments from " + Str(z));
    x.State(mc::Mix(1, z));
}

MC_SECTION("compound", "every date of a 500 day window x all ordered pairs and triples of 9 increments", 1) {
    static const std::vector<Inc_> P = {{"1M", "M", 1, false}, {"EOM", "EOM", 0, false}, {"IMM", "IMM", 0, false}, {"CDS", "CDS", 0, false}, {"2BD;T1", "BD", 2, true}, {"3W", "W", 3, false}, {"1CD;T1", "CD", 1, true}, {"1Y", "Y", 1, false}, {"0CD;T1", "CD", 0, true}};
    const int z = Day(2020, 1, 15) + x.Choose(500);
    const int a = x.Choose(9), b = x.Choose(9);
    const int c = x.Choose(x.thorough_ ? 10 : 3) - 1;
    std::string t = P[a].text + "&" + P[b].text + (c < 0 ? "" : "&" + P[c].text);
    auto inc = Date::ParseIncrement(String_(t));
    for (bool fwd : {true, false}) {
        int want = RefStep(P[a].kind, P[a].n, P[a].cal, z, fwd);
        want = RefStep(P[b].kind, P[b].n, P[b].cal, want, fwd);
        if (c >= 0)
            want = RefStep(P[c].kind, P[c].n, P[c].cal, want, fwd);
        x.Step();
        const int got = Z(fwd ? D(z) + *inc : D(z) - *inc);
        if (got != want)
            x.Fail("compound", "%s %s %s = %s, expected %s", Str(z).c_str(), fwd ? "+" : "-", t.c_str(), Str(got).c_str(), Str(want).c_str());
    }
    x.State(mc::HashStr(t, z));
}

MC_SECTION("malformed", "all strings of length <=3 over {1,0,M,W,X,B,D,;,&}: accepted only if it denotes an increment", 1) {
    static const char A[] = {'1', '0', 'M', 'W', 'X', 'B', 'D', ';', '&'};
    const int n = x.Choose(4);
    std::string s;
    for (int i = 0; i < n; ++i)
        s += A[x.Choose(9)];
    x.Step();
    bool ok = false;
    try {
        auto inc = Date::ParseIncrement(String_(s));
        ok = !inc.IsEmpty();
        if (ok)
            (void)(D(20000) + *inc);
    } catch (const std::exception&) {
    }
    auto single = [](const std::string& p) {
        size_t k = 0;
        while (k < p.size() && isdigit(p[k]))
            ++k;
        if (k == 0)
            return false;
        const std::string u = p.substr(k, p.find(';') == std::string::npos ? std::string::npos : p.find(';') - k);
        if (p.find(';') != std::string::npos) // a (possibly empty) list of centers follows
            for (char c : p.substr(p.find(';') + 1))
                if (c != ' ')
                    return false;
        return u == "M" || u == "W" || u == "BD";
    };
    if (s.find('&') == std::string::npos && ok != single(s))
        x.Fail("accept", "'%s' %s", s.c_str(), ok ? "accepted" : "rejected");
    x.Outcome(ok);
    x.State(mc::HashStr(s));
}

namespace {
    struct Tenor_ {
        const char* text;
        Inc_ i;
    };
    const std::vector<Inc_> TENORS = {{"1M", "M", 1, false}, {"3M", "M", 3, false}, {"6M", "M", 6, false}, {"1Y", "Y", 1, false}, {"1W", "W", 1, false}, {"1BD", "BD", 1, false}, {"5BD;T1", "BD", 5, true}, {"1M;T1", "M", 1, true}, {"IMM", "IMM", 0, false}, {"CDS", "CDS", 0, false}, {"EOM", "EOM", 0, false}, {"IMM1", "IMM1", 0, false}, {"10CD", "CD", 10, false}};
    Schedule_ RunGen(int s, int e, const std::string& t, bool fwd) { return DateGenerate(D(s), D(e), Date::ParseIncrement(String_(t)), DateGeneration_(fwd ? "Forward" : "Backward")); }
} // namespace

MC_SECTION("schedules", "all start dates of 120 days x end dates {0..70, then every 7th to 800} days later x 13 tenors x 2 directions x 3 conventions x 2 calendars", 2) {
    const int s = Day(2019, 12, 20) + x.Choose(120) * (x.thorough_ ? 1 : 2);
    const Inc_ inc = x.Pick(TENORS);
    std::vector<int> ends;
    for (int k = 0; k <= 70; ++k)
        ends.push_back(s + k);
    for (int k = 77; k <= 800; k += 7)
        ends.push_back(s + k);
    auto tenor = Date::ParseIncrement(String_(inc.text));
    static const Holidays_ T1("T1"), NONE("");
    for (int e : ends)
        for (bool fwd : {true, false}) {
            std::vector<int> want;
            if (fwd) {
                for (int z = s; z <= e; z = RefStep(inc.kind, inc.n, inc.cal, z, true))
                    want.push_back(z);
                if (want.back() != e)
                    want.push_back(e);
            } else {
                for (int z = e; z >= s; z = RefStep(inc.kind, inc.n, inc.cal, z, false))
                    want.push_back(z);
                if (want.back() != s)
                    want.push_back(s);
                std::reverse(want.begin(), want.end());
            }
            x.Step();
            const Schedule_ got = DateGenerate(D(s), D(e), tenor, DateGeneration_(fwd ? "Forward" : "Backward"));
            bool same = got.size() == want.size();
            for (size_t i = 0; same && i < want.size(); ++i)
                same = Z(got[i]) == want[i];
            if (!same)
                x.Fail("generate", "%s to %s by %s %s: %zu dates instead of %zu, or different ones", Str(s).c_str(), Str(e).c_str(), inc.text.c_str(), fwd ? "forward" : "backward", (size_t)got.size(), want.size());
            for (int conv = 0; conv < 3; ++conv)
                for (int cal = 0; cal < 2; ++cal) {
                    static const char* C[] = {"Unadjusted", "Following", "ModifiedFollowing"};
                    std::set<int> adj;
                    for (int z : want) {
                        int r = z;
                        if (conv)
                            r = Next(z, cal);
                        if (conv == 2 && Civil(r).m != Civil(z).m)
                            r = Prev(z, cal);
                        adj.insert(r);
                    }
                    x.Step();
                    const Schedule_ m = MakeSchedule(D(s), Cell_(D(e)), cal ? T1 : NONE, tenor, DateGeneration_(fwd ? "Forward" : "Backward"), BizDayConvention_(C[conv]));
                    bool ok = m.size() == adj.size();
                    auto p = adj.begin();
                    for (size_t i = 0; ok && i < adj.size(); ++i, ++p)
                        ok = Z(m[i]) == *p;
                    if (!ok)
                        x.Fail("schedule", "%s to %s by %s, %s, %s, calendar %d differs", Str(s).c_str(), Str(e).c_str(), inc.text.c_str(), fwd ? "forward" : "backward", C[conv], cal);
                }
        }
    x.State(mc::HashStr(inc.text, s));
    if (x.WantSample())
        x.Sample("schedules from " + Str(s) + " by " + inc.text);
}

MC_SECTION("rejected", "non-advancing tenors and reversed ends, all of 10 x 10 dates", 1) {
    const int s = Day(2020, 2, 25) + x.Choose(10), e = s + 5 + x.Choose(10);
    const char* t[] = {"0M", "0W", "0CD", "0Y", "0BD"};
    const int k = x.Choose(5);
    const bool fwd = x.Flip();
    x.Step(2);
    if (!Throws([&] { RunGen(s, e, t[k], fwd); }))
        x.Fail("zero", "tenor %s accepted", t[k]);
    if (!Throws([&] { RunGen(e, s, "1W", fwd); }))
        x.Fail("reversed", "schedule from %s back to %s accepted", Str(e).c_str(), Str(s).c_str());
    if (!Throws([&] { MakeSchedule(D(s), Cell_(1.0), Holidays::None(), Date::ParseIncrement("1W")); }))
        x.Fail("cell", "numeric maturity accepted");
    x.State(mc::Mix(s, e * 10 + k));
}

MC_SECTION("nominal-maturity", "every date 2019-11..2025-03 x every period length", 1) {
    const int z = Z0 + x.Choose(1950);
    static const std::pair<const char*, int> PL[] = {{"ANNUAL", 12}, {"12M", 12}, {"SEMIANNUAL", 6}, {"SEMI", 6}, {"6M", 6}, {"QUARTERLY", 3}, {"3M", 3}, {"MONTHLY", 1}, {"1M", 1}};
    for (auto& p : PL) {
        const PeriodLength_ pl{String_(p.first)};
        x.Step();
        if (pl.Months() != p.second)
            x.Fail("months", "%s has %d months", p.first, pl.Months());
        const int got = Z(Date::NominalMaturity(D(z), pl, Ccy_("USD")));
        if (got != ref::AddMonths(z, p.second))
            x.Fail("nominal", "%s + %s = %s", Str(z).c_str(), p.first, Str(got).c_str());
    }
    x.State(mc::Mix(9, z));
}

MC_SECTION("large-counts", "every count 0..130 (then to 800 in steps of 7) of Y/M/W/CD/BD, with and without calendar, from 40 dates around month ends, both directions, results after 1970", 1) {
    static const char* U[] = {"Y", "M", "W", "CD", "BD"};
    const int u = x.Choose(5);
    const int k = x.Choose(226), n = k <= 130 ? k : 130 + 7 * (k - 130);
    const bool cal = x.Flip();
    if (u == 0 && n > 49)
        return;
    const std::string t = std::to_string(n) + U[u] + (cal ? ";T1" : "");
    auto inc = Date::ParseIncrement(String_(t));
    for (int i = 0; i < 40; ++i) {
        const int z = Day(2021 + i / 14, 1 + (i * 5) % 12, 1) - 1 - i % 4;
        for (bool fwd : {true, false}) {
            const int want = RefStep(U[u], n, cal, z, fwd);
            if (want < Day(1970, 1, 5))
                continue;
            x.Step();
            const int got = Z(fwd ? D(z) + *inc : D(z) - *inc);
            if (got != want)
                x.Fail("large", "%s %s %s = %s, expected %s", Str(z).c_str(), fwd ? "+" : "-", t.c_str(), Str(got).c_str(), Str(want).c_str());
        }
    }
    x.State(mc::HashStr(t));
}

MC_SECTION("long-compounds", "sequences of 1..40 increments drawn round robin from 9 kinds at 9 phases, from 60 dates, both directions", 1) {
    static const std::vector<Inc_> P = {{"1M", "M", 1, false}, {"EOM", "EOM", 0, false}, {"IMM", "IMM", 0, false}, {"CDS", "CDS", 0, false}, {"2BD;T1", "BD", 2, true}, {"3W", "W", 3, false}, {"1CD;T1", "CD", 1, true}, {"IMM1", "IMM1", 0, false}, {"0CD;T1", "CD", 0, true}};
    const int n = 1 + x.Choose(40), ph = x.Choose(9);
    std::string t;
    for (int i = 0; i < n; ++i)
        t += (i ? "&" : "") + P[(i + ph) % 9].text;
    auto inc = Date::ParseIncrement(String_(t));
    for (int z = Day(2020, 1, 5); z < Day(2020, 1, 5) + 600; z += 10)
        for (bool fwd : {true, false}) {
            int want = z;
            for (int i = 0; i < n; ++i)
                want = RefStep(P[(i + ph) % 9].kind, P[(i + ph) % 9].n, P[(i + ph) % 9].cal, want, fwd);
            x.Step();
            const int got = Z(fwd ? D(z) + *inc : D(z) - *inc);
            if (got != want)
                x.Fail("compound", "%s %s %s = %s, expected %s", Str(z).c_str(), fwd ? "+" : "-", t.c_str(), Str(got).c_str(), Str(want).c_str());
        }
    x.State(mc::HashStr(t));
}

MC_SECTION("long-schedules", "schedules of 14 lengths from 1 to 60 years (and up to 2500 daily dates) from 31 start days x 13 tenors x 2 directions x 3 conventions x 2 calendars", 1) {
    const Inc_ inc = x.Pick(TENORS);
    const int s = Day(2020, 1, 1) + 9 * x.Choose(31);
    static const std::vector<int> YRS = {1, 2, 3, 4, 5, 7, 9, 10, 15, 20, 25, 30, 40, 60};
    const int yr = x.Pick(YRS);
    const bool dense = inc.kind == "BD" || inc.kind == "CD" || inc.kind == "W";
    if (dense && yr > 10)
        return;
    const int e = ref::AddMonths(s, 12 * yr) + x.Choose(3) * 11;
    auto tenor = Date::ParseIncrement(String_(inc.text));
    static const Holidays_ T1("T1"), NONE("");
    for (bool fwd : {true, false}) {
        std::vector<int> want;
        if (fwd) {
            for (int z = s; z <= e; z = RefStep(inc.kind, inc.n, inc.cal, z, true))
                want.push_back(z);
            if (want.back() != e)
                want.push_back(e);
        } else {
            for (int z = e; z >= s; z = RefStep(inc.kind, inc.n, inc.cal, z, false))
                want.push_back(z);
            if (want.back() != s)
                want.push_back(s);
            std::reverse(want.begin(), want.end());
        }
        const Schedule_ got = DateGenerate(D(s), D(e), tenor, DateGeneration_(fwd ? "Forward" : "Backward"));
        bool same = got.size() == want.size();
        for (size_t i = 0; same && i < want.size(); ++i)
            same = Z(got[i]) == want[i];
        x.Step(want.size());
        if (!same)
            x.Fail("generate", "%s to %s by %s %s: %zu dates instead of %zu, or different ones", Str(s).c_str(), Str(e).c_str(), inc.text.c_str(), fwd ? "forward" : "backward", (size_t)got.size(), want.size());
        for (int conv = 0; conv < 3; ++conv)
            for (int cal = 0; cal < 2; ++cal) {
                static const char* C[] = {"Unadjusted", "Following", "ModifiedFollowing"};
                std::set<int> adj;
                for (int z : want) {
                    int r = z;
                    if (conv)
                        r = Next(z, cal);
                    if (conv == 2 && Civil(r).m != Civil(z).m)
                        r = Prev(z, cal);
                    adj.insert(r);
                }
                const Schedule_ m = MakeSchedule(D(s), Cell_(D(e)), cal ? T1 : NONE, tenor, DateGeneration_(fwd ? "Forward" : "Backward"), BizDayConvention_(C[conv]));
                bool ok = m.size() == adj.size();
                auto p = adj.begin();
                for (size_t i = 0; ok && i < adj.size(); ++i, ++p)
                    ok = Z(m[i]) == *p;
                if (!ok)
                    x.Fail("schedule", "%s to %s by %s, %s, %s, calendar %d differs", Str(s).c_str(), Str(e).c_str(), inc.text.c_str(), fwd ? "forward" : "backward", C[conv], cal);
            }
    }
    x.State(mc::HashStr(inc.text, mc::Mix(s, e)));
}
