// C11: business-day logic for every small calendar and combination of calendars.
#include "reftime.hpp"
#include <dal/time/calendars/init.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/holidays.hpp>
#include "mc.hpp"
#include <set>
using namespace Dal;
using namespace ref;

namespace {
    // window Thu..Fri of the following week: 7 weekdays and 2 weekend days
    const int W0 = Day(2024, 2, 29); // a Thursday (and a leap day)
    struct Cal_ {
        std::set<int> h, w;
        std::string name;
    };
    std::vector<Cal_> CALS; // index = bitmask over the 9 days
    const int NDAYS = 9;
    void Add(const Cal_& c) {
        Vector_<Date_> h, w;
        for (int z : c.h)
            h.push_back(D(z));
        for (int z : c.w)
            w.push_back(D(z));
        Holidays::AddCenter(String_(c.name), h, w);
    }
    void Init() {
        Calendars_::Init();
        for (int mask = 0; mask < 1 << NDAYS; ++mask) {
            Cal_ c;
            for (int k = 0; k < NDAYS; ++k)
                if (mask >> k & 1)
                    (Weekend(W0 + k) ? c.w : c.h).insert(W0 + k);
            c.name = "K" + std::to_string(mask);
            Add(c);
            CALS.push_back(c);
        }
    }
    struct Init_ {
        Init_() { mc::g_init = Init; }
    } s_init;
    bool Bus(const std::vector<int>& ks, int z) {
        for (int k : ks)
            if (CALS[k].w.count(z))
                return true;
        if (Weekend(z))
            return false;
        for (int k : ks)
            if (CALS[k].h.count(z))
                return false;
        return true;
    }
    void CheckAll(mc::Ctx_& x, const std::vector<int>& ks, const std::string& name, const Holidays_& h, bool countFirst, int lo, int hi) {
        auto dates = [&] {
            for (int z = lo; z < hi; ++z) {
                bool hol = false, ww = false;
                for (int k : ks) {
                    hol = hol || CALS[k].h.count(z);
                    ww = ww || CALS[k].w.count(z);
                }
                x.Step(4);
                if (h.IsHoliday(D(z)) != hol || h.IsWorkWeekends(D(z)) != ww)
                    x.Fail("is-holiday", "calendar '%s', %s: holiday %d, working weekend %d", name.c_str(), Str(z).c_str(), h.IsHoliday(D(z)), h.IsWorkWeekends(D(z)));
                int n = z, p = z;
                while (!Bus(ks, n))
                    ++n;
                while (!Bus(ks, p))
                    --p;
                if (Z(Holidays::NextBus(h, D(z))) != n)
                    x.Fail("next", "calendar '%s': next business day of %s is %s, expected %s", name.c_str(), Str(z).c_str(), Str(Z(Holidays::NextBus(h, D(z)))).c_str(), Str(n).c_str());
                if (Z(Holidays::PrevBus(h, D(z))) != p)
                    x.Fail("prev", "calendar '%s': previous business day of %s is %s, expected %s", name.c_str(), Str(z).c_str(), Str(Z(Holidays::PrevBus(h, D(z)))).c_str(), Str(p).c_str());
            }
        };
        auto counts = [&] {
            const CountBusDays_ cnt(h);
            for (int b = lo; b < hi; ++b) {
                int want = 0;
                for (int e = b; e <= hi; ++e) {
                    x.Step();
                    const int got = cnt(D(b), D(e));
                    if (got != want)
                        x.Fail("count", "calendar '%s': %d business days in [%s, %s), expected %d", name.c_str(), got, Str(b).c_str(), Str(e).c_str(), want);
                    want += Bus(ks, e);
                }
                if (cnt(D(b), D(b - 1)) != 0)
                    x.Fail("count-empty", "reversed interval counts business days");
            }
        };
        if (countFirst)
            counts(), dates();
        else
            dates(), counts();
    }
} // namespace

MC_SECTION("single", "all 512 calendars over a 9-day window (holiday/working-weekend subsets) x all dates and intervals of 26 days", 1) {
    const int k = x.Choose(1 << NDAYS);
    CheckAll(x, {k}, CALS[k].name, Holidays_(String_(CALS[k].name)), x.Flip(), W0 - 8, W0 + 18);
    x.State(mc::Mix(1, k));
    if (x.WantSample())
        x.Sample("calendar mask " + std::to_string(k) + ", all intervals of 26 days");
}

MC_SECTION("pairs", "all ordered pairs of 48 calendars (incl. equal, reversed, repeated) x lookup histories x intervals of 20 days", 1) {
    auto pick = [&](int i) { return i < 32 ? (i & 15) << 1 | (i >> 4) << 7 : ((i - 32) * 37 + 3) & 511; };
    const int a = pick(x.Choose(48)), b = pick(x.Choose(48));
    const int style = x.Choose(3);
    const std::string name = CALS[a].name + " " + CALS[b].name + (style == 2 ? " " + CALS[a].name : "");
    const Holidays_ before{String_(name)};
    CheckAll(x, {a, b}, name, before, style == 1, W0 - 3, W0 + 13);
    const Holidays_ after{String_(name)}; // the combination is now cached
    CheckAll(x, {a, b}, name, after, style == 1, W0 - 3, W0 + 13);
    const Holidays_ rev{String_(CALS[b].name + " " + CALS[a].name)};
    if (!(rev == after) || rev != after || std::string(rev.String().c_str()) != std::string(after.String().c_str()))
        x.Fail("order", "'%s' and its reverse differ: '%s'", name.c_str(), rev.String().c_str());
    const Holidays_ again(after.String());
    if (!(again == after))
        x.Fail("name", "'%s' does not read back", after.String().c_str());
    x.State(mc::HashStr(name));
}

MC_SECTION("triples", "all triples of 10 calendars x intervals of 16 days", 2) {
    auto pick = [&](int i) { return (i * 53 + 7) & 511; };
    const int a = pick(x.Choose(10)), b = pick(x.Choose(10)), c = pick(x.Choose(10));
    const std::string name = CALS[a].name + " " + CALS[b].name + " " + CALS[c].name;
    if (x.Flip()) // a sub-combination was counted before
        CountBusDays_(Holidays_(String_(CALS[a].name + " " + CALS[b].name)))(D(W0), D(W0 + 3));
    CheckAll(x, {a, b, c}, name, Holidays_(String_(name)), false, W0 - 1, W0 + 12);
    CheckAll(x, {a, b, c}, name, Holidays_(String_(name)), true, W0 - 1, W0 + 12);
    x.State(mc::HashStr(name));
}

MC_SECTION("none", "the empty calendar, all dates and intervals of 60 days", 1) {
    x.Choose(1);
    CheckAll(x, {}, "", Holidays::None(), x.Flip(), W0 - 20, W0 + 40);
    CheckAll(x, {}, "", Holidays_(String_("")), false, W0 - 20, W0 + 40);
    x.State(1);
}

namespace {
    // the shipped calendars as data
#include "china_snapshot.inc"
    struct Shipped_ {
        std::set<int> h, w;
    };
    const Shipped_& Ship(int which) {
        static Shipped_ s[2];
        static bool init = false;
        if (!init) {
            for (int d : SNAP_H)
                s[0].h.insert(d - 25569), s[1].h.insert(d - 25569);
            s[1].h.erase(Day(2024, 2, 9));
            for (int d : SNAP_W)
                s[1].w.insert(d - 25569);
            init = true;
        }
        return s[which];
    }
} // namespace

MC_SECTION("shipped", "shipped exchange and interbank calendars and their combination: every date 2004-01-01..2025-11-01 (snapshot of the published data), every interval start x lengths to 40 days", 1) {
    static const char* N[] = {"CN.SSE", "CN.IB", "CN.IB CN.SSE"};
    const int z = Day(2004, 1, 1) + x.Choose(Day(2025, 11, 1) - Day(2004, 1, 1));
    for (int which = 0; which < 3; ++which) {
        auto hol = [&](int d) { return which < 2 ? Ship(which).h.count(d) > 0 : Ship(0).h.count(d) || Ship(1).h.count(d); };
        auto ww = [&](int d) { return which < 2 ? Ship(which).w.count(d) > 0 : Ship(1).w.count(d) > 0; };
        auto bus = [&](int d) { return ww(d) || (!Weekend(d) && !hol(d)); };
        static const Holidays_ H[] = {Holidays_(N[0]), Holidays_(N[1]), Holidays_(N[2])};
        static const CountBusDays_ C[] = {CountBusDays_(H[0]), CountBusDays_(H[1]), CountBusDays_(H[2])};
        int n = z, p = z;
        while (!bus(n))
            ++n;
        while (!bus(p))
            --p;
        x.Step(4);
        if (H[which].IsHoliday(D(z)) != hol(z) || H[which].IsWorkWeekends(D(z)) != ww(z) || Z(Holidays::NextBus(H[which], D(z))) != n || Z(Holidays::PrevBus(H[which], D(z))) != p)
            x.Fail("shipped", "%s on %s", N[which], Str(z).c_str());
        int want = 0;
        for (int k = 0; k <= 40; ++k) {
            {
                x.Step();
                if (C[which](D(z), D(z + k)) != want)
                    x.Fail("shipped-count", "%s: %d business days in [%s, +%d), expected %d", N[which], C[which](D(z), D(z + k)), Str(z).c_str(), k, want);
            }
            want += bus(z + k);
        }
    }
    x.State(mc::Mix(5, z));
}

MC_SECTION("registration", "all registrations of up to 2 holidays and 1 working weekend over a 5-day window, in any order, incl. duplicate names: accepted iff well formed, others unchanged", 1) {
    static int serial = 0;
    // Fri .. Tue
    const int f = W0 + 1;
    const int a = x.Choose(6) - 1, b = x.Choose(6) - 1, w = x.Choose(6) - 1;
    const int nm = x.Choose(3);
    const std::string name = nm == 0 ? "R" + std::to_string(serial++) + "_" + std::to_string(getpid()) : nm == 1 ? "K5" : "k5";
    Vector_<Date_> h, ww;
    if (a >= 0)
        h.push_back(D(f + a));
    if (b >= 0)
        h.push_back(D(f + b));
    if (w >= 0)
        ww.push_back(D(f + w));
    bool ok = nm == 0;
    if (a >= 0 && Weekend(f + a))
        ok = false;
    if (b >= 0 && Weekend(f + b))
        ok = false;
    if (a >= 0 && b >= 0 && b <= a)
        ok = false;
    if (w >= 0 && !Weekend(f + w))
        ok = false;
    x.Step();
    const bool threw = Throws([&] { Holidays::AddCenter(String_(name), h, ww); });
    if (threw == ok)
        x.Fail("accept", "registering '%s' with holidays %d,%d and working weekend %d %s", name.c_str(), a, b, w, ok ? "is rejected" : "is accepted");
    if (ok) {
        const Holidays_ r{String_(name)};
        for (int k = 0; k < 5; ++k)
            if (r.IsHoliday(D(f + k)) != (k == a || k == b) || r.IsWorkWeekends(D(f + k)) != (k == w))
                x.Fail("registered", "'%s' differs from what was registered", name.c_str());
    }
    for (int k : {5, 0, 511, 77}) {
        const Holidays_ r{String_(CALS[k].name)};
        for (int z = W0; z < W0 + NDAYS; ++z)
            if (r.IsHoliday(D(z)) != (CALS[k].h.count(z) > 0) || r.IsWorkWeekends(D(z)) != (CALS[k].w.count(z) > 0))
                x.Fail("others", "registering '%s' changed calendar '%s'", name.c_str(), CALS[k].name.c_str());
    }
    if (!Throws([] { Holidays_ bad(String_("NOWHERE")); }) || !Throws([] { Holidays_ bad(String_("K5 NOWHERE")); }))
        x.Fail("unknown", "an unknown center is accepted");
    x.Outcome(ok);
    x.State(mc::Mix(mc::Mix(a + 1, b + 1), mc::Mix(w + 1, nm)));
}

MC_SECTION("long-intervals", "shipped calendars and their combination: every start 1990..2040 (every 3rd day) x ends every 41 days over the same 50 years, both directions", 1) {
    static const int LO = Day(1990, 1, 1), HI = Day(2040, 1, 1);
    static const char* N[] = {"CN.SSE", "CN.IB", "CN.SSE CN.IB", ""};
    static std::vector<std::vector<int>> sum;
    if (sum.empty())
        for (int which = 0; which < 4; ++which) {
            auto hol = [&](int d) { return which == 3 ? false : which < 2 ? Ship(which).h.count(d) > 0 : Ship(0).h.count(d) || Ship(1).h.count(d); };
            auto ww = [&](int d) { return which == 3 ? false : which < 2 ? Ship(which).w.count(d) > 0 : Ship(1).w.count(d) > 0; };
            std::vector<int> s{0};
            for (int d = LO; d < HI; ++d)
                s.push_back(s.back() + (ww(d) || (!Weekend(d) && !hol(d))));
            sum.push_back(s);
        }
    const int which = x.Choose(4);
    const Holidays_ h{String_(N[which])};
    const CountBusDays_ cnt(h);
    const int z = LO + 3 * x.Choose((HI - LO) / 3);
    for (int e = z + x.Choose(1); e <= HI; e += 41) {
        x.Step();
        const int want = sum[which][e - LO] - sum[which][z - LO];
        if (cnt(D(z), D(e)) != want)
            x.Fail("long-count", "'%s': %d business days in [%s, %s), expected %d", N[which], cnt(D(z), D(e)), Str(z).c_str(), Str(e).c_str(), want);
        if (e > z && cnt(D(e), D(z)) != 0)
            x.Fail("count-empty", "reversed interval counts business days");
    }
    x.State(mc::Mix(which, z));
}

MC_SECTION("many-centers", "combinations of 1..24 centers of 9-day calendars with few holidays each, rotated 12 ways, all dates and intervals of 20 days; runs of holidays of 1..60 days", 1) {
    if (x.Flip()) {
        // long closures: next / previous business day far away
        static int serial = 0;
        const int len = 1 + x.Choose(60), start = x.Choose(7);
        Vector_<Date_> h;
        for (int k = 0; k < len; ++k)
            if (!Weekend(W0 + start + k))
                h.push_back(D(W0 + start + k));
        const std::string name = "L" + std::to_string(serial++) + "_" + std::to_string(getpid());
        Holidays::AddCenter(String_(name), h);
        const Holidays_ c{String_(name)};
        const CountBusDays_ cnt(c);
        auto bus = [&](int z) { return !Weekend(z) && (z < W0 + start || z >= W0 + start + len); };
        for (int z = W0 - 5; z < W0 + start + len + 12; ++z) {
            int n = z, p = z;
            while (!bus(n))
                ++n;
            while (!bus(p))
                --p;
            x.Step(3);
            if (Z(Holidays::NextBus(c, D(z))) != n || Z(Holidays::PrevBus(c, D(z))) != p)
                x.Fail("closure", "closure of %d days from %s: next of %s is %s, previous %s", len, Str(W0 + start).c_str(), Str(z).c_str(), Str(Z(Holidays::NextBus(c, D(z)))).c_str(), Str(Z(Holidays::PrevBus(c, D(z)))).c_str());
            int want = 0;
            for (int d = W0 - 5; d < z; ++d)
                want += bus(d);
            if (cnt(D(W0 - 5), D(z)) != want)
                x.Fail("closure-count", "closure of %d days: %d business days before %s", len, cnt(D(W0 - 5), D(z)), Str(z).c_str());
        }
        x.State(mc::Mix(len, start));
        return;
    }
    const int n = 1 + x.Choose(24), rot = x.Choose(12);
    std::vector<int> ks;
    std::string name;
    for (int i = 0; i < n; ++i) {
        const int b = (i + rot) % 9, b2 = (i * 5 + rot) % 24;
        // one or no day closed each; beyond the first nine mostly empty calendars (distinct names)
        const int mask = b2 < 5 ? 1 << b : b2 < 8 ? 1 << b | 1 << (rot % 9) : 0;
        ks.push_back(mask);
        name += (i ? " " : "") + CALS[mask].name;
    }
    CheckAll(x, ks, name, Holidays_(String_(name)), x.Flip(), W0 - 4, W0 + 16);
    CheckAll(x, ks, name, Holidays_(String_(name)), false, W0 - 4, W0 + 16);
    x.State(mc::HashStr(name));
}
