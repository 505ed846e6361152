// C10: calendar dates, date strings, date-times.  Reference: proleptic Gregorian civil calendar (days-from-civil).
#include <dal/platform/platform.hpp>
#include <dal/time/date.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/utilities/exceptions.hpp>
#include "mc.hpp"
using namespace Dal;

namespace {
    struct Ymd_ {
        int y, m, d;
    };
    bool Leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
    int Dim(int y, int m) {
        static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        return m == 2 && Leap(y) ? 29 : D[m - 1];
    }
    // tables: day number 0 = 1970-01-01 (a Thursday), Excel serial 25569
    const int N = 65521; // Minimum .. Maximum
    std::vector<Ymd_> T;
    std::map<std::array<int, 3>, int> INV;
    void Build() {
        int y = 1970, m = 1, d = 1;
        for (int i = 0; i < N; ++i) {
            T.push_back({y, m, d});
            INV[{y, m, d}] = i;
            if (++d > Dim(y, m)) {
                d = 1;
                if (++m > 12)
                    m = 1, ++y;
            }
        }
    }
    int Idx(int y, int m, int d) {
        auto p = INV.find({y, m, d});
        return p == INV.end() ? -1 : p->second;
    }
    Date_ D(int i) { return Date::FromExcel(25569 + i); }
    std::string Str(const Ymd_& t) {
        char b[32];
        snprintf(b, sizeof b, "%04d-%02d-%02d", t.y, t.m, t.d);
        return b;
    }
    struct Init_ {
        Init_() { mc::g_init = Build; }
    } s_init;
    template <class F_> bool Throws(F_ f) {
        try {
            f();
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
} // namespace
#include <array>

MC_SECTION("calendar", "every supported date 1970-01-01..2149-05-22", 1) {
    const int i = x.Choose(N);
    const Ymd_ t = T[i];
    const Date_ a = D(i);
    x.Step(12);
    x.State(mc::Mix(1, i));
    if (x.WantSample())
        x.Sample("serial " + std::to_string(25569 + i) + " = " + Str(t));
    if (i == 0 && !(a == Date::Minimum()))
        x.Fail("min", "minimum is not 1970-01-01");
    if (i == N - 1 && !(a == Date::Maximum()))
        x.Fail("max", "maximum is not 2149-05-22: %s", Date::ToString(Date::Maximum()).c_str());
    if (!a.IsValid() || Date::ToExcel(a) != 25569 + i || NumericValueOf(a) != 25569. + i)
        x.Fail("serial", "Excel serial %d -> %d", 25569 + i, Date::ToExcel(a));
    if (Date::Year(a) != t.y || Date::Month(a) != t.m || Date::Day(a) != t.d)
        x.Fail("ymd", "%s decomposes into %d-%d-%d", Str(t).c_str(), Date::Year(a), Date::Month(a), Date::Day(a));
    if (!(Date_(t.y, t.m, t.d) == a))
        x.Fail("from-ymd", "%s composes into %s", Str(t).c_str(), Date::ToString(Date_(t.y, t.m, t.d)).c_str());
    const int dow = (i + 4) % 7; // Thursday = 4, Sunday = 0
    if (Date::DayOfWeek(a) != dow || Date::IsWeekEnd(a) != (dow == 0 || dow == 6))
        x.Fail("dow", "%s day of week %d, expected %d", Str(t).c_str(), Date::DayOfWeek(a), dow);
    if (Date::DaysInMonth(t.y, t.m) != Dim(t.y, t.m))
        x.Fail("dim", "days in month of %s: %d", Str(t).c_str(), Date::DaysInMonth(t.y, t.m));
    if (i + Dim(t.y, t.m) - t.d < 65530 && Date::ToExcel(Date::EndOfMonth(a)) != 25569 + i + Dim(t.y, t.m) - t.d)
        x.Fail("eom", "end of month of %s is %s", Str(t).c_str(), Date::ToString(Date::EndOfMonth(a)).c_str());
    const String_ s = Date::ToString(a);
    if (std::string(s.c_str()) != Str(t))
        x.Fail("to-string", "%s printed as %s", Str(t).c_str(), s.c_str());
    if (!Date::IsDateString(s) || !(Date::FromString(s) == a))
        x.Fail("from-string", "%s does not read back", s.c_str());
    char us[64];
    snprintf(us, sizeof us, "%d/%d/%d", t.m, t.d, t.y);
    if (!Date::IsDateString(String_(us)) || !(Date::FromString(String_(us)) == a))
        x.Fail("from-us", "%s does not read back", us);
    snprintf(us, sizeof us, "%02d/%02d/%02d", t.m, t.d, t.y % 100);
    if (t.y >= 2000 && t.y < 2100 && !(Date::FromString(String_(us)) == a))
        x.Fail("from-us2", "%s does not read back", us);
    if (i + 1 < N) {
        Date_ b = a;
        ++b;
        if (!(b == D(i + 1)) || !(a < b) || b < a || a == b || !(a != b) || !(b > a) || !(a <= b) || b <= a || a >= b || !(b >= a) || b - a != 1 || a - b != -1)
            x.Fail("succ", "%s and its successor are inconsistent", s.c_str());
        --b;
        if (!(b == a) || a < b || !(a <= b) || !(a >= b))
            x.Fail("pred", "-- does not undo ++ at %s", s.c_str());
        DateTime_ p(a, 0.75), q(b.AddDays(1), 0.25);
        if (!(p < q) || q < p || !(q > p) || p - q != -0.5 || q - p != 0.5)
            x.Fail("dt-order", "date-time order at %s", s.c_str());
    }
}

MC_SECTION("serials-outside", "every Excel serial in [-70000,200000]", 1) {
    const int s = x.Choose(270001) - 70000;
    x.Step();
    const Date_ a = Date::FromExcel(s);
    x.State(mc::Mix(2, a.IsValid()));
    if (a.IsValid() != (s > 25568 && s < 25568 + 65536))
        x.Fail("range", "serial %d valid=%d", s, a.IsValid());
    if (a.IsValid() && Date::ToExcel(a) != s)
        x.Fail("range-serial", "serial %d becomes %d", s, Date::ToExcel(a));
}

MC_SECTION("ymd-outside", "all (y,m,d) with 1900<=y<=2300 that are real days", 1) {
    const int y = 1900 + x.Choose(401);
    for (int m = 1; m <= 12; ++m)
        for (int d = 1; d <= Dim(y, m); ++d) {
            x.Step();
            const Date_ a(y, m, d);
            const int i = Idx(y, m, d);
            if (i >= 0 && Date::ToExcel(a) != 25569 + i)
                x.Fail("ymd", "%d-%d-%d", y, m, d);
            if (i < 0 && a.IsValid() && !(Date::Maximum() < a))
                x.Fail("overflow", "%d-%d-%d is outside the range but becomes %s", y, m, d, Date::ToString(a).c_str());
            x.State(mc::Mix(3, i));
        }
}

MC_SECTION("add-days", "every date x offsets {0,+-1..+-40,+-365,+-366,+-1461,+-10000,+-36524, to both ends}", 1) {
    const int i = x.Choose(N);
    static std::vector<int> OFF = [] {
        std::vector<int> v;
        for (int k = -40; k <= 40; ++k)
            v.push_back(k);
        for (int k : {365, 366, 1461, 10000, 36524, 60000})
            v.push_back(k), v.push_back(-k);
        return v;
    }();
    auto one = [&](int k) {
        if (i + k < 0 || i + k >= N)
            return;
        x.Step();
        const Date_ a = D(i).AddDays(k);
        if (Date::ToExcel(a) != 25569 + i + k || a - D(i) != k)
            x.Fail("add", "%s + %d days = %s", Str(T[i]).c_str(), k, Date::ToString(a).c_str());
    };
    for (int k : OFF)
        one(k);
    one(-i);
    one(N - 1 - i);
    x.State(mc::Mix(4, i));
}

MC_SECTION("add-months", "every date x offsets -60..60 (thorough -2160..2160) x preserve-EOM", 1) {
    const int i = x.Choose(N);
    const Ymd_ t = T[i];
    const int R = x.thorough_ ? 2160 : 60;
    auto one = [&](int k) {
        int mm = t.y * 12 + (t.m - 1) + k;
        const int y = mm / 12, m = mm % 12 + 1;
        for (int eom = 0; eom < 2; ++eom) {
            const int dim = Dim(y, m);
            const int d = (eom && t.d == Dim(t.y, t.m)) || t.d > dim ? dim : t.d;
            const int j = Idx(y, m, d);
            if (j < 0)
                continue;
            x.Step();
            const Date_ a = Date::AddMonths(D(i), k, eom == 1);
            if (Date::ToExcel(a) != 25569 + j)
                x.Fail("months", "%s + %d months (eom=%d) = %s, expected %s", Str(t).c_str(), k, eom, Date::ToString(a).c_str(), Str(T[j]).c_str());
        }
    };
    for (int k = -R; k <= R; ++k)
        one(k);
    if (!x.thorough_)
        for (int k = 72; k <= 2160; k += 37)
            one(k), one(-k);
    x.State(mc::Mix(5, i));
}

MC_SECTION("datetime", "every second of the day x 3 dates: fields, text, milliseconds", 1) {
    const int s = x.Choose(86400);
    static const int DS[] = {0, 18262, N - 1};
    const int i = DS[x.Choose(3)];
    const int h = s / 3600, m = s / 60 % 60, sec = s % 60;
    const DateTime_ a(D(i), h, m, sec);
    x.Step(8);
    x.State(mc::Mix(6, s));
    if (!a.IsValid() || !(a.Date() == D(i)) || fabs(a.Frac() * 86400 - s) > 1e-6)
        x.Fail("frac", "%02d:%02d:%02d has fraction %.17g", h, m, sec, a.Frac());
    if (DateTime::Hour(a) != h || DateTime::Minute(a) != m)
        x.Fail("hm", "%02d:%02d:%02d reported as %d h %d m", h, m, sec, DateTime::Hour(a), DateTime::Minute(a));
    char b[64];
    snprintf(b, sizeof b, "%02d:%02d:%02d", h, m, sec);
    if (std::string(DateTime::TimeString(a).c_str()) != b)
        x.Fail("time-string", "%s printed as %s", b, DateTime::TimeString(a).c_str());
    const String_ full = DateTime::ToString(a);
    if (std::string(full.c_str()) != Str(T[i]) + " " + b)
        x.Fail("to-string", "%s printed as %s", b, full.c_str());
    if (!DateTime::IsDateTimeString(full))
        x.Fail("is-string", "%s not recognised", full.c_str());
    const DateTime_ r = DateTime::FromString(full);
    if (!(r == a) || r < a || a < r || !(r <= a) || !(r >= a) || r != a)
        x.Fail("round-trip", "%s reads back as %s", full.c_str(), DateTime::ToString(r).c_str());
    const long long ms = DateTime::MSec(a);
    if (ms != 86400000LL * i + 1000LL * s)
        x.Fail("msec", "%s is %lld ms", full.c_str(), ms);
    const DateTime_ back(ms);
    if (!(back.Date() == a.Date()) || fabs(back.Frac() - a.Frac()) > 1e-9 || std::string(DateTime::ToString(back).c_str()) != std::string(full.c_str()))
        x.Fail("msec-back", "%s via ms is %s", full.c_str(), DateTime::ToString(back).c_str());
    if (fabs(NumericValueOf(a) - (25569 + i + s / 86400.)) > 1e-9)
        x.Fail("numeric", "%s numeric value", full.c_str());
    if (s % 60 == 0) {
        snprintf(b, sizeof b, "%02d:%02d", h, m);
        const DateTime_ q = DateTime::FromString(String_(Str(T[i]) + " " + b));
        if (!(q == a))
            x.Fail("hhmm", "%s reads back as %s", b, DateTime::ToString(q).c_str());
    }
}

MC_SECTION("datetime-ms", "every millisecond of the first hour, plus every 997th of the day", 1) {
    const long long k = x.Choose(3600000 / 40 + 86400000 / 997 / 40);
    for (int j = 0; j < 40; ++j) {
        long long ms = k * 40 + j;
        if (ms >= 3600000)
            ms = (ms - 3600000) * 997;
        if (ms >= 86400000)
            return;
        ms += 86400000LL * 20000;
        x.Step();
        const DateTime_ a(ms);
        if (DateTime::MSec(a) != ms)
            x.Fail("ms", "%lld ms becomes %lld", ms, DateTime::MSec(a));
    }
    x.State(mc::Mix(7, k));
}

MC_SECTION("datetime-add", "all pairs of quarter-hour times and increments up to 3 days; order and difference of all pairs", 1) {
    const int q = x.Choose(96), inc = 1 + x.Choose(288);
    const int base = 10000;
    DateTime_ a(D(base), q / 4, q % 4 * 15);
    const DateTime_ b = a + inc / 96.;
    x.Step(2);
    const double want = base + 25569 + (q + inc) / 96.;
    if (fabs(NumericValueOf(b) - want) > 1e-9 || !b.IsValid() || fabs((b - a) - inc / 96.) > 1e-9 || !(a < b) || b < a || a == b)
        x.Fail("add", "quarter %d + %d/96 day = %s", q, inc, DateTime::ToString(b).c_str());
    DateTime_ c = a;
    c += inc / 96.;
    if (!(c == b))
        x.Fail("add-assign", "+= differs from +");
    const int q2 = inc % 96;
    const DateTime_ e(D(base), q2 / 4, q2 % 4 * 15);
    if ((a < e) != (q < q2) || (a == e) != (q == q2) || (a > e) != (q > q2) || (a <= e) != (q <= q2) || (a >= e) != (q >= q2) || (a != e) != (q != q2) ||
        fabs((a - e) - (q - q2) / 96.) > 1e-12)
        x.Fail("order", "order of %d and %d", q, q2);
    x.State(mc::Mix(8, q * 1000 + inc));
}

MC_SECTION("strings", "all strings of length <=6 over {0,1,9,-,/,space,:,a}: reader accepts exactly what the recogniser accepts", 2) {
    static const char A[] = {'1', '9', '0', '-', '/', ' ', ':', 'a'};
    const int n = x.Choose(7);
    std::string s;
    for (int i = 0; i < n; ++i)
        s += A[x.Choose(8)];
    x.Step(3);
    auto isDate = [](const std::string& t) {
        for (char sep : {'-', '/'}) {
            int parts = 1, len = 0;
            bool ok = !t.empty();
            for (char c : t) {
                if (c == sep) {
                    ok = ok && len > 0;
                    ++parts;
                    len = 0;
                } else if (c >= '0' && c <= '9')
                    ++len;
                else
                    ok = false;
            }
            if (ok && parts == 3 && len > 0)
                return true;
        }
        return false;
    };
    const bool want = isDate(s);
    if (Date::IsDateString(String_(s)) != want)
        x.Fail("is-date", "'%s' recognised=%d", s.c_str(), !want);
    // read exactly when it names a supported day (31 December 1969 stands for no date)
    int f[3] = {-1, -1, -1};
    bool exists = want;
    if (want) {
        const bool us = s.find('/') != std::string::npos;
        sscanf(s.c_str(), us ? "%d/%d/%d" : "%d-%d-%d", f, f + 1, f + 2);
        int y = f[0], m = f[1], d = f[2];
        if (us) {
            y = f[2], m = f[0], d = f[1];
            if (s.size() - s.rfind('/') == 3)
                y += 2000;
        }
        static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        exists = m >= 1 && m <= 12 && d >= 1 && y >= 1970 && y <= 2148 && d <= days[m - 1] + (m == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0));
    }
    if (Throws([&] { Date::FromString(String_(s)); }) == exists)
        x.Fail("from", "'%s' names a day: %d, but reading %s", s.c_str(), exists, exists ? "fails" : "succeeds");
    x.State(mc::HashStr(s));
    x.Outcome(want);
}

MC_SECTION("impossible-dates", "all (y,m,d) with y in 1960..2160, m in 0..14, d in 0..33 as texts of both forms: read exactly when the day exists and is supported", 1) {
    const int y = 1960 + x.Choose(201);
    for (int m = 0; m <= 14; ++m)
        for (int d = 0; d <= 33; ++d)
            for (int form = 0; form < 2; ++form) {
                char b[32];
                snprintf(b, sizeof b, form ? "%d/%d/%d" : "%04d-%02d-%02d", form ? m : y, form ? d : m, form ? y : d);
                static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
                const bool real = m >= 1 && m <= 12 && d >= 1 && d <= days[m - 1] + (m == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0));
                const bool in = y >= 1970 && (y < 2149 || (y == 2149 && (m < 6 || (m == 6 && d <= 5))));
                if (real && y == 1969 && m == 12 && d == 31)
                    continue; // how no date prints
                x.Step();
                Date_ r;
                const bool threw = Throws([&] { r = Date::FromString(String_(b)); });
                if (threw == (real && in))
                    x.Fail("from", "'%s' is %s", b, threw ? "rejected" : "accepted");
                if (!threw && (Date::Year(r) != y || Date::Month(r) != m || Date::Day(r) != d))
                    x.Fail("from", "'%s' reads as %s", b, Date::ToString(r).c_str());
            }
}

MC_SECTION("time-strings", "'2020-02-29 ' + all h:m(:s) combinations incl. out of range fields 0..25 x 0..61 x {none,0..61}", 1) {
    const int h = x.Choose(27), m = x.Choose(62), s = x.Choose(63) - 1;
    char b[64];
    if (s < 0)
        snprintf(b, sizeof b, "2020-02-29 %d:%d", h, m);
    else
        snprintf(b, sizeof b, "2020-02-29 %d:%d:%d", h, m, s);
    const bool ok = h < 24 && m < 60 && s < 60;
    x.Step();
    x.State(mc::HashStr(b));
    x.Outcome(ok);
    if (!DateTime::IsDateTimeString(String_(b)))
        x.Fail("is", "'%s' not recognised", b);
    DateTime_ r;
    const bool threw = Throws([&] { r = DateTime::FromString(String_(b)); });
    if (threw == ok)
        x.Fail("accept", "'%s' %s", b, ok ? "rejected" : "accepted");
    if (ok && (DateTime::Hour(r) != h || DateTime::Minute(r) != m || fabs(r.Frac() * 86400 - (3600 * h + 60 * m + (s < 0 ? 0 : s))) > 1e-6))
        x.Fail("value", "'%s' reads as %s", b, DateTime::ToString(r).c_str());
}
