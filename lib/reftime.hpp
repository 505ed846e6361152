// Reference calendar used as oracle by the time harnesses: day number 0 = 1970-01-01.
#pragma once
#include <array>
#include <dal/platform/platform.hpp>
#include <dal/time/date.hpp>
#include <dal/utilities/exceptions.hpp>
#include <string>

namespace ref {
    struct Ymd_ {
        int y, m, d;
    };
    inline bool Leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
    inline int Dim(int y, int m) {
        static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        return m == 2 && Leap(y) ? 29 : D[m - 1];
    }
    // days_from_civil (H. Hinnant)
    inline int Day(int y, int m, int d) {
        y -= m <= 2;
        const int era = (y >= 0 ? y : y - 399) / 400;
        const int yoe = y - era * 400;
        const int doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
        const int doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return era * 146097 + doe - 719468;
    }
    inline Ymd_ Civil(int z) {
        z += 719468;
        const int era = (z >= 0 ? z : z - 146096) / 146097;
        const int doe = z - era * 146097;
        const int yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        const int y = yoe + era * 400;
        const int doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        const int mp = (5 * doy + 2) / 153;
        const int d = doy - (153 * mp + 2) / 5 + 1;
        const int m = mp + (mp < 10 ? 3 : -9);
        return {y + (m <= 2), m, d};
    }
    inline int Dow(int z) { return ((z + 4) % 7 + 7) % 7; } // Sunday = 0
    inline bool Weekend(int z) { return Dow(z) % 6 == 0; }
    inline Dal::Date_ D(int z) { return Dal::Date::FromExcel(25569 + z); }
    inline int Z(const Dal::Date_& d) { return d.IsValid() ? Dal::Date::ToExcel(d) - 25569 : -1; }
    inline std::string Str(int z) {
        const Ymd_ t = Civil(z);
        char b[64];
        snprintf(b, sizeof b, "%04d-%02d-%02d", t.y, t.m, t.d);
        return b;
    }
    inline int AddMonths(int z, int k) {
        const Ymd_ t = Civil(z);
        const int mm = t.y * 12 + t.m - 1 + k;
        const int y = mm / 12, m = mm % 12 + 1;
        return Day(y, m, std::min(t.d, Dim(y, m)));
    }
    template <class F_> bool Throws(F_ f) {
        try {
            f();
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
} // namespace ref
