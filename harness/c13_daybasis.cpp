// C13: day-count fractions for all date pairs of windows that cover leap years, century years, month and year ends.
#include "reftime.hpp"
#include <dal/time/daybasis.hpp>
#include "mc.hpp"
using namespace Dal;
using namespace ref;

namespace {
    struct W_ {
        int from, len;
    };
    // first dates enumerated day by day; second dates within `len` days after
    const std::vector<std::pair<int, int>> WINDOWS = {{Day(2003, 12, 20), 1200}, {Day(2007, 1, 1), 800}, {Day(2019, 12, 25), 900}, {Day(2099, 6, 1), 900}};
    double RefActAct(int a, int b) {
        double r = 0;
        for (int z = a; z < b;) {
            const int y = Civil(z).y;
            const int ny = Day(y + 1, 1, 1);
            const int stop = std::min(ny, b);
            r += (stop - z) / (Leap(y) ? 366. : 365.);
            z = stop;
        }
        return r;
    }
    double RefBond(int a, int b) {
        Ymd_ p = Civil(a), q = Civil(b);
        const bool f1 = p.m == 2 && p.d == Dim(p.y, 2), f2 = q.m == 2 && q.d == Dim(q.y, 2);
        int d1 = p.d, d2 = q.d;
        if (f1 && f2)
            d2 = 30;
        if (f1)
            d1 = 30;
        if (d2 == 31 && d1 >= 30)
            d2 = 30;
        if (d1 == 31)
            d1 = 30;
        return (360 * (q.y - p.y) + 30 * (q.m - p.m) + d2 - d1) / 360.;
    }
    bool HasFeb29(int a, int b) { // in (a, b]
        for (int y = Civil(a).y; y <= Civil(b).y; ++y)
            if (Leap(y) && Day(y, 2, 29) > a && Day(y, 2, 29) <= b)
                return true;
        return false;
    }
    const DayBasis_ A360("ACT_360"), A365("ACT_365F"), AA("ACT_ACT"), L("ACT_365L"), B("BOND");
    void Check(mc::Ctx_& x, const char* what, double got, double want, int a, int b) {
        x.Step();
        if (!(fabs(got - want) <= 1e-12 * (1 + fabs(want))))
            x.Fail(what, "%s from %s to %s: %.15g, expected %.15g", what, Str(a).c_str(), Str(b).c_str(), got, want);
    }
} // namespace

MC_SECTION("pairs", "all ordered pairs within 800-1200 day windows around 2004, 2008, 2020-2022 and 2100, plus long periods up to 60 years", 1) {
    int total = 0;
    for (auto& w : WINDOWS)
        total += w.second;
    int k = x.Choose(total), w = 0;
    while (k >= WINDOWS[w].second)
        k -= WINDOWS[w++].second;
    const int a = WINDOWS[w].first + k;
    std::vector<int> ends;
    for (int i = a; i < WINDOWS[w].first + WINDOWS[w].second; ++i)
        ends.push_back(i);
    for (int i = 400; i < 16000; i += 61)
        ends.push_back(a + i);
    for (int b : ends) {
        const Date_ f = D(a), t = D(b);
        Check(x, "ACT_360", A360(f, t, nullptr), (b - a) / 360., a, b);
        Check(x, "ACT_365F", A365(f, t, nullptr), (b - a) / 365., a, b);
        Check(x, "ACT_ACT", AA(f, t, nullptr), RefActAct(a, b), a, b);
        Check(x, "BOND", B(f, t, nullptr), RefBond(a, b), a, b);
        const int mid = (a + b) / 2;
        Check(x, "ACT_ACT-additive", AA(f, D(mid), nullptr) + AA(D(mid), t, nullptr), AA(f, t, nullptr), a, b);
        Check(x, "ACT_360-neg", A360(t, f, nullptr), (a - b) / 360., b, a);
        Check(x, "ACT_365F-neg", A365(t, f, nullptr), (a - b) / 365., b, a);
        if (b > a) {
            DayBasis::Context_ annual(false, f, t, 12), semi(false, f, t, 6);
            Check(x, "ACT_365L-annual", L(f, t, &annual), (b - a) / (HasFeb29(a, b) ? 366. : 365.), a, b);
            Check(x, "ACT_365L-semi", L(f, t, &semi), (b - a) / (Leap(Civil(b).y) ? 366. : 365.), a, b);
            // accrual inside a longer nominal period
            const int e = b + 31;
            DayBasis::Context_ annual2(false, f, D(e), 12), q2(false, f, D(e), 3);
            Check(x, "ACT_365L-annual-nominal", L(f, t, &annual2), (b - a) / (HasFeb29(a, e) ? 366. : 365.), a, b);
            Check(x, "ACT_365L-quarterly-nominal", L(f, t, &q2), (b - a) / (Leap(Civil(e).y) ? 366. : 365.), a, b);
        }
    }
    x.State(mc::Mix(1, a));
    if (x.WantSample())
        x.Sample("from " + Str(a) + " to every date of the window");
    if (!Throws([&] { L(D(a), D(a + 1), nullptr); }))
        x.Fail("365L-context", "ACT/365L without a nominal period is not rejected");
}

MC_SECTION("names", "every documented name of every basis", 1) {
    static const std::vector<std::pair<const char*, const DayBasis_*>> NAMES = {
        {"ACT_365F", &A365}, {"ACT/365F", &A365}, {"ACT_365FIXED", &A365}, {"ACT/365FIXED", &A365}, {"act/365f", &A365}, {"ACT_365L", &L}, {"ACT/365L", &L}, {"ISMA_Year", &L},
        {"ACT_360", &A360}, {"ACT/360", &A360}, {"MONEY", &A360}, {"ACTUAL/360", &A360}, {"ACT_ACT", &AA}, {"ACT/ACT", &AA}, {"ACTUAL/ACTUAL", &AA},
        {"BOND", &B}, {"30_360", &B}, {"30/360", &B}, {"30_360_US", &B}};
    const auto& n = NAMES[x.Choose((int)NAMES.size())];
    x.Step();
    const DayBasis_ b{String_(n.first)};
    DayBasis::Context_ c(false, D(Day(2020, 1, 31)), D(Day(2021, 3, 30)), 6);
    if (b(D(Day(2020, 1, 31)), D(Day(2021, 3, 30)), &c) != (*n.second)(D(Day(2020, 1, 31)), D(Day(2021, 3, 30)), &c) || !(b == *n.second))
        x.Fail("name", "%s is not its basis", n.first);
    const DayBasis_ again{String_(b.String())};
    if (!(again == b))
        x.Fail("name-back", "%s does not read back", b.String());
    x.State(mc::HashStr(n.first));
}
