// C29: market conventions, accrual periods and deal descriptions, for every small history of facts and inclusions.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/vectors.hpp>
#include <dal/string/strings.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/currency/currencydata.hpp>
#include <dal/currency/init.hpp>
#include <dal/indice/index/equity.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/time/calendars/init.hpp>
#include <dal/protocol/accrualperiod.hpp>
#include <dal/protocol/assetvalue.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/conventions.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/payment.hpp>
#include <dal/protocol/underlying.hpp>
#include <cmath>
#include <cstdarg>
#include <memory>
#include <optional>
using namespace Dal;

namespace {
    __attribute__((format(printf, 2, 3))) void Seen(mc::Ctx_& x, const char* fmt, ...) {
        char buf[300];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        x.State(std::hash<std::string>()(buf));
        x.Sample(buf);
    }
    template <class F> bool Throws(F f) {
        try {
            f();
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
} // namespace

namespace {
    std::string Iso(const Date_& d) {
        char b[32];
        snprintf(b, sizeof b, "%04d-%02d-%02d", Date::Year(d), Date::Month(d), Date::Day(d));
        return b;
    }
    // Monday 3 June 2024; the calendars Pmm have a holiday on each day of the mask, counted from there
    const Date_& Monday() {
        static const Date_ r(2024, 6, 3);
        return r;
    }
    struct Init_ {
        Init_() {
            Calendars_::Init();
            CcyFacts_::Init();
            for (int m = 0; m < 128; ++m) {
                Vector_<Date_> h;
                for (int d = 0; d < 7; ++d)
                    if (m >> d & 1)
                        h.push_back(Monday().AddDays(d < 5 ? d : d + 2)); // five days of one week and two of the next
                Holidays::AddCenter(String_("P" + std::to_string(m)), h);
            }
        }
    } the_init;
    bool Bus(int mask, const Date_& d) {
        const int k = d - Monday(), wd = ((k % 7) + 7) % 7;
        if (wd >= 5)
            return false;
        const int bit = k < 0 ? -1 : k < 5 ? k : k >= 7 && k < 9 ? k - 2 : -1;
        return bit < 0 || !(mask >> bit & 1);
    }
} // namespace

MC_SECTION("libor_dates", "all 128 holiday patterns over seven business days x fixing lags 0..3 x 16 dates: start after fixing, fixing before start, inverse of each other on business days", 1) {
    const int mask = x.Choose(128), lag = x.Choose(4);
    const Ccy_ ccy("JPY");
    Ccy::Conventions::LiborFixDays().XWrite()(ccy, lag);
    Ccy::Conventions::LiborFixHolidays().XWrite()(ccy, Holidays_(String_("P" + std::to_string(mask))));
    for (int k = -4; k < 12; ++k) {
        x.Step();
        const Date_ d = Monday().AddDays(k);
        Date_ s = d, f = d;
        if (lag == 0) {
            while (!Bus(mask, s))
                s = s.AddDays(1);
            while (!Bus(mask, f))
                f = f.AddDays(-1);
        }
        for (int n = 0; n < lag; ++n) {
            do
                s = s.AddDays(1);
            while (!Bus(mask, s));
            do
                f = f.AddDays(-1);
            while (!Bus(mask, f));
        }
        const Date_ gs = Libor::StartFromFix(ccy, d);
        const DateTime_ gf = Libor::FixFromStart(ccy, d);
        if (!(gs == s))
            x.Fail("start", "lag %d calendar %d: fixing on %s starts %s, want %s", lag, mask, Iso(d).c_str(), Iso(gs).c_str(), Iso(s).c_str());
        if (!(gf.Date() == f) || DateTime::Hour(gf) != 10 || DateTime::Minute(gf) != 0)
            x.Fail("fix", "lag %d calendar %d: start %s fixes %s, want %s at 10:00", lag, mask, Iso(d).c_str(), DateTime::ToString(gf).c_str(), Iso(f).c_str());
        if (Bus(mask, d) && (!(Libor::FixFromStart(ccy, gs).Date() == d) || !(Libor::StartFromFix(ccy, gf.Date()) == d)))
            x.Fail("inverse", "lag %d calendar %d: start and fixing of %s are not inverse", lag, mask, Iso(d).c_str());
    }
    Seen(x, "calendar %d lag %d", mask, lag);
}

namespace {
    // what has been written so far in this process (facts cannot be withdrawn)
    template <class T> struct Model_ {
        std::optional<T> def;
        std::map<int, T> own;
    };
    template <class T, class SAME> void CheckFact(mc::Ctx_& x, const char* what, const Ccy::Fact_<T>& f, const Model_<T>& m, SAME same) {
        const auto all = CcyListAll();
        for (int c = 0; c < (int)all.size(); ++c) {
            if (all[c] == Ccy_("JPY"))
                continue; // written by the other section
            auto p = m.own.find(c);
            const T* want = p != m.own.end() ? &p->second : m.def ? &*m.def : nullptr;
            if (!want) {
                if (!Throws([&] { (void)f(all[c]); }))
                    x.Fail("invented", "%s of %s was never set", what, all[c].String());
                continue;
            }
            bool ok = false;
            if (Throws([&] { ok = same(f(all[c]), *want); }) || !ok)
                x.Fail("fact", "%s of %s is not what was written last", what, all[c].String());
        }
    }
    Model_<int> fix_days;
    Model_<Holidays_> pay_hols, fix_hols;
    Model_<DayBasis_> libor_basis, fixed_basis;
    bool seeded = false;
} // namespace

MC_SECTION("facts", "all sequences of 3 (quick) or 4 (thorough) writes (default or one of two currencies, two values) to each of five kinds of facts: every currency reads its own last value, else the last default, else is refused", 0) {
    if (!seeded) {
        seeded = true;
        const auto all = CcyListAll();
        for (int c = 0; c < (int)all.size(); ++c)
            if (all[c] == Ccy_("CNY")) {
                fix_days.own.insert({c, 1});
                fix_hols.own.insert({c, Holidays_(String_("CN.IB"))});
            }
        fix_days.def = 2;
    }
    auto same = [](const auto& a, const auto& b) { return a == b; };
    const auto all = CcyListAll();
    const int kind = x.Choose(5);
    for (int n = 0; n < (x.thorough_ ? 4 : 3); ++n) {
        const int who = x.Choose(3), v = x.Choose(2); // default, USD, CNY
        const int c = who == 1 ? 0 : (int)all.size() - 1;
        auto write = [&](auto& model, const auto& fact, const auto& val) {
            if (who == 0) {
                fact.XWrite().SetDefault(val);
                model.def = val;
            } else {
                fact.XWrite()(all[c], val);
                model.own.erase(c);
                model.own.insert({c, val});
            }
        };
        x.Step();
        if (kind == 0)
            write(fix_days, Ccy::Conventions::LiborFixDays(), v + 3);
        else if (kind == 1)
            write(pay_hols, Ccy::Conventions::SwapPayHolidays(), Holidays_(String_(v ? "CN.IB" : "P5")));
        else if (kind == 2)
            write(fix_hols, Ccy::Conventions::LiborFixHolidays(), Holidays_(String_(v ? "CN.SSE" : "P6")));
        else if (kind == 3)
            write(libor_basis, Ccy::Conventions::LiborDayBasis(), DayBasis_(v ? "ACT_360" : "ACT_365F"));
        else
            write(fixed_basis, Ccy::Conventions::SwapFixedDayBasis(), DayBasis_(v ? "30_360" : "ACT_ACT"));
        CheckFact(x, "fixing lag", Ccy::Conventions::LiborFixDays(), fix_days, same);
        CheckFact(x, "payment calendar", Ccy::Conventions::SwapPayHolidays(), pay_hols, same);
        CheckFact(x, "fixing calendar", Ccy::Conventions::LiborFixHolidays(), fix_hols, same);
        CheckFact(x, "floating basis", Ccy::Conventions::LiborDayBasis(), libor_basis, same);
        CheckFact(x, "fixed basis", Ccy::Conventions::SwapFixedDayBasis(), fixed_basis, same);
        CcyFacts_::Init(); // registering again changes nothing
    }
    Seen(x, "kind %d", kind);
}

MC_SECTION("rates", "all traded rates, clearers and period lengths, unset ones included: period and clearer identify the rate", 0) {
    struct Row_ {
        const char* rate;
        int months;
        const char* clearer;
        const char* found;
    };
    const std::vector<Row_> rows{{"LIBOR_3M_CME", 3, "CME", "LIBOR_3M_CME"}, {"LIBOR_3M_LCH", 3, "LCH", "LIBOR_3M_LCH"}, {"LIBOR_3M_FUT", 3, "CME", "LIBOR_3M_CME"}, {"LIBOR_6M_CME", 6, "CME", "LIBOR_6M_CME"}, {"LIBOR_6M_LCH", 6, "LCH", "LIBOR_6M_LCH"}};
    if (TradedRateListAll().size() != rows.size())
        x.Fail("list", "%d traded rates", (int)TradedRateListAll().size());
    for (auto& r : rows) {
        x.Step();
        const TradedRate_ t{String_(r.rate)};
        if (t.Period().Months() != r.months || std::string(t.Clearer().String()) != r.clearer)
            x.Fail("terms", "%s is %d months cleared at %s", r.rate, t.Period().Months(), t.Clearer().String());
        if (std::string(FindRate(t.Period(), t.Clearer()).String()) != r.found)
            x.Fail("find", "%s is found as %s", r.rate, FindRate(t.Period(), t.Clearer()).String());
    }
    for (auto& p : PeriodLengthListAll())
        for (auto& c : ClearerListAll()) {
            x.Step();
            const int m = p.Months();
            std::string want, got;
            for (auto& r : rows)
                if (r.months == m && c.String() == std::string(r.clearer) && std::string(r.rate) == r.found)
                    want = r.rate;
            if (Throws([&] { got = FindRate(p, c).String(); }) != want.empty() || got != want)
                x.Fail("pairs", "%d months at %s finds '%s'", m, c.String(), got.c_str());
        }
    if (!Throws([] { (void)TradedRate_().Period(); }) || !Throws([] { (void)TradedRate_().Clearer(); }) || !Throws([] { (void)PeriodLength_().Months(); }) || !Throws([] { (void)FindRate(PeriodLength_(String_("3M")), Clearer_()); }))
        x.Fail("unset", "an unset rate, clearer or period is accepted");
    const DateTime_ t(Date_(2024, 6, 3), 0.5);
    for (auto& c : CcyListAll())
        for (auto& r : TradedRateListAll()) {
            const LiborRate_ l(t, c, r);
            if (!(l.fixDate_ == t) || !(l.ccy_ == c) || !(l.rate_ == r))
                x.Fail("coupon", "a floating coupon keeps other terms");
        }
    Seen(x, "rates");
}

MC_SECTION("maturity", "every start date of 2023..2028 and of 2099..2101 x every period length: the same day of the later month, or its last day", 1) {
    const auto all = PeriodLengthListAll();
    const PeriodLength_ p = all[x.Choose((int)all.size())];
    static const int LEN[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    const int m = p == PeriodLength_(String_("ANNUAL")) ? 12 : p == PeriodLength_(String_("SEMI")) ? 6 : p == PeriodLength_(String_("3M")) ? 3 : 1;
    for (auto range : {std::make_pair(Date_(2023, 1, 1), 6 * 366), std::make_pair(Date_(2099, 1, 1), 2 * 366)})
        for (int k = 0; k < range.second; ++k) {
            x.Step();
            const Date_ d = range.first.AddDays(k);
            int y = Date::Year(d), mm = Date::Month(d) + m;
            if (mm > 12)
                mm -= 12, ++y;
            int len = LEN[mm - 1];
            if (mm == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0))
                len = 29;
            const Date_ want(y, mm, std::min((int)Date::Day(d), len)), got = Date::NominalMaturity(d, p, Ccy_("USD"));
            if (!(got == want))
                x.Fail("maturity", "%d months after %s is %s, want %s", m, Iso(d).c_str(), Iso(got).c_str(), Iso(want).c_str());
        }
    Seen(x, "%d months", m);
}

MC_SECTION("accrual", "all pairs of 14 dates x 5 day counts x with and without context x stub flags: periods keep their terms and their fraction is the day count's", 1) {
    const std::vector<Date_> D{Date_(2023, 1, 31), Date_(2023, 2, 28), Date_(2023, 3, 1), Date_(2023, 7, 31), Date_(2023, 8, 30), Date_(2023, 12, 31), Date_(2024, 1, 1), Date_(2024, 2, 28), Date_(2024, 2, 29), Date_(2024, 3, 31), Date_(2024, 6, 30), Date_(2024, 12, 31), Date_(2025, 2, 28), Date_(2025, 3, 31)};
    const Date_ a = x.Pick(D), b = x.Pick(D);
    for (auto name : {"ACT_365F", "ACT_365L", "ACT_360", "ACT_ACT", "BOND"})
        for (int ctx = 0; ctx < 4; ++ctx)
            for (double notional : {1.0, -2.5e6}) {
                x.Step();
                const DayBasis_ basis{String_(name)};
                Handle_<DayBasis::Context_> c;
                if (ctx)
                    c.reset(new DayBasis::Context_(ctx == 2, a, b, ctx == 3 ? 12 : 6));
                double want = 0, got = 0;
                const bool refused = Throws([&] { want = basis(a, b, c.get()); });
                AccrualPeriod_ p, q;
                const bool r1 = Throws([&] { p = AccrualPeriod_(a, b, notional, basis, c, ctx == 1); });
                if (r1 != refused)
                    x.Fail("refused", "%s from %s to %s is refused by the period or the day count only", name, Iso(a).c_str(), Iso(b).c_str());
                if (refused)
                    continue;
                got = p.dcf_;
                if (got != want || !(p.startDate_ == a) || !(p.endDate_ == b) || p.notional_ != notional || !(p.couponBasis_ == basis) || p.context_.get() != c.get() || p.isStub_ != (ctx == 1))
                    x.Fail("period", "%s from %s to %s accrues %.17g, want %.17g", name, Iso(a).c_str(), Iso(b).c_str(), got, want);
                if (!ctx) {
                    q = AccrualPeriod_(a, b, notional, basis);
                    if (q.dcf_ != want || !(q.startDate_ == a) || !(q.endDate_ == b) || q.notional_ != notional || !(q.couponBasis_ == basis) || !q.context_.IsEmpty() || q.isStub_)
                        x.Fail("plain", "%s from %s to %s accrues %.17g, want %.17g", name, Iso(a).c_str(), Iso(b).c_str(), q.dcf_, want);
                }
                // what a payment says of it
                const DateTime_ known(a, 0.25), et(b, 0.5);
                Payment::Conditions_ cond;
                if (cond.exerciseCondition_ != Payment::Conditions_::Exercise_::UNCONDITIONAL)
                    x.Fail("condition", "payments are conditional unless said otherwise");
                cond.exerciseCondition_ = Payment::Conditions_::Exercise_::ON_BARRIER_HIT;
                const Payment_ pay(et, Ccy_("EUR"), b, "leg", Payment::Info_("text", known, cond, ctx == 2 ? nullptr : &p), a), copy(pay);
                for (auto* y : {&pay, &copy})
                    if (!(y->eventTime_ == et) || !(y->ccy_ == Ccy_("EUR")) || !(y->date_ == b) || y->stream_ != "leg" || !(y->commitDate_ == a) || y->tag_.description_ != "text" || !(y->tag_.knownTime_ == known) || y->tag_.conditions_.exerciseCondition_ != cond.exerciseCondition_ || y->tag_.period_.has_value() != (ctx != 2) || (ctx != 2 && (y->tag_.period_->dcf_ != want || !(y->tag_.period_->endDate_ == b))))
                        x.Fail("payment", "a payment keeps other terms than given");
            }
    Seen(x, "%s %s", Iso(a).c_str(), Iso(b).c_str());
}

MC_SECTION("underlying", "all sequences of 4 (quick) or 5 (thorough) inclusions out of 2 currencies, 2 indices, 2 credits with 2 dates each, and of merging another description before or after: the latest date of each", 2) {
    const Date_ d[2] = {Date_(2024, 12, 9), Date_(2025, 1, 3)};
    const DateTime_ t[2] = {DateTime_(d[0], 0.5), DateTime_(d[0], 0.75)};
    const Ccy_ c[2] = {Ccy_("USD"), Ccy_("CNY")};
    auto index = [](int k) { return k ? Handle_<Index_>(new Index::Fx_(Ccy_("USD"), Ccy_("JPY"))) : Handle_<Index_>(new Index::Equity_("IBM")); };
    const String_ r[2] = {"ACME", "IBM"};
    Underlying_ u, side;
    Handle_<Underlying_::Parent_> parent(new Underlying_::Parent_);
    u.parent_ = parent;
    using M = std::map<std::string, double>;
    M mu, ms;
    auto put = [](M& m, const std::string& k, double v) {
        if (!m.count(k) || m[k] < v)
            m[k] = v;
    };
    const int depth = x.thorough_ ? 5 : 4;
    for (int n = 0; n < depth; ++n) {
        const int op = x.Choose(14);
        x.Step();
        // every second inclusion goes to the other description
        Underlying_& to = n % 2 ? side : u;
        M& m = n % 2 ? ms : mu;
        const int k = op & 1, w = op >> 1 & 1;
        if (op < 4) {
            if (&to.Include(c[k], d[w]) != &to)
                x.Fail("chain", "inclusion returns another description");
            put(m, std::string("c") + c[k].String(), d[w] - d[0]);
        } else if (op < 8) {
            if (&to.Include(IndexKey_(index(k)), t[w]) != &to)
                x.Fail("chain", "inclusion returns another description");
            put(m, std::string("i") + index(k)->Name().c_str(), t[w] - t[0]);
        } else if (op < 12) {
            if (&to.Include(r[k], d[w]) != &to)
                x.Fail("chain", "inclusion returns another description");
            put(m, std::string("r") + r[k].c_str(), d[w] - d[0]);
        } else if (op == 12) {
            u += side;
            for (auto& kv : ms)
                put(mu, kv.first, kv.second);
        } else {
            side += side;
            u += u;
        }
        auto read = [&](const Underlying_& y) {
            M g;
            for (auto& kv : y.payCcys_)
                g[std::string("c") + kv.first.String()] = kv.second - d[0];
            for (auto& kv : y.indices_)
                g[std::string("i") + kv.first.name_.c_str()] = kv.second - t[0];
            for (auto& kv : y.credits_)
                g[std::string("r") + kv.first.c_str()] = kv.second - d[0];
            return g;
        };
        if (read(u) != mu || read(side) != ms)
            x.Fail("latest", "after %d inclusions a description does not hold the latest date of each", n + 1);
        if (u.parent_.get() != parent.get() || !side.parent_.IsEmpty())
            x.Fail("parent", "the parent of a description changed");
    }
    // the order of merging does not matter
    Underlying_ a(u), b(side);
    a += side;
    b += u;
    if (a.payCcys_ != b.payCcys_ || !(a.credits_ == b.credits_) || a.indices_ != b.indices_)
        x.Fail("order", "merging depends on the order");
    size_t h = 0;
    for (auto& kv : mu)
        h = h * 31 + std::hash<std::string>()(kv.first) + (size_t)(kv.second * 4);
    x.State(h);
}

MC_SECTION("many underlyings", "2..12 descriptions of 1..60 credits, indices and all currencies each, overlapping by 4 patterns, merged into one from the left, from the right or pairwise: the latest date of each", 2) {
    const int k = 2 + x.Choose(11), overlap = x.Choose(4), how = x.Choose(3);
    static const int NS[] = {1, 5, 20, 60};
    const int n = NS[x.Choose(4)];
    const Date_ d0(2024, 12, 9);
    const auto ccys = CcyListAll();
    std::vector<Underlying_> us(k);
    std::map<std::string, int> want;
    auto put = [&](const std::string& key, int v) {
        if (!want.count(key) || want[key] < v)
            want[key] = v;
    };
    for (int u = 0; u < k; ++u)
        for (int i = 0; i < n; ++i) {
            const int id = overlap == 0 ? i : overlap == 1 ? u * n + i : overlap == 2 ? u + i : i / (u + 1);
            const int day = (u * 13 + i * 7 + (u * i) % 5) % 30;
            x.Step();
            us[u].Include(String_("R" + std::to_string(id)), d0.AddDays(day));
            put("rR" + std::to_string(id), day);
            us[u].Include(IndexKey_(Handle_<Index_>(new Index::Equity_(String_("E" + std::to_string(id))))), DateTime_(d0.AddDays(day), 0.5));
            put("iEQ[E" + std::to_string(id) + "]", day);
            const auto& c = ccys[(id + u) % ccys.size()];
            us[u].Include(c, d0.AddDays(day));
            put(std::string("c") + c.String(), day);
        }
    if (how == 0)
        for (int u = 1; u < k; ++u)
            us[0] += us[u];
    else if (how == 1)
        for (int u = k - 1; u > 0; --u)
            us[u - 1] += us[u];
    else
        for (int s = 1; s < k; s *= 2)
            for (int u = 0; u + s < k; u += 2 * s)
                us[u] += us[u + s];
    std::map<std::string, int> got;
    for (auto& kv : us[0].payCcys_)
        got[std::string("c") + kv.first.String()] = kv.second - d0;
    for (auto& kv : us[0].indices_)
        got[std::string("i") + kv.first.name_.c_str()] = kv.second.Date() - d0;
    for (auto& kv : us[0].credits_)
        got[std::string("r") + kv.first.c_str()] = kv.second - d0;
    if (got != want)
        x.Fail("latest", "%d descriptions of %d underlyings merge into %zu instead of %zu, or other dates", k, n, got.size(), want.size());
    x.State(((k * 4 + overlap) * 3 + how) * 100 + n);
}

MC_SECTION("token", "all reads of a token over 4 values and 3 paths: the value and path of that address", 0) {
    Vector_<> vals = {1.5, -2.0, 0.25, 9.0};
    Vector_<Handle_<IndexPath_>> paths;
    const DateTime_ t(Date_(2024, 6, 3), 0.5);
    for (int i = 0; i < 3; ++i)
        paths.push_back(Handle_<IndexPath_>(new IndexPathHistorical_({{t, 10.0 + i}})));
    const UpdateToken_ tok(vals.begin(), paths.begin(), t);
    for (int i = 0; i < 4; ++i)
        if (tok[i] != vals[i] || &tok[i] != &vals[i])
            x.Fail("value", "address %d reads %g", i, tok[i]);
    for (int i = 0; i < 3; ++i)
        if (tok.Index(Valuation::IndexAddress_(i)).Expectation(t, {0.0, 100.0}) != 10.0 + i)
            x.Fail("path", "address %d is another path", i);
    if (!(tok.eventTime_ == t))
        x.Fail("time", "the token is for another time");
    Seen(x, "token");
}
