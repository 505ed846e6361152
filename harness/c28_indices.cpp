// C28: index names, fixings and historical paths, for every small name, history and monitoring schedule.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/cell.hpp>
#include <dal/string/strings.hpp>
#include <dal/time/calendars/init.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/holidays.hpp>
#include <dal/currency/init.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/indice/indexpath.hpp>
#include <dal/indice/index/equity.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/indice/index/ir.hpp>
#include <dal/indice/parser/equity.hpp>
#include <dal/indice/parser/fx.hpp>
#include <dal/indice/parser/init.hpp>
#include <cmath>
#include <cstdarg>
#include <limits>
#include <memory>
#include <set>
using namespace Dal;

namespace {
    __attribute__((format(printf, 2, 3))) void Seen(mc::Ctx_& x, const char* fmt, ...) {
        char buf[300];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        x.State(std::hash<std::string>()(buf));
        x.Sample(buf);
    }
    template <class F> bool Throws(F f) {
        try {
            f();
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    struct Init_ {
        Init_() {
            Calendars_::Init();
            CcyFacts_::Init();
            IndexParsers_::Init();
        }
    } the_init;

    std::string S(const String_& s) { return std::string(s.c_str(), s.size()); }
    std::string Iso(const Date_& d) {
        char b[32];
        snprintf(b, sizeof b, "%04d-%02d-%02d", Date::Year(d), Date::Month(d), Date::Day(d));
        return b;
    }
    const std::vector<std::string>& Equities() {
        static const std::vector<std::string> r{"IBM", "A", "HS300", "AB", "BA", "a.b", "X:Y", "1", "A B", "A>3M", "A@2022-01-24", "USD/JPY", "A[B", "IBM.N"};
        return r;
    }
    const std::vector<Date_>& Dates() {
        static const std::vector<Date_> r{Date_(2022, 1, 24), Date_(2022, 12, 4), Date_(2024, 2, 29), Date_(1999, 12, 31), Date_(2100, 3, 1), Date_(2022, 4, 21)};
        return r;
    }
    // increments and what they mean
    Date_ PlusMonths(const Date_& d, int n) {
        int m = Date::Year(d) * 12 + Date::Month(d) - 1 + n;
        int dd = Date::Day(d);
        while (dd > Date::DaysInMonth(m / 12, m % 12 + 1))
            --dd;
        return Date_(m / 12, m % 12 + 1, dd);
    }
    struct Inc_ {
        const char* text;
        int months, days;
    };
    const std::vector<Inc_>& Incs() {
        static const std::vector<Inc_> r{{"3M", 3, 0}, {"1Y", 12, 0}, {"2W", 0, 14}, {"10CD", 0, 10}, {"1M&1W", 1, 7}, {"18M", 18, 0}, {"0CD", 0, 0}};
        return r;
    }
    std::vector<DateTime_> FixTimes() {
        return {DateTime_(Date_(2022, 1, 24), 0.5), DateTime_(Date_(2024, 1, 31), 0.0), DateTime_(Date_(2023, 11, 30), 0.99)};
    }
    struct Other_ : Environment_::Entry_ {};
    const double SENTINEL = -Dal::INF;
} // namespace

MC_SECTION("equity_names", "all of 14 equity names x {no delivery, 6 dates, 7 increments}: printed name, parse through the registry and directly, copy, delivery dates for 3 fixing times", 1) {
    const std::string& eq = x.Pick(Equities());
    const int kind = x.Choose(3);
    std::unique_ptr<Index::Equity_> idx;
    std::string want = "EQ[" + eq + "]";
    const Date_* date = nullptr;
    const Inc_* inc = nullptr;
    if (kind == 0)
        idx.reset(new Index::Equity_(String_(eq)));
    else if (kind == 1) {
        date = &Dates()[x.Choose((int)Dates().size())];
        idx.reset(new Index::Equity_(String_(eq), date));
        want += "@" + Iso(*date);
    } else {
        inc = &Incs()[x.Choose((int)Incs().size())];
        const String_ t(inc->text);
        idx.reset(new Index::Equity_(String_(eq), nullptr, &t));
        want += std::string(">") + inc->text;
    }
    x.Step();
    if (S(idx->Name()) != want)
        x.Fail("name", "index prints %s, want %s", idx->Name().c_str(), want.c_str());
    auto same = [&](const Index_* p, const char* how) {
        auto* e = dynamic_cast<const Index::Equity_*>(p);
        if (!e)
            x.Fail("kind", "%s of %s is not an equity", how, want.c_str());
        if (S(e->Name()) != want || S(e->eqName_) != eq)
            x.Fail("parsed", "%s of %s gives %s (%s)", how, want.c_str(), e->Name().c_str(), e->eqName_.c_str());
        for (auto& t : FixTimes()) {
            const Date_ d = e->Delivery(t);
            const Date_ w = date ? *date : inc ? PlusMonths(t.Date(), inc->months).AddDays(inc->days) : Date::Maximum();
            if (!(d == w))
                x.Fail("delivery", "%s: %s delivers %s, want %s", how, want.c_str(), Iso(d).c_str(), Iso(w).c_str());
        }
    };
    same(idx.get(), "construction");
    if (!inc || S(inc->text).find('&') == std::string::npos || true) {
        std::unique_ptr<Index_> a(Index::Parse(String_(want))), b(Index::EquityParser(String_(want)));
        Handle_<Index_> c = Index::Clone(*idx);
        same(a.get(), "parse");
        same(b.get(), "equity parser");
        same(c.get(), "clone");
    }
    Seen(x, "%s", want.c_str());
}

MC_SECTION("distinct_names", "all pairs of 196 equity, 56 FX, 40 Libor with 9 starts, 6 swap tenors with 9 starts and discount indices: equal names exactly for the same index", 0) {
    std::map<std::string, std::string> seen;
    auto add = [&](const Index_& i, const std::string& ident) {
        auto r = seen.insert({S(i.Name()), ident});
        if (!r.second && r.first->second != ident)
            x.Fail("clash", "%s and %s are both called %s", ident.c_str(), r.first->second.c_str(), i.Name().c_str());
        const IndexKey_ k{Handle_<Index_>()};
        (void)k;
        x.Step();
    };
    for (auto& e : Equities()) {
        add(Index::Equity_(String_(e)), "eq " + e);
        for (auto& d : Dates())
            add(Index::Equity_(String_(e), &d), "eq " + e + " on " + Iso(d));
        for (auto& i : Incs()) {
            const String_ t(i.text);
            add(Index::Equity_(String_(e), nullptr, &t), "eq " + e + " after " + i.text);
        }
    }
    const auto ccys = CcyListAll();
    std::vector<std::pair<Cell_, std::string>> starts{{Cell_(), ""}, {Cell_(Date_(2022, 2, 3)), "on 2022-02-03"}, {Cell_(Date_(2022, 3, 2)), "on 2022-03-02"}, {Cell_(String_("3M")), "3M"}, {Cell_(String_("1Y")), "1Y"}, {Cell_(String_("5Y")), "5Y"}, {Cell_((double)2), "2 days"}, {Cell_((double)3), "3 days"}, {Cell_((double)10), "10 days"}};
    for (auto& c : ccys) {
        for (auto& f : ccys)
            add(Index::Fx_(c, f), std::string("fx ") + c.String() + " per " + f.String());
        for (auto& s : starts) {
            for (auto& r : TradedRateListAll())
                add(Index::Libor_(c, r, s.first), std::string("libor ") + c.String() + " " + r.String() + " start " + s.second);
            for (auto& t : {"1Y", "2Y", "5Y", "10Y", "15Y", "30Y"})
                add(Index::Swap_(c, String_(t), s.first), std::string("swap ") + c.String() + " " + t + " start " + s.second);
            for (auto& m : starts)
                if (!m.second.empty()) {
                    add(Index::DF_(c, m.first, &s.first), std::string("df ") + c.String() + " start " + s.second + " mat " + m.second);
                    for (auto& coll : CollateralTypeListAll())
                        add(Index::DF_(c, m.first, &s.first, coll), std::string("df ") + c.String() + " start " + s.second + " mat " + m.second + " coll " + coll.String());
                }
        }
        if (!Throws([&] { (void)Index::DF_(c, Cell_()).Name(); }))
            x.Fail("nomat", "a discount factor without maturity has a name");
    }
    Seen(x, "%d names", (int)seen.size());
}

MC_SECTION("malformed", "every text of up to 5 (quick) or 6 (thorough) pieces out of EQ FX [ ] @ > / : IBM USD JPY 2022-01-24 3M blank IR: accepted exactly when of the documented form, and then identified by what it prints", 2) {
    static const std::vector<std::string> P{"EQ", "FX", "[", "]", "@", ">", "/", ":", "IBM", "USD", "JPY", "2022-01-24", "3M", " ", "IR"};
    const int n = x.Choose(x.thorough_ ? 7 : 6);
    std::string s;
    for (int i = 0; i < n; ++i)
        s += P[x.Choose((int)P.size())];
    x.Step();
    // independent recogniser: 1 = must be accepted, 0 = must be rejected, 2 = blanks inside dates, increments or currencies
    int want = 0;
    std::string canon;
    auto strip = [](const std::string& t) {
        std::string r;
        for (char c : t)
            if (c != ' ')
                r += c;
        return r;
    };
    const size_t rb = s.find(']');
    if (s.compare(0, 3, "EQ[") == 0 && rb != std::string::npos && rb > 3) {
        const std::string name = s.substr(3, rb - 3), tail = s.substr(rb + 1);
        if (tail.empty())
            want = 1, canon = s;
        else if (tail[0] == '@' || tail[0] == '>') {
            const std::string v = tail.substr(1);
            const char* ok = tail[0] == '@' ? "2022-01-24" : "3M";
            if (v == ok)
                want = 1, canon = s;
            else if (strip(v) == ok)
                want = 2;
            else if (tail[0] == '@')
                want = v.find("2022-01-24") != std::string::npos && v.find_first_of("EFI[]@>/:UJ3") == std::string::npos ? 2 : 0;
        }
    } else if (s.compare(0, 3, "FX[") == 0 && rb == s.size() - 1) {
        const std::string in = s.substr(3, rb - 3);
        const size_t sl = in.find('/');
        if (sl != std::string::npos) {
            const std::string f = in.substr(0, sl), d = in.substr(sl + 1);
            auto ccy = [](const std::string& c) { return c == "USD" || c == "JPY"; };
            if (ccy(f) && ccy(d))
                want = 1, canon = s;
            else if (ccy(strip(f)) && ccy(strip(d)))
                want = 2;
        }
    }
    std::unique_ptr<Index_> p;
    bool threw = false;
    try {
        p.reset(Index::Parse(String_(s)));
    } catch (const std::exception&) {
        threw = true;
    }
    if (!threw && !p)
        x.Fail("null", "'%s' parses to nothing instead of being rejected", s.c_str());
    if (want == 0 && !threw)
        x.Fail("accepted", "'%s' is understood as '%s'", s.c_str(), p->Name().c_str());
    if (want == 1 && threw)
        x.Fail("rejected", "'%s' is rejected", s.c_str());
    if (!threw) {
        const std::string name = S(p->Name());
        if (want == 1 && name != canon)
            x.Fail("other", "'%s' is understood as '%s'", s.c_str(), name.c_str());
        std::unique_ptr<Index_> q(Index::Parse(String_(name)));
        if (!q || S(q->Name()) != name)
            x.Fail("unstable", "'%s' prints '%s', which is another index", s.c_str(), name.c_str());
        if (auto* e = dynamic_cast<Index::Equity_*>(p.get()))
            if (Throws([&] { (void)e->Delivery(DateTime_(Date_(2022, 1, 3), 0.0)); }))
                x.Fail("unusable", "'%s' is accepted but has no delivery date", s.c_str());
    }
    if (want)
        Seen(x, "'%s' -> %d", s.c_str(), threw ? 0 : 1);
    else
        x.State(want);
}

MC_SECTION("fixings", "all histories over 2 equity indices x 3 observation times (each absent or present, one index possibly without any record), 5 environments, all queries, quiet or not", 2) {
    const std::vector<DateTime_> T{DateTime_(Date_(2022, 1, 24), 0.0), DateTime_(Date_(2022, 1, 24), 0.5), DateTime_(Date_(2022, 1, 25), 0.0)};
    const int mask = x.Choose(64), env = x.Choose(5);
    const bool norec = x.Flip();
    const std::vector<String_> names{"EQ[A]", "EQ[A]>3M"};
    FixingsAccess_ inner, outer;
    Other_ other;
    for (int k = 0; k < 2; ++k) {
        std::map<DateTime_, double> m;
        for (int t = 0; t < 3; ++t)
            if (mask >> (3 * k + t) & 1)
                m[T[t]] = 10.0 * (k + 1) + t;
        if (!(norec && m.empty()))
            inner.fixings_[names[k]] = Handle_<Fixings_>(new Fixings_(names[k], m));
    }
    {
        std::map<DateTime_, double> m;
        for (auto& t : T)
            m[t] = 99.0;
        outer.fixings_[names[0]] = outer.fixings_[names[1]] = Handle_<Fixings_>(new Fixings_(names[0], m));
    }
    auto check = [&](const Environment_* e, bool access) {
        for (int k = 0; k < 2; ++k) {
            std::unique_ptr<Index_> idx(Index::Parse(names[k]));
            for (int t = 0; t < 4; ++t) {
                x.Step();
                const DateTime_ when = t < 3 ? T[t] : DateTime_(Date_(2022, 1, 24), 0.25);
                const bool have = access && t < 3 && (mask >> (3 * k + t) & 1);
                const double q = Index::PastFixing(e, names[k], when, true);
                if (have ? q != 10.0 * (k + 1) + t : q != SENTINEL)
                    x.Fail("quiet", "fixing of %s at time %d reads %g", names[k].c_str(), t, q);
                double v[2] = {0, 0};
                bool threw[2];
                threw[0] = Throws([&] { v[0] = Index::PastFixing(e, names[k], when); });
                threw[1] = Throws([&] { v[1] = idx->Fixing(e, when); });
                for (int j = 0; j < 2; ++j)
                    if (threw[j] == have || (have && v[j] != 10.0 * (k + 1) + t))
                        x.Fail("loud", "fixing of %s at time %d: %s %g", names[k].c_str(), t, threw[j] ? "error" : "value", v[j]);
            }
        }
    };
    if (env == 0)
        check(nullptr, false);
    else if (env == 1) {
        ENV_SEED(other);
        check(_env, false);
    } else if (env == 2) {
        ENV_SEED(inner);
        check(_env, true);
    } else if (env == 3) {
        ENV_SEED(outer);
        {
            ENV_ADD(inner);
            {
                ENV_ADD(other);
                check(_env, true);
            }
        }
        if (Index::PastFixing(_env, names[0], T[0]) != 99.0)
            x.Fail("restored", "leaving the inner scope does not bring the outer fixings back");
    } else {
        ENV_SEED(inner);
        ENV_ADD(other);
        check(_env, true);
    }
    Seen(x, "mask %d env %d norec %d", mask, env, norec);
}

MC_SECTION("fx", "all pairs of currencies x presence of own and inverse fixings at the time and at another time: value, inverse, error", 1) {
    const auto ccys = CcyListAll();
    const Ccy_ dom = ccys[x.Choose((int)ccys.size())], fgn = ccys[x.Choose((int)ccys.size())];
    const DateTime_ t(Date_(2022, 1, 24), 0.5), u(Date_(2022, 1, 25), 0.5);
    const std::string own = std::string("FX[") + fgn.String() + "/" + dom.String() + "]", inv = std::string("FX[") + dom.String() + "/" + fgn.String() + "]";
    Index::Fx_ fx(dom, fgn);
    if (S(fx.Name()) != own)
        x.Fail("name", "index prints %s, want %s", fx.Name().c_str(), own.c_str());
    std::unique_ptr<Index_> p(Index::Parse(String_(own))), q(Index::FxParser(String_(own)));
    if (!dynamic_cast<Index::Fx_*>(p.get()) || S(p->Name()) != own || S(q->Name()) != own)
        x.Fail("parse", "%s parses to another index", own.c_str());
    for (int mask = 0; mask < 16; ++mask) {
        x.Step();
        FixingsAccess_ f;
        std::map<DateTime_, double> o, i;
        if (mask & 1) o[t] = 4.0;
        if (mask & 2) i[t] = 0.5;
        if (mask & 4) o[u] = 7.0;
        if (mask & 8) i[u] = 9.0;
        if (own == inv) {
            o.insert(i.begin(), i.end());
            i = o;
        }
        if (!o.empty()) f.fixings_[String_(own)] = Handle_<Fixings_>(new Fixings_(String_(own), o));
        if (!i.empty()) f.fixings_[String_(inv)] = Handle_<Fixings_>(new Fixings_(String_(inv), i));
        ENV_SEED(f);
        for (const Index_* k : {(const Index_*)&fx, (const Index_*)p.get()}) {
            double v = 0;
            const bool threw = Throws([&] { v = k->Fixing(_env, t); });
            const bool have = o.count(t) || i.count(t);
            const double want = o.count(t) ? o[t] : i.count(t) ? 1.0 / i[t] : 0.0;
            if (threw == have || (have && v != want))
                x.Fail("fixing", "%s with own %d inverse %d: %s %g", own.c_str(), (int)o.count(t), (int)i.count(t), threw ? "error" : "value", v);
        }
    }
    Seen(x, "%s", own.c_str());
}

MC_SECTION("history", "all histories of up to 3 (quick) or 4 (thorough) fixings over 5 times x lookups of 7 times in a fixing history", 1) {
    const std::vector<DateTime_> T{DateTime_(Date_(2022, 1, 24), 0.0), DateTime_(Date_(2022, 1, 24), 0.5), DateTime_(Date_(2022, 1, 25), 0.0), DateTime_(Date_(2022, 1, 25), 0.25), DateTime_(Date_(2022, 1, 31), 0.0), DateTime_(Date_(2022, 1, 24), 0.75), DateTime_(Date_(2022, 1, 1), 0.0)};
    const int mask = x.Choose(32);
    if (__builtin_popcount(mask) > (x.thorough_ ? 4 : 3))
        throw mc::Prune_();
    FixingHistory_::vals_t m;
    for (int t = 0; t < 5; ++t)
        if (mask >> t & 1)
            m[T[t]] = 1.0 + t;
    const FixingHistory_ h(m);
    for (int t = 0; t < 7; ++t) {
        x.Step();
        const bool have = t < 5 && (mask >> t & 1);
        if (h.Find(T[t], true) != (have ? 1.0 + t : SENTINEL))
            x.Fail("quiet", "lookup %d in history %d reads %g", t, mask, h.Find(T[t], true));
        double v = 0;
        const bool threw = Throws([&] { v = h.Find(T[t]); });
        if (threw == have || (have && v != 1.0 + t))
            x.Fail("loud", "lookup %d in history %d: %s %g", t, mask, threw ? "error" : "value", v);
        if (FixHistory::Empty().Find(T[t], true) != SENTINEL || !Throws([&] { FixHistory::Empty().Find(T[t]); }))
            x.Fail("empty", "the empty history has a fixing");
    }
    Seen(x, "history %d", mask);
}

namespace {
    using Range_ = std::pair<double, double>;
    double Prob(double v, const Range_& r, double ramp) {
        const double out = v < r.first ? r.first - v : v > r.second ? v - r.second : 0.0;
        return out == 0.0 ? 1.0 : ramp > 0.0 && out < ramp ? 1.0 - out / ramp : 0.0;
    }
} // namespace

MC_SECTION("path", "all histories over 6 observation times of 3 days with values absent, 1, 2 or 3.5, all periods between 5 bounds, 4 intervals, 4 ranges, 3 ramps: expectation, probabilities, extremes", 3) {
    const std::vector<std::pair<int, double>> T{{0, 0.0}, {0, 0.25}, {0, 0.5}, {1, 0.0}, {1, 0.5}, {2, 0.25}};
    const Date_ d0(2022, 1, 31);
    auto at = [&](int d, double f) { return DateTime_(d0.AddDays(d), f); };
    static const double V[] = {0, 1.0, 2.0, 3.5};
    int code[6];
    std::map<DateTime_, double> m;
    for (int i = 0; i < 6; ++i) {
        code[i] = x.Choose(4);
        if (code[i])
            m[at(T[i].first, T[i].second)] = V[code[i]];
    }
    const IndexPathHistorical_ path(m);
    const std::vector<Range_> ranges{{1.0, 2.0}, {1.5, 3.0}, {2.0, 2.0}, {-10.0, 10.0}};
    const std::vector<std::pair<int, double>> B{{0, 0.0}, {0, 0.25}, {0, 0.375}, {1, 0.5}, {3, 0.0}};
    for (auto& r : ranges)
        for (int i = 0; i < 6; ++i) {
            x.Step();
            const DateTime_ t = at(T[i].first, T[i].second);
            const double v = V[code[i]];
            for (double ramp : {0.0, 0.5, 2.0}) {
                double p = 0;
                const bool threw = Throws([&] { p = path.FixInRangeProb(t, r, ramp); });
                if (threw == (code[i] != 0) || (code[i] && std::fabs(p - Prob(v, r, ramp)) > 1e-14))
                    x.Fail("in range", "fixing %g in [%g,%g] with ramp %g: %s %g", v, r.first, r.second, ramp, threw ? "error" : "probability", p);
            }
            double e = 0;
            const bool threw = Throws([&] { e = path.Expectation(t, r); });
            if (threw == (code[i] != 0) || (code[i] && e != std::max(r.first, std::min(r.second, v))))
                x.Fail("expectation", "fixing %g collared to [%g,%g]: %s %g", v, r.first, r.second, threw ? "error" : "value", e);
        }
    for (size_t f = 0; f < B.size(); ++f)
        for (size_t u = 0; u < B.size(); ++u)
            for (double step : {0.125, 0.25, 0.5, 1.0}) {
                const double a = B[f].first + B[f].second, b = B[u].first + B[u].second;
                std::vector<double> seen;
                for (int i = 0; i < 6; ++i) {
                    const double t = T[i].first + T[i].second;
                    if (code[i] && t >= a && t < b && std::fmod(t - a, step) == 0.0)
                        seen.push_back(V[code[i]]);
                }
                const DateTime_ from = at(B[f].first, B[f].second), to = at(B[u].first, B[u].second);
                for (auto& r : ranges) {
                    x.Step();
                    for (double ramp : {0.0, 0.5, 2.0}) {
                        double want = 1.0;
                        for (double v : seen)
                            want *= Prob(v, r, ramp);
                        const double p = path.AllInRangeProb(from, to, r, step, ramp);
                        if (!(std::fabs(p - want) <= 1e-13))
                            x.Fail("all in range", "from %g to %g every %g in [%g,%g] ramp %g: %g, want %g", a, b, step, r.first, r.second, ramp, p, want);
                    }
                    for (bool mx : {true, false}) {
                        double e = 0;
                        const bool threw = Throws([&] { e = path.Extremum(mx, from, to, step, r); });
                        double want = 0;
                        if (!seen.empty()) {
                            want = mx ? *std::max_element(seen.begin(), seen.end()) : *std::min_element(seen.begin(), seen.end());
                            want = std::max(r.first, std::min(r.second, want));
                        }
                        if (threw != seen.empty() || (!threw && e != want))
                            x.Fail("extremum", "%s from %g to %g every %g collared [%g,%g]: %s %g, want %g", mx ? "maximum" : "minimum", a, b, step, r.first, r.second, threw ? "error" : "value", e, want);
                    }
                }
            }
    if (!Throws([&] { (void)path.AllInRangeProb(at(0, 0.0), at(1, 0.0), ranges[0], -0.5, 0.0); }) || !Throws([&] { (void)path.AllInRangeProb(at(0, 0.0), at(1, 0.0), ranges[0], 0.0, 0.0); }))
        x.Fail("interval", "a monitoring interval which is not positive is accepted");
    Seen(x, "%d%d%d%d%d%d", code[0], code[1], code[2], code[3], code[4], code[5]);
}

MC_SECTION("long history", "histories of 10, 100, 365 and 3000 fixings, daily, six-hourly or on business days only: every time looked up, and the times between; extremes and probabilities over 12 periods of a path over them", 1) {
    static const int NS[] = {10, 100, 365, 3000};
    const int n = NS[x.Choose(4)], kind = x.Choose(3);
    const Date_ d0(2020, 2, 27);
    std::vector<DateTime_> t;
    for (int i = 0; (int)t.size() < n; ++i) {
        const Date_ d = kind == 1 ? d0.AddDays(i / 4) : d0.AddDays(i);
        if (kind != 2 || Date::DayOfWeek(d) % 6)
            t.push_back(DateTime_(d, kind == 1 ? 0.25 * (i % 4) : 0.5));
    }
    FixingHistory_::vals_t m;
    auto val = [](int i) { return 100 + (i * 29) % 53 - 0.01 * i; };
    for (int i = n; i-- > 0;)
        m[t[i]] = val(i);
    const FixingHistory_ h(m);
    for (int i = 0; i < n; ++i) {
        x.Step();
        if (h.Find(t[i], true) != val(i) || h.Find(t[i]) != val(i))
            x.Fail("lookup", "fixing %d of %d reads %g", i, n, h.Find(t[i], true));
        const DateTime_ off(t[i].Date(), t[i].Frac() + 0.125);
        if (h.Find(off, true) != SENTINEL || !Throws([&] { (void)h.Find(off); }))
            x.Fail("invented", "between fixings %d and %d of %d", i, i + 1, n);
    }
    std::map<DateTime_, double> pm(m.begin(), m.end());
    const IndexPathHistorical_ path(pm);
    for (int q = 0; q < 12; ++q) {
        const int a = (q * 7) % n, b = std::max(a + 1, n - 1 - q);
        if (b >= n)
            continue;
        x.Step();
        for (double step : {0.25, 1.0}) {
            double hi = -1e9, lo = 1e9, all = 1;
            const Range_ r{60.0 + q, 148.0};
            for (int i = a; i < b; ++i)
                if (std::fmod(t[i] - t[a], step) == 0.0) {
                    hi = std::max(hi, val(i));
                    lo = std::min(lo, val(i));
                    all *= Prob(val(i), r, 40.0);
                }
            const Range_ wide{-1e6, 1e6};
            if (path.Extremum(true, t[a], t[b], step, wide) != hi || path.Extremum(false, t[a], t[b], step, wide) != lo)
                x.Fail("extremum", "fixings %d to %d of %d every %g", a, b, n, step);
            if (!(std::fabs(path.AllInRangeProb(t[a], t[b], r, step, 40.0) - all) <= 1e-12))
                x.Fail("all in range", "fixings %d to %d of %d every %g", a, b, n, step);
        }
    }
    Seen(x, "%d fixings of kind %d", n, kind);
}

MC_SECTION("monitoring", "a breach at each of 96 hours x each of 12 start hours x intervals of 1, 2, 3, 4, 6, 8, 12, 24, 36 hours and 10, 20 minutes: seen exactly when monitored, for times given in hours and minutes", 1) {
    static const int MIN[] = {60, 120, 180, 240, 360, 480, 720, 1440, 2160, 10, 20};
    const int breach = x.Choose(96), start = x.Choose(12), mins = x.Pick(std::vector<int>(std::begin(MIN), std::end(MIN)));
    const Date_ d0(2022, 1, 31);
    auto at = [&](int h) { return DateTime_(d0.AddDays(h / 24), h % 24, 0, 0); };
    std::map<DateTime_, double> m;
    for (int h = 0; h < 96; ++h)
        m[at(h)] = h == breach ? 5.0 : 1.0;
    const IndexPathHistorical_ path(m);
    const bool seen = breach >= start && (breach - start) * 60 % mins == 0;
    for (int end : {95, 96, 60}) {
        x.Step();
        const DateTime_ to = end == 96 ? DateTime_(d0.AddDays(4), 0.0) : at(end);
        const bool want = seen && breach < end;
        const double p = path.AllInRangeProb(at(start), to, {0.0, 2.0}, mins / 1440.0, 0.0);
        if (p != (want ? 0.0 : 1.0))
            x.Fail("breach", "monitoring every %d minutes from hour %d to %d, breach at hour %d: probability %g", mins, start, end, breach, p);
        const double e = path.Extremum(true, at(start), to, mins / 1440.0, {0.0, 10.0});
        if (e != (want ? 5.0 : 1.0))
            x.Fail("maximum", "monitoring every %d minutes from hour %d to %d, breach at hour %d: maximum %g", mins, start, end, breach, e);
    }
    Seen(x, "breach %d start %d every %d: %d", breach, start, mins, seen);
}

MC_SECTION("rates", "all currencies and starts of Libor and swap indices and start/maturity cells of discount indices x 40 fixing dates: names and dates", 1) {
    const auto ccys = CcyListAll();
    const Ccy_ ccy = ccys[x.Choose((int)ccys.size())];
    const bool cny = ccy == Ccy_("CNY");
    struct Start_ {
        Cell_ c;
        std::string post;
        int months, days;
        bool fixed;
    };
    const Date_ fd(2022, 10, 1);
    const std::vector<Start_> starts{{Cell_(), "", 0, 0, false}, {Cell_(fd), ",2022-10-01", 0, 0, true}, {Cell_(DateTime_(fd, 0.5)), ",2022-10-01", 0, 0, true}, {Cell_(String_("3M")), ",3M", 3, 0, false}, {Cell_(String_("1W")), ",1W", 0, 7, false}, {Cell_((double)5), ",5", 0, 5, false}};
    const Start_& s = x.Pick(starts);
    const Holidays_ hols(String_("CN.IB"));
    for (auto& r : TradedRateListAll()) {
        const Index::Libor_ l(ccy, r, s.c);
        const std::string want = std::string("IR:") + ccy.String() + "," + r.String() + s.post;
        if (S(l.Name()) != want)
            x.Fail("libor", "libor prints %s, want %s", l.Name().c_str(), want.c_str());
    }
    const Index::Swap_ w(ccy, "5Y", s.c);
    if (S(w.Name()) != std::string("IR:") + ccy.String() + ",5Y" + s.post)
        x.Fail("swap", "swap prints %s", w.Name().c_str());
    for (auto& mt : starts) {
        if (mt.post.empty())
            continue;
        const Index::DF_ df(ccy, mt.c, &s.c, CollateralType_("GC"));
        if (!(df.collateral_ == CollateralType_("GC")))
            x.Fail("collateral", "discount index loses its collateral");
        const std::string want = std::string("IR[DF]:") + ccy.String() + s.post + mt.post;
        if (S(Index::DF_(ccy, mt.c, &s.c).Name()) != want)
            x.Fail("df", "discount index prints %s, want %s", Index::DF_(ccy, mt.c, &s.c).Name().c_str(), want.c_str());
        for (int k = 0; k < 40; ++k) {
            x.Step();
            const Date_ fix = Date_(2022, 9, 20).AddDays(k);
            const DateTime_ t(fix, 0.5);
            const Date_ ws = s.fixed ? fd : PlusMonths(fix, s.months).AddDays(s.days), wm = mt.fixed ? fd : PlusMonths(fix, mt.months).AddDays(mt.days);
            if (!(df.StartDate(t) == ws) || !(df.Maturity(t) == wm))
                x.Fail("df dates", "discount index %s on %s runs %s to %s", df.Name().c_str(), Iso(fix).c_str(), Iso(df.StartDate(t)).c_str(), Iso(df.Maturity(t)).c_str());
            if (cny || s.fixed) {
                Date_ want = ws;
                if (!s.fixed)
                    do
                        want = want.AddDays(1);
                    while (Date::IsWeekEnd(want) ? !Holidays_(String_("CN.IB")).IsWorkWeekends(want) : hols.IsHoliday(want));
                if (!(w.StartDate(t) == want))
                    x.Fail("start", "%s fixed on %s starts %s, want %s", w.Name().c_str(), Iso(fix).c_str(), Iso(w.StartDate(t)).c_str(), Iso(want).c_str());
            }
        }
    }
    Seen(x, "%s%s", ccy.String(), s.post.c_str());
}

MC_SECTION("keys", "all ordered pairs of 8 index keys: ordered and equal as their names are", 1) {
    std::vector<Handle_<Index_>> h{Handle_<Index_>(), Handle_<Index_>(new Index::Equity_("A")), Handle_<Index_>(new Index::Equity_("A")), Handle_<Index_>(new Index::Equity_("B")), Handle_<Index_>(new Index::Fx_(Ccy_("USD"), Ccy_("JPY"))), Handle_<Index_>(new Index::Fx_(Ccy_("JPY"), Ccy_("USD"))), Handle_<Index_>(new Index::Swap_(Ccy_("USD"), "5Y")), Handle_<Index_>(new Index::DF_(Ccy_("USD"), Cell_(String_("5Y"))))};
    const int i = x.Choose(8), j = x.Choose(8);
    const IndexKey_ a(h[i]), b(h[j]);
    x.Step();
    const bool same = i == j || (i == 1 && j == 2) || (i == 2 && j == 1);
    if ((a == b) != same || (same && (a < b || b < a)) || (!same && (a < b) == (b < a)))
        x.Fail("order", "keys %d and %d compare inconsistently", i, j);
    if (i && (a.operator->() != h[i].get() || S(a.name_) != S(h[i]->Name())))
        x.Fail("key", "key %d refers to another index", i);
    std::map<IndexKey_, int> m;
    for (int k = 0; k < 8; ++k)
        m[IndexKey_(h[k])] = k;
    if (m.size() != 7 || m[a] != (i == 1 ? 2 : i))
        x.Fail("map", "a map of index keys finds entry %d for key %d", m[a], i);
    Seen(x, "%d %d", i, j);
}
