// C09: however a product's event table is written, it means the same as the fully expanded table.
// All small tables (rows in any order, several per date, before, at and after the evaluation date), macro definitions and
// schedule descriptions are given to the real product; dates, initial state and values are compared with a reference that
// expands the table itself (token by token), splits it at the evaluation date and interprets it (scriptref.hpp, parseref.hpp).
#include "parseref.hpp"
#include <dal/math/cellutils.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/schedules.hpp>
using namespace pref;
using namespace Dal;
using Dal::AAD::Number_;
using Dal::AAD::Scenario_;
using Dal::Script::ScriptProduct_;

namespace {
    struct Init_ {
        Init_() {
            mc::g_init = [] {
                XGLOBAL::SetEvaluationDate(Today());
                static AAD::Tape_ tape;
                Number_::SetTape(tape);
            };
        }
    } s_init;

    struct Row_ {
        Cell_ cell;
        std::string text;
    };
    struct Table_ {
        std::map<Date_, std::vector<P>> events; // the meaning: statements per date, in order
        std::map<std::string, double> konst;
    };
    std::string Text(const std::vector<Row_>& rows) {
        std::string s;
        for (auto& r : rows)
            s += "[" + std::string(Cell::ToString(r.cell).c_str()) + " | " + r.text + "] ";
        return s;
    }
    ScriptProduct_ Build(const std::vector<Row_>& rows, const std::string& payoff = "") {
        Vector_<Cell_> d;
        Vector_<String_> e;
        for (auto& r : rows) {
            d.push_back(r.cell);
            e.push_back(String_(r.text));
        }
        return ScriptProduct_(d, e, String_(payoff));
    }
    // past statements: payments made in the past are not part of the value
    void Past(const P& p, Sem_<double>& sem) {
        if (p->k == 'A')
            sem.S(p);
        else if (p->k == 'Y')
            sem.vars[p->a[0]->s];
        else {
            const size_t n = p->a.size(), e = p->split < 0 ? n : p->split;
            const bool c = sem.C(p->a[0]);
            for (size_t i = c ? 1 : e; i < (c ? e : n); ++i)
                Past(p->a[i], sem);
        }
    }
    void Order(const P& p, std::vector<std::string>* out) {
        if (p->k == 'v' && std::find(out->begin(), out->end(), p->s) == out->end())
            out->push_back(p->s);
        for (auto& c : p->a)
            Order(c, out);
    }
    std::string LowName(const String_& s) { return Lower(s.c_str()); }

    void Compare(mc::Ctx_& x, const std::vector<Row_>& rows, const Table_& ref, bool histories = true, const std::string& payoff = "") {
        const std::string text = Text(rows);
        const Date_ today = Global::Dates_::EvaluationDate();
        // the reference: initial state, dates and values
        Sem_<double> sem;
        sem.spot = std::nan("");
        sem.num = 1.0;
        for (auto& k : ref.konst)
            sem.konst[k.first] = k.second;
        std::vector<Date_> past, future;
        std::vector<std::string> order;
        for (auto& e : ref.events) {
            (e.first < today ? past : future).push_back(e.first);
            for (auto& s : e.second) {
                Order(s, &order);
                if (e.first < today)
                    Past(s, sem);
            }
        }
        const auto initial = sem.vars;
        std::vector<double> spots, nums;
        for (size_t i = 0; i < future.size(); ++i) {
            spots.push_back(10.0 + 3.0 * i);
            nums.push_back(1.0 + 0.25 * i);
            sem.spot = spots[i];
            sem.num = nums[i];
            for (auto& s : ref.events.at(future[i]))
                sem.S(s);
        }
        static const bool MODES[3][2] = {{false, true}, {false, false}, {true, false}};
        const int H = histories ? 12 : 3;
        for (int h = 0; h < H; ++h) {
            try {
                ScriptProduct_ p0 = Build(rows, payoff);
                ScriptProduct_ p(std::move(p0));
                x.Step();
                if (std::vector<Date_>(p.EventDates().begin(), p.EventDates().end()) != future || std::vector<Date_>(p.PastEventDates().begin(), p.PastEventDates().end()) != past)
                    x.Fail("dates", "event dates differ from the expanded table for %s", text.c_str());
                if (order.empty())
                    return;
                p.PreProcess(MODES[h % 3][0], MODES[h % 3][1]);
                if (h >= 3) // once more, differently
                    p.PreProcess(MODES[h / 3 - 1][0], MODES[h / 3 - 1][1]);
                if (p.TimeLine().size() != future.size() || p.DefLine().size() != future.size())
                    x.Fail("time line", "%zu times for %zu future dates after pre-processing %s", p.TimeLine().size(), future.size(), text.c_str());
                for (size_t i = 0; i < future.size(); ++i)
                    if (std::fabs(p.TimeLine()[i] - (future[i] - today) / 365.0) > 1e-12 || !p.DefLine()[i].numeraire_)
                        x.Fail("time line", "time %g of date %zu in %s", p.TimeLine()[i], i, text.c_str());
                std::set<std::string> got;
                for (auto& v : p.VarNames())
                    got.insert(LowName(v));
                if (got != std::set<std::string>(order.begin(), order.end()) || p.VarNames().size() != order.size())
                    x.Fail("variables", "the variables are not those of the table %s", text.c_str());
                const std::string pay = payoff.empty() ? order.back() : Lower(payoff);
                if (p.PayOffIdx() >= p.VarNames().size() || LowName(p.VarNames()[p.PayOffIdx()]) != pay)
                    x.Fail("payoff", "payoff is not %s in %s", pay.c_str(), text.c_str());
                for (size_t j = 0; j < p.VarNames().size(); ++j) {
                    auto it = initial.find(LowName(p.VarNames()[j]));
                    const double want = it == initial.end() ? 0.0 : it->second;
                    if (!Same(p.VarValues()[j], want, 1e-13))
                        x.Fail("initial state", "%s starts at %g instead of %g in %s", p.VarNames()[j].c_str(), p.VarValues()[j], want, text.c_str());
                }
                Scenario_<double> path;
                AAD::AllocatePath(p.DefLine(), path);
                AAD::InitializePath(path);
                for (size_t i = 0; i < path.size(); ++i) {
                    path[i].spot_ = spots[i];
                    path[i].numeraire_ = nums[i];
                }
                auto check = [&](const char* mode, auto& st) {
                    for (size_t j = 0; j < p.VarNames().size(); ++j) {
                        auto it = sem.vars.find(LowName(p.VarNames()[j]));
                        const double want = it == sem.vars.end() ? 0.0 : it->second;
                        if (!Same(st.VarVals()[j], want, 1e-12))
                            x.Fail("value", "%s: %s = %.12g instead of %.12g (history %d) in %s", mode, p.VarNames()[j].c_str(), st.VarVals()[j], want, h, text.c_str());
                    }
                };
                auto ev = p.BuildEvaluator<double>();
                p.Evaluate(path, ev);
                check("interpreted", ev);
                p.Compile();
                if (h % 2)
                    p.Compile();
                auto st = p.BuildEvalState<double>();
                p.EvaluateCompiled(path, st);
                check("compiled", st);
                p.Evaluate(path, ev);
                check("interpreted again", ev);
            } catch (const mc::Violation_&) {
                throw;
            } catch (const std::exception& e) {
                x.Fail("rejected", "%s for %s", e.what(), text.c_str());
            }
        }
    }
    void Rejects(mc::Ctx_& x, const std::vector<Row_>& rows, const std::string& payoff = "") {
        x.Step();
        try {
            auto p = Build(rows, payoff);
            p.PreProcess(false, false);
        } catch (const std::exception&) {
            return;
        }
        x.Fail("accepted", "a malformed table was accepted: %s", Text(rows).c_str());
    }
    bool Add(Table_* t, const Date_& d, const std::vector<std::string>& tokens) {
        std::vector<P> st;
        if (Judge(tokens, t->konst, &st) != OK)
            return false;
        auto& e = t->events[d];
        e.insert(e.end(), st.begin(), st.end());
        return true;
    }
    std::vector<std::string> Toks(const std::string& s) {
        std::vector<std::string> t;
        if (!Scan(s, &t))
            abort();
        return t;
    }
} // namespace

MC_SECTION("tables of dated rows", "all tables of 1..3 (thorough 4) rows, each at one of 5 dates before, at or after the evaluation date with one of 6 non-commuting statements, in any order; pre-processed once or twice in every mode, moved, compiled once or twice", 2) {
    const int n = 1 + x.Choose(x.thorough_ ? 4 : 3);
    static const int off[5] = {-40, -10, 0, 15, 45};
    static const char* st[6] = {"x = x + 1", "x = x * 2 + y", "y = x", "z pays x + 1", "if x > 1 then y = 5 else w pays 3 end", "u = spot() + x"};
    std::vector<Row_> rows;
    Table_ t;
    for (int i = 0; i < n; ++i) {
        const int o = off[x.Choose(5)];
        const char* s = st[x.Choose(o < 0 ? 5 : 6)];
        const Date_ d = Today().AddDays(o);
        rows.push_back({Cell_(d), s});
        if (!Add(&t, d, Toks(s)))
            abort();
    }
    Compare(x, rows, t);
    x.State(mc::HashStr(Text(rows)));
}
MC_SECTION("evaluation dates", "a five-date table valued on every date of a window: rows before it form the initial state, the rest is simulated, the final state does not depend on the split", 1) {
    const int o = x.Choose(100) - 20;
    struct Restore_ {
        ~Restore_() { XGLOBAL::SetEvaluationDate(Today()); }
    } restore;
    XGLOBAL::SetEvaluationDate(Today().AddDays(o));
    std::vector<Row_> rows;
    Table_ t;
    const std::pair<int, const char*> all[] = {{50, "x = x * 3 y = y + x"}, {10, "x = 2"}, {30, "if x = 2 then x = 5 else x = 7 end"}, {10, "x = x + 0.5 y = 1"}, {70, "if y > x then z = y end"}, {11, "x = x - 0.5"}};
    for (auto& r : all) {
        const Date_ d = Today().AddDays(r.first);
        rows.push_back({Cell_(d), r.second});
        if (!Add(&t, d, Toks(r.second)))
            abort();
    }
    Compare(x, rows, t);
    // the value itself
    auto p = Build(rows);
    p.PreProcess(false, false);
    auto ev = p.BuildEvaluator<double>();
    Scenario_<double> path;
    AAD::AllocatePath(p.DefLine(), path);
    AAD::InitializePath(path);
    p.Evaluate(path, ev);
    for (size_t j = 0; j < p.VarNames().size(); ++j) {
        const std::string v = LowName(p.VarNames()[j]);
        const double want = v == "x" ? 15.0 : v == "y" ? 16.0 : 16.0;
        if (!Same(ev.VarVals()[j], want))
            x.Fail("split", "%s = %g instead of %g when valued %d days after the start", v.c_str(), ev.VarVals()[j], want, o);
    }
}
MC_SECTION("payoff names", "tables of up to 3 variables: the named variable (any case) is the payoff, by default the last one to appear, unknown names are rejected", 1) {
    static const char* nm[3] = {"aa", "b", "c_1"};
    const int a = x.Choose(3), b = x.Choose(3), c = x.Choose(3);
    const int past = x.Choose(2);
    std::vector<Row_> rows = {{Cell_(Today().AddDays(20)), std::string(nm[a]) + " = 1 " + nm[b] + " = 2"}, {Cell_(Today().AddDays(past ? -5 : 5)), std::string(nm[c]) + " = 3"}};
    Table_ t;
    for (auto& r : rows)
        Add(&t, Cell::ToDate(r.cell), Toks(r.text));
    Compare(x, rows, t, false);
    for (const char* pay : {"aa", "AA", "b", "B", "c_1", "C_1", "a", "aaa", "pv", "c_"}) {
        const std::string low = Lower(pay);
        if (low == nm[a] || low == nm[b] || low == nm[c])
            Compare(x, rows, t, false, pay);
        else
            Rejects(x, rows, pay);
    }
}

// ------------------------------------------------------------------ macros
namespace {
    // expand by whole words; false if a macro contains itself
    bool Expand(const std::vector<std::string>& in, const std::map<std::string, std::vector<std::string>>& macros, std::vector<std::string>* out, int depth = 0) {
        if (depth > 8)
            return false;
        for (auto& w : in) {
            auto it = macros.find(w);
            if (it == macros.end())
                out->push_back(w);
            else if (!Expand(it->second, macros, out, depth + 1))
                return false;
        }
        return true;
    }
} // namespace
MC_SECTION("macros", "all pairs of macro or constant definitions (6 names, one part of another, in either case x 9 bodies, numbers, nested, circular) in either order, used in 7 events: the same as the table with every whole word replaced", 2) {
    static const char* names[6] = {"a", "ab", "AB.c", "ax", "_b", "X1"};
    static const char* bodies[9] = {"2.5", "x + 1", "ab * 2", "(a + 3)", "max(x, _B)", "ab.c", "3", "x1 - ax", "x = 4 y = 5"};
    static const char* texts[7] = {"x = a + ab", "x = ab.c * abx + xa", "ab = 3 y = ab", "x = 1 a", "y = AX / _b + x1 + a1", "if a > AB then y = max(a, Ab.C) end", "z pays -a ^ ab.C"};
    const int n = x.Choose(3);
    std::vector<Row_> rows;
    Table_ t;
    std::map<std::string, std::vector<std::string>> macros;
    bool ok = true;
    for (int i = 0; i < n; ++i) {
        const std::string nm = names[x.Choose(6)], body = bodies[x.Choose(9)];
        rows.push_back({Cell_(String_(nm)), body});
        if (macros.count(Lower(nm)) || t.konst.count(Lower(nm)))
            ok = false;
        double v;
        if (Number(body, &v))
            t.konst[Lower(nm)] = v;
        else
            macros[Lower(nm)] = Toks(body);
    }
    const int e = x.Choose(7);
    const Date_ d = Today().AddDays(x.Flip() ? 30 : -3);
    rows.push_back({Cell_(d), texts[e]});
    rows.push_back({Cell_(Today().AddDays(60)), "y = a"});
    for (int k : {n, n + 1}) {
        std::vector<std::string> out;
        if (ok)
            ok = Expand(Toks(rows[k].text), macros, &out) && Add(&t, Cell::ToDate(rows[k].cell), out);
    }
    if (ok)
        Compare(x, rows, t, false);
    else
        Rejects(x, rows);
    if (n) { // definitions after an event, and names that are no words, are rejected
        std::vector<Row_> late(rows.rbegin(), rows.rend());
        Rejects(x, late);
    }
    x.State(mc::HashStr(Text(rows)));
}
MC_SECTION("macro names", "definitions whose name is not a word are rejected", 1) {
    static const char* bad[] = {"a b", "a+b", "1a", "", " ", "a(", "=", "x@y", "a$", "."};
    const char* b = bad[x.Choose(10)];
    for (const char* body : {"2", "x + 1"})
        Rejects(x, {{Cell_(String_(b)), body}, {Cell_(Today().AddDays(3)), "x = 1"}});
}

// ------------------------------------------------------------------ schedules
namespace {
    struct Sch_ {
        Date_ start, end;
        std::string freq, biz, cal;
        bool begin;
    };
    std::vector<std::array<Date_, 3>> Periods(const Sch_& s) {
        auto sch = MakeSchedule(s.start, Cell_(s.end), Holidays_(String_(s.cal)), Date::ParseIncrement(String_(s.freq)), DateGeneration_("Forward"), BizDayConvention_(String_(s.biz.empty() ? "Unadjusted" : s.biz)));
        std::vector<std::array<Date_, 3>> r;
        for (size_t i = 1; i < sch.size(); ++i)
            r.push_back({sch[i - 1], sch[i], s.begin ? sch[i - 1] : sch[i]});
        return r;
    }
    std::string Iso(const Date_& d) { return Date::ToString(d).c_str(); }
} // namespace
MC_SECTION("schedules", "start/end pairs before, across and after the evaluation date x 4 frequencies x conventions x calendar x fixing at begin/end (explicit or default) x every order of the parameters (rotations and reversal), with macros and period placeholders, other rows on the same dates before or after", 2) {
    const Date_ starts[3] = {Today().AddDays(-50), Today(), Today().AddDays(12)};
    const int len[4] = {31, 62, 95, 8};
    Sch_ s;
    s.start = starts[x.Choose(3)];
    s.end = s.start.AddDays(len[x.Choose(4)]);
    const char* freqs[4] = {"1M", "1m", "2W", "1D"};
    s.freq = freqs[x.Choose(4)];
    const int bz = x.Choose(3);
    s.biz = bz == 0 ? "" : bz == 1 ? "Following" : "ModifiedFollowing";
    s.cal = x.Flip() ? "CN.SSE" : "";
    const int fx = x.Choose(3);
    s.begin = fx == 2;
    std::vector<std::string> parts = {"START: " + Iso(s.start), "END: " + Iso(s.end), "FREQ: " + s.freq};
    if (bz)
        parts.push_back("BizRule: " + s.biz);
    if (!s.cal.empty())
        parts.push_back("CALENDAR: " + s.cal);
    if (fx)
        parts.push_back(fx == 1 ? "FIXING: END" : "FIXING: BEGIN");
    const int rot = x.Choose(static_cast<int>(parts.size()));
    std::rotate(parts.begin(), parts.begin() + rot, parts.end());
    const int form = x.Choose(3);
    std::string desc;
    if (form == 1)
        std::reverse(parts.begin(), parts.end());
    for (auto& p : parts)
        desc += (desc.empty() ? "" : form == 2 ? "\n" : " ") + p;
    if (form == 2)
        desc = Lower(desc);
    std::vector<std::array<Date_, 3>> periods;
    bool ok = true;
    try {
        periods = Periods(s);
    } catch (const std::exception&) {
        ok = false;
    }
    std::vector<Row_> rows = {{Cell_(String_("cpn")), "0.05 * x + PeriodEnds"}};
    const std::string text = "x = x + cpn * dcf(ACT365F, PeriodBegin, PERIODEND) y = y * 2 + x";
    Table_ t;
    const int extra = x.Choose(3); // another row on one of the fixing dates, before or after the schedule, or none
    auto other = [&] {
        if (extra && !periods.empty()) {
            const Date_ d = periods[periods.size() / 2][2];
            rows.push_back({Cell_(d), "y = y + 100 PeriodEnds = 3"});
            Add(&t, d, Toks(rows.back().text));
        }
    };
    if (extra == 1)
        other();
    rows.push_back({Cell_(String_(desc)), text});
    for (auto& p : periods) {
        auto k = Toks("x = x + 0.05 * x + periodends * dcf(ACT365F, " + Iso(p[0]) + ", " + Iso(p[1]) + ") y = y * 2 + x");
        if (!Add(&t, p[2], k))
            abort();
    }
    if (extra == 2)
        other();
    if (ok)
        Compare(x, rows, t, false);
    else
        Rejects(x, rows);
    x.State(mc::HashStr(desc));
}
namespace {
    // reference reading of a schedule description given as words; false if malformed
    bool ReadSch(const std::vector<std::string>& t, Sch_* s) {
        std::map<std::string, std::string> v;
        size_t i = 0;
        static const std::set<std::string> known = {"start", "end", "freq", "calendar", "bizrule", "fixing"};
        while (i < t.size()) {
            if (!known.count(t[i]) || i + 1 >= t.size() || t[i + 1] != ":" || v.count(t[i]))
                return false;
            const std::string n = t[i];
            std::string val;
            for (i += 2; i < t.size() && !(i + 1 < t.size() && t[i + 1] == ":"); ++i)
                val += t[i];
            v[n] = val;
        }
        try {
            if (!v.count("start") || !v.count("end") || !v.count("freq"))
                return false;
            s->start = Date::FromString(String_(v["start"]));
            s->end = Date::FromString(String_(v["end"]));
            s->freq = v["freq"];
            s->cal = v["calendar"];
            Holidays_ h{String_(s->cal)};
            if (v.count("bizrule")) {
                BizDayConvention_ b{String_(v["bizrule"])};
                s->biz = v["bizrule"];
            }
            if (v.count("fixing") && v["fixing"] != "begin" && v["fixing"] != "end")
                return false;
            s->begin = v["fixing"] == "begin";
            Periods(*s);
        } catch (const std::exception&) {
            return false;
        }
        return true;
    }
} // namespace
MC_SECTION("schedule descriptions", "all sequences of up to 4 of 11 parameter phrases (repeated, missing, unknown, malformed), and every single token of a full description deleted, doubled or replaced, every truncation: read as stated or rejected", 2) {
    std::string desc;
    if (x.Flip()) {
        static const char* ph[11] = {"START: 2022-02-01", "END: 2022-04-01", "FREQ: 1M", "FIXING: BEGIN", "CALENDAR: CN.SSE", "BizRule: Following", "STRT: 1", "FREQ:", "END 2022-04-01", "FREQ: 1M 3", ":"};
        const int n = 1 + x.Choose(4);
        for (int i = 0; i < n; ++i)
            desc += (i ? " " : "") + std::string(ph[x.Choose(11)]);
    } else {
        static const char* full[2] = {"START: 2022-02-01 END: 2022-04-01 FREQ: 1M CALENDAR: CN.SSE BizRule: Following FIXING: BEGIN", "FIXING: END END: 20220401 START: 20220201 FREQ: 2W"};
        const std::string f = full[x.Choose(2)];
        const int how = x.Choose(4);
        if (how == 0)
            desc = f.substr(0, 1 + x.Choose(static_cast<int>(f.size())));
        else {
            auto t = Toks(f);
            const int i = x.Choose(static_cast<int>(t.size()));
            if (how == 1)
                t.erase(t.begin() + i);
            else if (how == 2)
                t.insert(t.begin() + i, t[i]);
            else {
                static const char* w[6] = {":", "START", "1", "x", "-", "FIXING"};
                t[i] = w[x.Choose(6)];
            }
            for (auto& k : t)
                desc += (desc.empty() ? "" : " ") + k;
        }
    }
    if (desc.find(':') == std::string::npos)
        throw mc::Prune_(); // a name, not a schedule
    std::vector<Row_> rows = {{Cell_(String_(desc)), "x = x + dcf(ACT365F, PeriodBegin, PeriodEnd)"}};
    Sch_ s;
    std::vector<std::string> words;
    if (!Scan(desc, &words) || !ReadSch(words, &s)) {
        Rejects(x, rows);
        return;
    }
    Table_ t;
    for (auto& p : Periods(s))
        Add(&t, p[2], Toks("x = x + dcf(ACT365F, " + Iso(p[0]) + ", " + Iso(p[1]) + ")"));
    Compare(x, rows, t, false);
}
MC_SECTION("product data", "the table kept in a product description builds the same product every time it is asked", 1) {
    static const char* st[3] = {"x = x + 1", "y = x * 2", "z pays spot() + K"};
    std::vector<Row_> rows = {{Cell_(String_("k")), "3"}};
    Table_ t;
    t.konst["k"] = 3;
    for (int i = 0; i < 3; ++i) {
        const Date_ d = Today().AddDays(10 * (1 + x.Choose(3)));
        rows.push_back({Cell_(d), st[x.Choose(3)]});
        Add(&t, d, Toks(rows.back().text));
    }
    Compare(x, rows, t, false);
    Vector_<Cell_> d;
    Vector_<String_> e;
    for (auto& r : rows) {
        d.push_back(r.cell);
        e.push_back(String_(r.text));
    }
    Script::ScriptProductData_ data("p", d, e);
    std::string want;
    for (int k = 0; k < 3; ++k) {
        auto p = k == 0 ? Build(rows) : data.Product();
        p.PreProcess(false, k == 1);
        std::ostringstream o;
        p.Debug(o);
        if (k == 0)
            want = o.str();
        else if (k == 2 && o.str() != want)
            x.Fail("stored", "the product built from its description differs for %s", Text(rows).c_str());
    }
}
MC_SECTION("past observations", "spot() in an event before the evaluation date reads the stored observation of that date, or the product is rejected", 1) {
    const int o = -1 - x.Choose(3);
    std::vector<Row_> rows = {{Cell_(Today().AddDays(o)), "x = spot()"}, {Cell_(Today().AddDays(5)), "y = x"}};
    double got;
    try {
        auto p = Build(rows);
        p.PreProcess(false, false);
        got = p.VarValues()[0];
    } catch (const std::exception&) {
        return;
    }
    x.Step();
    x.Fail(got == 30.0 ? "placeholder 30" : "past spot", "spot() observed %d days before the evaluation date is %g although no observation is stored", -o, got);
}
MC_SECTION("large tables", "tables of 1..60 rows in 4 orders over 1..60 dates, past and future; 1..40 macros and constants in chains; 1..20 macro uses in a row", 1) {
    const int what = x.Choose(3);
    const int ph = x.Choose(4);
    std::vector<Row_> rows;
    Table_ t;
    if (what == 0) {
        const int n = 1 + x.Choose(60);
        static const char* st[6] = {"x = x + 1", "x = x * 0.5 + y", "y = x", "z pays x + 1", "if x > 1 then y = 5 else w pays 3 end", "u = spot() + x"};
        for (int i = 0; i < n; ++i) {
            const int slot = ph == 0 ? i : ph == 1 ? n - i : ph == 2 ? (i * 37) % n : i % 3;
            const int o = 11 * slot - (ph == 3 ? 11 : 11 * n / 3);
            const char* s = st[(i * 5 + ph) % (o < 0 ? 5 : 6)];
            const Date_ d = Today().AddDays(o);
            rows.push_back({Cell_(d), s});
            if (!Add(&t, d, Toks(s)))
                abort();
        }
    } else if (what == 1) {
        // a chain: m0 = 2, m1 = m0 + 1, ... each a macro standing for text
        const int n = 1 + x.Choose(40);
        std::string full = "( 2 + x )";
        std::vector<Row_> defs = {{Cell_(String_("m0")), "(2 + x)"}};
        for (int i = 1; i < n; ++i) {
            const std::string m = "m" + std::to_string(i);
            if (ph % 2) {
                defs.push_back({Cell_(String_(m)), "(m" + std::to_string(i - 1) + " + 1)"});
                full = "( " + full + " + 1 )";
            } else
                defs.push_back({Cell_(String_(m)), "(" + std::to_string(i) + " + x)"});
        }
        if (ph >= 2)
            std::reverse(defs.begin(), defs.end());
        rows = defs;
        const Date_ d = Today().AddDays(20);
        const std::string last = "m" + std::to_string(n - 1);
        rows.push_back({Cell_(d), "x = 3 y = " + last + " * m0"});
        const std::string body = ph % 2 || n == 1 ? full : "( " + std::to_string(n - 1) + " + x )";
        if (!Add(&t, d, Toks("x = 3 y = " + body + " * ( 2 + x )")))
            abort();
    } else {
        const int n = 1 + x.Choose(20);
        std::string a = "y = 0", b = a;
        for (int i = 0; i < n; ++i) {
            const std::string m = "c" + std::to_string((i + ph) % 5);
            a += " + " + m + " * " + std::to_string(i + 1);
            b += " + " + std::to_string(1 + (i + ph) % 5) + " * " + std::to_string(i + 1);
        }
        for (int i = 0; i < 5; ++i)
            rows.push_back({Cell_(String_("c" + std::to_string(i))), std::to_string(i + 1)});
        const Date_ d = Today().AddDays(20);
        rows.push_back({Cell_(d), a});
        if (!Add(&t, d, Toks(b)))
            abort();
    }
    Compare(x, rows, t, false);
    x.State(mc::HashStr(Text(rows)));
}
