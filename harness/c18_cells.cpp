// C18: cells, strings, enumerations and dictionaries convert without loss or confusion.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/operators.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/currency/currency.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/protocol/clearer.hpp>
#include <dal/protocol/collateraltype.hpp>
#include <dal/protocol/couponrate.hpp>
#include <dal/protocol/optiontype.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/string/strings.hpp>
#include <dal/string/stringutils.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/time/schedules.hpp>
#include <dal/utilities/dictionary.hpp>
#include <dal/utilities/numerics.hpp>
#include <cmath>
#include <climits>
#include <functional>
#include <optional>
#include <regex>
#include <set>
using namespace Dal;

namespace {
    std::string Std(const String_& s) { return std::string(s.begin(), s.end()); }
    char Fold(char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; }
    // comparison folds letters with the high bit set as well, as single-byte western encodings do
    char FoldByte(char c) { return char((c & 0x80) | Fold(c & 0x7f)); }
    std::string Upper(std::string s) {
        for (auto& c : s)
            c = FoldByte(c);
        return s;
    }
    std::string Squeeze(const std::string& s) {
        std::string r;
        for (char c : s)
            if (c != ' ' && c != '\t' && c != '_')
                r += Fold(c);
        return r;
    }
    std::string Show(const std::string& s) {
        std::string r = "'";
        char t[8];
        for (unsigned char c : s)
            if (c < 32 || c > 126) {
                snprintf(t, sizeof t, "\\x%02x", c);
                r += t;
            } else
                r += c;
        return r + "'";
    }
    std::string Word(mc::Ctx_& x, const std::vector<char>& a, int most) {
        std::string s;
        for (int i = 0, n = x.Choose(most + 1); i < n; ++i)
            s += x.Pick(a);
        return s;
    }
    template <class F> bool Throws(F f) {
        try {
            f();
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
    const std::vector<char> LETTERS = {'a', 'A', 'b', 'z', 'Z', '@', '[', '_', '`', '{', '\0', '\x7f', '\xc3', '\xff', '\x80', ' ', '\xe3'};
} // namespace

MC_SECTION("comparing texts", "every pair of texts of 0..2 characters over 17 (letters of both cases and their neighbours, control, high and zero bytes): equal exactly when alike up to the case of letters, consistently ordered", 2) {
    const std::string a = Word(x, LETTERS, 2), b = Word(x, LETTERS, 2);
    const String_ s{std::string(a)}, t{std::string(b)};
    x.Step();
    const bool same = Upper(a) == Upper(b);
    if ((s == t) != same || (t == s) != same || (s != t) == same)
        x.Fail("equality", "%s and %s: equal is %d", Show(a).c_str(), Show(b).c_str(), int(s == t));
    const bool less = s < t, more = t < s;
    if (less + more + same != 1 || (s > t) != more || (s <= t) == more || (s >= t) == less)
        x.Fail("order", "%s and %s: less %d, more %d, equal %d", Show(a).c_str(), Show(b).c_str(), less, more, same);
    if ((s.compare(t) == 0) != same || (s.compare(t) < 0) != less)
        x.Fail("order", "%s and %s: compare() disagrees", Show(a).c_str(), Show(b).c_str());
    if (b.find('\0') == std::string::npos && ((s == b.c_str()) != same || (b.c_str() == s) != same))
        x.Fail("equality", "%s and the literal %s", Show(a).c_str(), Show(b).c_str());
    std::set<String_> both = {s, t};
    if (both.size() != (same ? 1u : 2u))
        x.Fail("equality", "a set holds %zu of %s and %s", both.size(), Show(a).c_str(), Show(b).c_str());
    if ((s.find(t) == 0) != (Upper(a).find(Upper(b)) == 0))
        x.Fail("equality", "%s at the start of %s", Show(b).c_str(), Show(a).c_str());
    if (Std(String_(s + t)) != a + b || Std(String_(s)) != a)
        x.Fail("content", "joining %s and %s", Show(a).c_str(), Show(b).c_str());
}

MC_SECTION("ordering of three", "every triple of texts of 0..1 characters over all 256, third from 17: the order is transitive", 2) {
    const int i = x.Choose(257), j = x.Choose(257);
    const String_ a = i ? String_(1, char(i - 1)) : String_(), b = j ? String_(1, char(j - 1)) : String_();
    for (char c : LETTERS) {
        x.Step();
        const String_ t(1, c);
        if (a < b && b < t && !(a < t))
            x.Fail("order", "not transitive: %d %d %d", i - 1, j - 1, c);
        if (!(a < b) && !(b < a) && ((a < t) != (b < t) || (t < a) != (t < b)))
            x.Fail("order", "equivalent texts order differently: %d %d %d", i - 1, j - 1, c);
    }
    if ((a == b) != (i && j ? FoldByte(char(i - 1)) == FoldByte(char(j - 1)) : i == j))
        x.Fail("equality", "characters %d and %d", i - 1, j - 1);
}

MC_SECTION("condensed texts", "every text of 0..4 characters over 9 against every condensed text of 0..3 over 4: equivalent exactly when condensing gives it", 2) {
    static const std::vector<char> a = {'a', 'B', '1', ' ', '_', '\t', '\xe9', '/', '-'}, c = {'A', 'B', '1', '/'};
    const std::string s = Word(x, a, x.thorough_ ? 4 : 3), t = Word(x, c, 3);
    x.Step();
    const String_ cond = String::Condensed(String_(s));
    if (Std(cond) != Squeeze(s))
        x.Fail("condensed", "%s becomes %s", Show(s).c_str(), Show(Std(cond)).c_str());
    if (String::Equivalent(String_(s), t.c_str()) != (Squeeze(s) == t))
        x.Fail("equivalent", "%s and %s", Show(s).c_str(), Show(t).c_str());
    if (!String::Equivalent(String_(s), Squeeze(s).c_str()))
        x.Fail("equivalent", "%s and its condensed form", Show(s).c_str());
}

MC_SECTION("pieces of texts", "every text of 0..6 characters over three, split and joined", 2) {
    static const std::vector<char> a = {'x', ',', 'y'};
    const std::string s = Word(x, a, 6);
    x.Step();
    std::vector<std::string> want; // between separators; nothing after the last one
    std::string cur;
    for (char c : s)
        if (c == ',')
            want.push_back(cur), cur.clear();
        else
            cur += c;
    if (!cur.empty())
        want.push_back(cur);
    auto all = String::Split(String_(s), ',', true), some = String::Split(String_(s), ',', false);
    std::vector<std::string> full;
    for (const auto& w : want)
        if (!w.empty())
            full.push_back(w);
    auto eq = [](const Vector_<String_>& v, const std::vector<std::string>& w) {
        if (v.size() != w.size())
            return false;
        for (size_t i = 0; i < w.size(); ++i)
            if (Std(v[i]) != w[i])
                return false;
        return true;
    };
    if (!eq(all, want) || !eq(some, full))
        x.Fail("split", "%s splits into %zu and %zu", s.c_str(), (size_t)all.size(), (size_t)some.size());
    std::string join, join2;
    for (size_t i = 0; i < want.size(); ++i)
        join += (i ? ";" : "") + want[i];
    for (size_t i = 0; i < full.size(); ++i)
        join2 += (i ? ";" : "") + full[i];
    if (Std(String::Accumulate(all, ";", false)) != join || Std(String::Accumulate(some, ";")) != join2)
        x.Fail("join", "%s", s.c_str());
    if (Std(String::Accumulate(all, ";")) != join2)
        x.Fail("join", "%s skipping empty pieces gives %s", s.c_str(), Std(String::Accumulate(all, ";")).c_str());
}

MC_SECTION("next names", "200 next names from every text of 0..3 characters over four: each is new", 1) {
    static const std::vector<char> a = {'a', '0', '9', '5'};
    String_ n{Word(x, a, 3)};
    std::set<std::string> seen = {Std(n)};
    for (int i = 0; i < 200; ++i) {
        x.Step();
        n = String::NextName(n);
        if (!seen.insert(Std(n)).second)
            x.Fail("names", "%s comes again", n.c_str());
    }
}

namespace {
    const std::vector<double>& Numbers() {
        static const std::vector<double> v = [] {
            std::vector<double> r = {0.0, -0.0, INT_MAX, INT_MIN, 2147483648.0, -2147483649.0, 4294967296.0, 9007199254740993.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, INFINITY, -INFINITY};
            for (double m : {1.0, 1.0 / 3, 1.1, 9.999999999999999, 123456.7, 0.1 + 0.2, 2.4990000000000001, 7.0})
                for (int e = -20; e <= 20; ++e)
                    for (double s : {1.0, -1.0})
                        r.push_back(s * m * std::pow(10.0, e));
            for (int e = -1022; e < 1024; e += 51)
                r.push_back(std::ldexp(1.2345678901234567, e));
            return r;
        }();
        return v;
    }
} // namespace

MC_SECTION("numbers as texts", "690 numbers from the least to the greatest and 500 integers written and read back", 1) {
    const auto& v = Numbers();
    if (x.Flip()) {
        const double d = v[x.Choose((int)v.size())];
        x.Step();
        const String_ s = String::FromDouble(d);
        if (!String::IsNumber(s) || String::ToDouble(s) != d || std::signbit(String::ToDouble(s)) != std::signbit(d))
            x.Fail("number", "%.17g is written %s", d, s.c_str());
        if (Std(ToString(d)) != Std(s))
            x.Fail("number", "ToString differs for %.17g", d);
        const Cell_ c(d);
        for (const String_& t : {Cell::CoerceToString(c), Cell::ToString(c)})
            if (String::ToDouble(t) != d)
                x.Fail("number", "the cell %.17g is written %s", d, t.c_str());
        if (!(Cell::ConvertString(Cell::CoerceToString(c)) == c))
            x.Fail("number", "the cell %.17g does not convert back", d);
    } else {
        const int k = x.Choose(500);
        const int i = k < 100 ? k - 50 : k < 200 ? INT_MAX - (k - 100) : k < 300 ? INT_MIN + (k - 200) : (k - 400) * 9999991;
        x.Step();
        const String_ s = String::FromInt(i);
        if (String::ToInt(s) != i || std::to_string(i) != Std(s) || String::ToDouble(s) != i)
            x.Fail("number", "%d is written %s", i, s.c_str());
        if (Std(ToString(i)) != Std(s) || Cell::ToInt(Cell::FromInt(i)) != i || Std(Cell::ToString(Cell::FromInt(i))) != Std(s))
            x.Fail("number", "%d in a cell", i);
        if (AsInt(double(i)) != i || NearestInt(double(i)) != i || AsInt(std::ptrdiff_t(i)) != i)
            x.Fail("number", "%d does not convert to itself", i);
    }
}

MC_SECTION("whole numbers", "numbers and fractions around 0, small integers and the ends of the range of integers: converted exactly when in range, nearest by half", 1) {
    static const double base[] = {0, 1, -1, 2, 1000, 2147483646.0, 2147483647.0, 2147483648.0, -2147483647.0, -2147483648.0, -2147483649.0, 4e9, -4e9, 1e300, -1e300};
    const double b = base[x.Choose(15)];
    static const double off[] = {0, 0.25, -0.25, 0.49, -0.49, 0.51, -0.51, 0.75, -0.75, 1e-10, -1e-10};
    const double d = b + off[x.Choose(11)];
    x.Step();
    const bool in = d > -2147483649.0 && d < 2147483648.0;
    int i = 0;
    if (Throws([&] { i = AsInt(d); }) == in)
        x.Fail("range", "AsInt(%.17g) is %s", d, in ? "refused" : "accepted");
    const double t = std::trunc(d);
    if (in && i != t && !(std::fabs(d - std::round(d)) < 1e-8 && i == std::round(d)))
        x.Fail("range", "AsInt(%.17g) = %d", d, i);
    const double r = std::round(d);
    const bool in2 = r >= -2147483648.0 && r <= 2147483647.0;
    if (Throws([&] { i = NearestInt(d); }) == in2)
        x.Fail("range", "NearestInt(%.17g) is %s", d, in2 ? "refused" : "accepted");
    if (in2 && i != r)
        x.Fail("range", "NearestInt(%.17g) = %d", d, i);
    const bool whole = d == std::trunc(d) && in;
    const Cell_ c(d);
    if (Cell::IsInt(c) != whole || Throws([&] { i = Cell::ToInt(c); }) == whole || (whole && i != d))
        x.Fail("range", "the cell %.17g as an integer", d);
    if (!Throws([&] { AsInt(double(NAN)); }) || !Throws([&] { NearestInt(NAN); }) || Cell::IsInt(Cell_(double(NAN))))
        x.Fail("range", "an undefined number is an integer");
    for (std::ptrdiff_t w : {(std::ptrdiff_t)INT_MAX, (std::ptrdiff_t)INT_MIN, (std::ptrdiff_t)INT_MAX + 1, (std::ptrdiff_t)INT_MIN - 1, PTRDIFF_MAX, PTRDIFF_MIN})
        if (Throws([&] { i = AsInt(w); }) == (w >= INT_MIN && w <= INT_MAX))
            x.Fail("range", "AsInt(%td)", w);
}

MC_SECTION("texts as numbers", "every text of 0..5 characters over ten (digits, sign, point, exponent, letters, blank): accepted exactly when the whole text is a number, with its value", 2) {
    static const std::vector<char> a = {'1', '0', '9', '.', 'e', '-', '+', 'x', ' ', ','};
    const std::string s = Word(x, a, x.thorough_ ? 6 : 5);
    x.Step();
    static const std::regex num("\\s*[+-]?(\\d+\\.?\\d*|\\.\\d+)([eE][+-]?\\d+)?"), hex("\\s*[+-]?0[xX]([0-9a-fA-F]+\\.?[0-9a-fA-F]*|\\.[0-9a-fA-F]+)([pP][+-]?\\d+)?"), integer("\\s*[+-]?\\d+");
    const bool isNum = std::regex_match(s, num) || std::regex_match(s, hex), isInt = std::regex_match(s, integer);
    if (String::IsNumber(String_(s)) != isNum)
        // too large for a number
        if (!(isNum && std::isinf(std::strtod(s.c_str(), nullptr))))
            x.Fail("number", "%s is%s a number", Show(s).c_str(), isNum ? " not" : "");
    double d = 0;
    const bool refused = Throws([&] { d = String::ToDouble(String_(s)); });
    if (refused == String::IsNumber(String_(s)))
        x.Fail("number", "%s is %s", Show(s).c_str(), refused ? "refused" : "accepted");
    if (!refused && d != std::strtod(s.c_str(), nullptr))
        x.Fail("number", "%s reads as %.17g", Show(s).c_str(), d);
    int i = 0;
    if (Throws([&] { i = String::ToInt(String_(s)); }) == isInt)
        x.Fail("integer", "%s is %s as an integer", Show(s).c_str(), isInt ? "refused" : "accepted");
    if (isInt && i != std::strtol(s.c_str(), nullptr, 10))
        x.Fail("integer", "%s reads as %d", Show(s).c_str(), i);
}

MC_SECTION("logical texts", "every text of one character, and of 0..5 over nine, every case of the words; every vector of 0..6 logical values, as letters and separated", 2) {
    const int what = x.Choose(3);
    if (what == 0) {
        static const std::vector<char> a = {'t', 'R', 'u', 'E', 'f', 'a', '1', '0', 'n'};
        const std::string s = x.Flip() ? std::string(1, char(x.Choose(256))) : Word(x, a, x.thorough_ ? 6 : 5), u = Upper(s);
        x.Step();
        const int v = u == "T" || u == "Y" || u == "1" || u == "TRUE" ? 1 : u == "F" || u == "N" || u == "0" || u == "FALSE" ? 0 : -1;
        bool b = false;
        const bool refused = Throws([&] { b = String::ToBool(String_(s)); });
        if (refused != (v < 0) || (!refused && b != v))
            x.Fail("logical", "%s", Show(s).c_str());
    } else if (what == 1) {
        std::string s = x.Flip() ? "true" : "false";
        const bool v = s == "true";
        for (auto& c : s)
            if (x.Flip())
                c = Fold(c);
        x.Step();
        if (String::ToBool(String_(s)) != v || String::ToBoolVector(String_(s)) != Vector_<bool>(1, v) || String::ToBool(String::FromBool(v)) != v)
            x.Fail("logical", "%s", s.c_str());
        if (!(Cell::ConvertString(String_(s)) == Cell_(v)))
            x.Fail("logical", "%s does not convert to a logical cell", s.c_str());
    } else {
        Vector_<bool> v;
        for (int i = 0, n = x.Choose(7); i < n; ++i)
            v.push_back(x.Flip());
        x.Step();
        const Cell_ c = Cell::FromBoolVector(v);
        if (Cell::ToBoolVector(c) != v)
            x.Fail("logical", "%s does not read back", Cell::ToString(c).c_str());
        std::string s;
        const char* words[] = {"false", "TRUE"};
        for (size_t i = 0; i < v.size(); ++i)
            s += std::string(i ? "," : "") + words[v[i] ? 1 : 0];
        if (!v.empty() && String::ToBoolVector(String_(s)) != v)
            x.Fail("logical", "%s", s.c_str());
        if (v.size() == 1 && Cell::ToBoolVector(Cell_(bool(v[0]))) != v)
            x.Fail("logical", "a logical cell as a vector");
        if (!Throws([] { Cell::ToBoolVector(Cell_(1.0)); }) || !Throws([] { Cell::ToBoolVector(Cell_("TQ")); }) || !Throws([] { Cell::ToBoolVector(Cell_()); }))
            x.Fail("logical", "a vector of logical values from something else");
    }
}

// -------------------------------------------------------------------- cells
namespace {
    struct Value_ {
        int kind_; // 0 bool, 1 number, 2 date, 3 time, 4 text, 5 empty
        double d_ = 0;
        std::string s_;
        Date_ date_ = Date_(2020, 1, 1);
        DateTime_ time_ = DateTime_(Date_(2020, 1, 1), 0.0);
    };
    std::vector<Value_> Values() {
        std::vector<Value_> v;
        auto num = [&](double d) { v.push_back({1, d, {}}); };
        v.push_back({5});
        v.push_back({0, 1}), v.push_back({0, 0});
        num(0), num(1), num(-2.5), num(2147483648.0), num(INT_MAX), num(1e300);
        Value_ d{2};
        d.date_ = Date_(2024, 2, 29);
        v.push_back(d);
        Value_ t{3};
        t.time_ = DateTime_(Date_(2024, 2, 29), 0.5);
        v.push_back(t);
        t.time_ = DateTime_(Date_(2024, 2, 29), 0.0);
        v.push_back(t);
        for (const char* s : {"", "x", "X", "TRUE", "1", "2024-02-29", " ", "\t_", "0", "a longer text which does not fit in place"})
            v.push_back({4, 0, s});
        return v;
    }
    Cell_ Make(const Value_& v) {
        switch (v.kind_) {
        case 0: return Cell_(v.d_ != 0);
        case 1: return Cell_(v.d_);
        case 2: return Cell_(v.date_);
        case 3: return Cell_(v.time_);
        case 4: return Cell_(String_(v.s_));
        }
        return Cell_();
    }
    std::string Name(const Value_& v) {
        char t[64];
        snprintf(t, sizeof t, "kind %d %.17g %s", v.kind_, v.d_, v.s_.c_str());
        return t;
    }
    bool Same(const Value_& a, const Value_& b) {
        return a.kind_ == b.kind_ && a.d_ == b.d_ && Upper(a.s_) == Upper(b.s_) && a.date_ == b.date_ && a.time_ == b.time_;
    }
    // T or a refusal
    template <class T, class F> void Expect(mc::Ctx_& x, const char* what, const Value_& v, bool ok, const T& want, F f) {
        std::optional<T> got;
        try {
            got = f();
        } catch (const std::exception&) {
        }
        if (got.has_value() != ok)
            x.Fail("conversion", "%s of %s is %s", what, Name(v).c_str(), ok ? "refused" : "accepted");
        if (ok && !(*got == want))
            x.Fail("conversion", "%s of %s has another value", what, Name(v).c_str());
    }
    void Judge(mc::Ctx_& x, const Cell_& c, const Value_& v) {
        x.Step();
        const int k = v.kind_;
        const bool whole = k == 1 && v.d_ == std::trunc(v.d_) && std::fabs(v.d_) < 2147483648.0;
        if (Cell::IsBool(c) != (k == 0) || Cell::IsDouble(c) != (k == 1) || Cell::IsDate(c) != (k == 2) || Cell::IsDateTime(c) != (k == 3) || Cell::IsString(c) != (k == 4))
            x.Fail("kind", "the cell with %s says it is something else", Name(v).c_str());
        if (Cell::IsEmpty(c) != (k == 5 || (k == 4 && v.s_.empty())) || Cell::IsInt(c) != whole)
            x.Fail("kind", "the cell with %s: empty %d, integer %d", Name(v).c_str(), Cell::IsEmpty(c), Cell::IsInt(c));
        Expect(x, "ToBool", v, k == 0, v.d_ != 0, [&] { return Cell::ToBool(c); });
        Expect(x, "ToDouble", v, k <= 1, v.d_, [&] { return Cell::ToDouble(c); });
        Expect(x, "ToInt", v, k == 0 || whole, int(whole || k == 0 ? v.d_ : 0), [&] { return Cell::ToInt(c); });
        Expect(x, "ToDate", v, k == 2, v.date_, [&] { return Cell::ToDate(c); });
        Expect(x, "ToDateTime", v, k == 3, v.time_, [&] { return Cell::ToDateTime(c); });
        const bool empty = k == 5 || (k == 4 && v.s_.empty());
        Expect(x, "ToDouble with default", v, k <= 1 || empty, empty ? 7.5 : v.d_, [&] { return Cell::ToDouble(c, 7.5); });
        Expect(x, "ToInt with default", v, k == 0 || whole || empty, empty ? 7 : int(whole || k == 0 ? v.d_ : 0), [&] { return Cell::ToInt(c, 7); });
        std::string text;
        switch (k) {
        case 0: text = v.d_ ? "TRUE" : "FALSE"; break;
        case 1: text = Std(whole ? String::FromInt(int(v.d_)) : String::FromDouble(v.d_)); break;
        case 2: text = Std(Date::ToString(v.date_)); break;
        case 3: text = Std(DateTime::ToString(v.time_)); break;
        case 4: text = v.s_; break;
        }
        if (Std(Cell::ToString(c)) != text)
            x.Fail("conversion", "%s is written %s", Name(v).c_str(), Cell::ToString(c).c_str());
        if (Upper(Std(Cell::CoerceToString(c))) != Upper(text))
            x.Fail("conversion", "%s is written %s", Name(v).c_str(), Cell::CoerceToString(c).c_str());
        if (k != 4 && !(Cell::ConvertString(Cell::CoerceToString(c)) == c))
            x.Fail("conversion", "%s does not convert back from text", Name(v).c_str());
        if ((c == String_(text)) != (k == 4) || (String_(text) == c) != (k == 4))
            x.Fail("kind", "%s compared with its text", Name(v).c_str());
        if (Cell::TypeCheck_<double>()(c) != (k == 1) || Cell::TypeCheck_<bool, String_>()(c) != (k == 0 || k == 4) || Cell::TypeCheck_<Date_, DateTime_, std::monostate>()(c) != (k == 2 || k == 3 || k == 5))
            x.Fail("kind", "TypeCheck_ of %s", Name(v).c_str());
        struct Which_ {
            int operator()(bool) const { return 0; }
            int operator()(double) const { return 1; }
            int operator()(const Date_&) const { return 2; }
            int operator()(const DateTime_&) const { return 3; }
            int operator()(const String_&) const { return 4; }
            int operator()(std::monostate) const { return 5; }
        };
        if (c.Visit(Which_()) != k)
            x.Fail("kind", "a visitor sees %s as another kind", Name(v).c_str());
    }
} // namespace

MC_SECTION("cells through histories", "every sequence of three operations (thorough four) on two cells: assigning each of 22 values, copying, moving, clearing; after each, every query and conversion of both", 3) {
    static const std::vector<Value_> vals = Values();
    Cell_ c[2];
    Value_ v[2] = {{5}, {5}};
    const int n = x.thorough_ ? 4 : 3;
    for (int i = 0; i < n; ++i) {
        const int k = x.Choose((int)vals.size() + 6);
        if (k < (int)vals.size()) {
            const auto& w = vals[k];
            // each way of assigning
            switch (w.kind_) {
            case 0: c[0] = w.d_ != 0; break;
            case 1:
                if (w.d_ == 1)
                    c[0] = 1;
                else
                    c[0] = w.d_;
                break;
            case 2: c[0] = w.date_; break;
            case 3: c[0] = w.time_; break;
            case 4:
                if (w.s_ == "x")
                    c[0] = "x";
                else
                    c[0] = String_(w.s_);
                break;
            default: c[0] = Cell_();
            }
            v[0] = w;
        } else
            switch (k - (int)vals.size()) {
            case 0: c[1] = c[0]; v[1] = v[0]; break;
            case 1: c[0] = c[1]; v[0] = v[1]; break;
            case 2: std::swap(c[0], c[1]); std::swap(v[0], v[1]); break;
            case 3: c[0].Clear(); v[0] = {5}; break;
            case 4: {
                const Cell_& self = c[0];
                c[0] = self;
                break;
            }
            default: {
                Cell_ copy(c[1]);
                const Value_ was = v[1];
                c[1].Clear();
                v[1] = {5};
                Judge(x, copy, was);
                break;
            }
            }
        for (int j = 0; j < 2; ++j)
            Judge(x, c[j], v[j]);
        if ((c[0] == c[1]) != Same(v[0], v[1]))
            x.Fail("kind", "%s and %s compare %d", Name(v[0]).c_str(), Name(v[1]).c_str(), int(c[0] == c[1]));
    }
}

MC_SECTION("texts as cells", "every text of 0..4 characters over twelve, and 40 dates and times in every supported form: converts to a number, date, time, logical value or itself", 2) {
    const int what = x.Choose(2);
    if (what == 0) {
        static const std::vector<char> a = {'1', '-', '.', 'e', 'T', 'r', '/', ':', ' ', '0', ',', 'n'};
        const std::string s = Word(x, a, 4);
        x.Step();
        Cell_ c;
        const bool refused = Throws([&] { c = Cell::ConvertString(String_(s)); });
        if (refused && !Date::IsDateString(String_(s)) && !DateTime::IsDateTimeString(String_(s)))
            x.Fail("text", "%s is refused", Show(s).c_str());
        if (refused)
            return;
        if (s.empty() != std::holds_alternative<std::monostate>(c.val_))
            x.Fail("text", "%s becomes empty", Show(s).c_str());
        if (Cell::IsDouble(c) != String::IsNumber(String_(s)) || (Cell::IsDouble(c) && Cell::ToDouble(c) != String::ToDouble(String_(s))))
            x.Fail("text", "%s as a number", Show(s).c_str());
        if (Cell::IsString(c) && Std(Cell::ToString(c)) != s)
            x.Fail("text", "%s becomes %s", Show(s).c_str(), Cell::ToString(c).c_str());
    } else {
        const int y = 2000 + x.Choose(5), m = 1 + x.Choose(12), d = 1 + x.Choose(31), h = x.Choose(3);
        char t[64];
        snprintf(t, sizeof t, "%04d-%02d-%02d%s", y, m, d, h == 0 ? "" : h == 1 ? " 23:59:01" : " 07:30");
        x.Step();
        Cell_ c;
        static const int days[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
        const bool valid = d <= days[m - 1] + (m == 2 && y % 4 == 0);
        const bool refused = Throws([&] { c = Cell::ConvertString(t); });
        if (refused == valid)
            x.Fail("text", "%s is %s", t, refused ? "refused" : "accepted");
        if (refused)
            return;
        if (h == 0 ? !(c == Cell_(Date_(y, m, d))) : !(c == Cell_(DateTime_(Date_(y, m, d), h == 1 ? 23 : 7, h == 1 ? 59 : 30, h == 1 ? 1 : 0))))
            x.Fail("text", "%s becomes %s", t, Cell::ToString(c).c_str());
    }
}

// -------------------------------------------------------------------- dictionaries
MC_SECTION("dictionary histories", "every sequence of three (thorough four) insertions under eight spellings of four keys: kept under the key irrespective of case and blanks, second one refused", 3) {
    static const std::vector<std::string> keys = {"a", "A", " a_", "ab", "A B", "\tb", "B", "long key"};
    Dictionary_ d;
    std::map<std::string, double> m;
    for (int i = 0, n = x.Choose(x.thorough_ ? 5 : 4); i < n; ++i) {
        const std::string k = x.Pick(keys);
        const bool dup = m.count(Squeeze(k)) > 0;
        if (Throws([&] { d.Insert(String_(k), Cell_(double(i))); }) != dup)
            x.Fail("dictionary", "%s is %s", Show(k).c_str(), dup ? "accepted twice" : "refused");
        if (!dup)
            m[Squeeze(k)] = i;
    }
    x.Step();
    if (d.Size() != (int)m.size())
        x.Fail("dictionary", "%d entries instead of %zu", d.Size(), m.size());
    for (const auto& k : keys) {
        const auto p = m.find(Squeeze(k));
        const bool in = p != m.end();
        if (d.Has(String_(k)) != in)
            x.Fail("dictionary", "has %s: %d", Show(k).c_str(), !in);
        if (Throws([&] { d.At(String_(k)); }) == in || (in && !(d.At(String_(k)) == Cell_(p->second))))
            x.Fail("dictionary", "at %s", Show(k).c_str());
        if (!(d.At(String_(k), true) == (in ? Cell_(p->second) : Cell_())))
            x.Fail("dictionary", "optional at %s", Show(k).c_str());
        auto dbl = [](const Cell_& c) { return Cell::ToDouble(c); };
        if (Dictionary::Extract(d, String_(k), dbl, -5.0) != (in ? p->second : -5.0) || Throws([&] { Dictionary::Extract(d, String_(k), dbl); }) == in)
            x.Fail("dictionary", "extracting %s", Show(k).c_str());
    }
    auto it = m.begin();
    for (const auto& kv : d) {
        if (Std(kv.first) != it->first || !(kv.second == Cell_(it->second)))
            x.Fail("dictionary", "iteration gives %s", kv.first.c_str());
        ++it;
    }
}

namespace {
    bool Alike(const Dictionary_& a, const Dictionary_& b) {
        if (a.Size() != b.Size())
            return false;
        auto p = b.begin();
        for (const auto& kv : a) {
            if (Std(kv.first) != Std(p->first) || !(kv.second == p->second))
                return false;
            if (Cell::IsString(kv.second) && Std(Cell::ToString(kv.second)) != Std(Cell::ToString(p->second)))
                return false;
            ++p;
        }
        return true;
    }
} // namespace

MC_SECTION("dictionaries as texts", "every dictionary of 0..3 entries over 20 values of all kinds: printed and read back the same, refused when a text holds a separator", 2) {
    static const std::vector<Cell_> vals = {Cell_(), Cell_(true), Cell_(false), Cell_(1.0), Cell_(-2.5), Cell_(1e-9), Cell_(1.0 / 3), Cell_(3e9), Cell_(1e300), Cell_(5e-324), Cell_(Date_(2024, 2, 29)), Cell_(DateTime_(Date_(2024, 2, 29), 23, 59, 59)), Cell_("x"), Cell_("two words"), Cell_("a=b"), Cell_("="), Cell_(" x "), Cell_("\xc3\xa9"), Cell_("a;b"), Cell_(";")};
    static const char* keys[] = {"ONE", "TWO", "Z/3"};
    Dictionary_ d;
    bool bad = false;
    for (int i = 0; i < 3; ++i)
        if (const int k = x.Choose((int)vals.size() + 1)) {
            d.Insert(keys[i], vals[k - 1]);
            bad |= k > 18;
        }
    x.Step();
    Dictionary_ e;
    String_ s;
    if (Throws([&] { s = Dictionary::ToString(d); })) {
        if (!bad)
            x.Fail("text", "a dictionary is not printed");
        return;
    }
    if (Throws([&] { e = Dictionary::FromString(s); }))
        x.Fail("text", "%s is not read", s.c_str());
    if (!Alike(d, e))
        x.Fail("text", "%s reads back as %s", s.c_str(), Dictionary::ToString(e).c_str());
}

MC_SECTION("texts as dictionaries", "every text of 0..7 characters over five: refused, or what is read prints and reads the same and holds exactly the pieces", 2) {
    static const std::vector<char> a = {'a', '=', ';', '1', ' '};
    const std::string s = Word(x, a, x.thorough_ ? 8 : 7);
    x.Step();
    // reference
    std::map<std::string, std::string> want;
    bool ok = true;
    for (size_t i = 0; i < s.size();) {
        size_t j = s.find(';', i);
        if (j == std::string::npos)
            j = s.size();
        const std::string e = s.substr(i, j - i);
        i = j + 1;
        if (e.empty())
            continue;
        const size_t q = e.find('=');
        if (q == std::string::npos || Squeeze(e.substr(0, q)).empty() || !want.insert({Squeeze(e.substr(0, q)), e.substr(q + 1)}).second) {
            ok = false;
            break;
        }
    }
    Dictionary_ d;
    const bool refused = Throws([&] { d = Dictionary::FromString(String_(s)); });
    if (refused == ok)
        x.Fail("text", "%s is %s", Show(s).c_str(), refused ? "refused" : "accepted");
    if (refused)
        return;
    if (d.Size() != (int)want.size())
        x.Fail("text", "%s has %d entries", Show(s).c_str(), d.Size());
    for (const auto& kv : want)
        if (!(d.At(String_(kv.first)) == Cell::ConvertString(String_(kv.second))))
            x.Fail("text", "%s: another value at %s", Show(s).c_str(), kv.first.c_str());
    if (!Alike(Dictionary::FromString(Dictionary::ToString(d)), d))
        x.Fail("text", "%s prints as %s", Show(s).c_str(), Dictionary::ToString(d).c_str());
}

// -------------------------------------------------------------------- enumerations, as documented in their headers
namespace {
    struct Enum_ {
        const char* name_;
        std::vector<std::vector<std::string>> names_; // of each value: printed name first
        std::function<std::string(const std::string&)> read_; // printed name; throws
        std::function<std::vector<std::string>()> all_;
        std::function<bool(const std::string&, const std::string&, bool*)> same_; // two values; less
    };
    template <class E, class L> Enum_ Describe(const char* n, L list, std::vector<std::vector<std::string>> names) {
        Enum_ r;
        r.name_ = n;
        r.names_ = names;
        r.read_ = [](const std::string& s) {
            const E e{String_(s)};
            const Cell_ c = Cell::FromEnum(e);
            if (!(Cell::ToEnum<E>(c) == e) || !(Cell::ToEnum<E>(c, E()) == e) || !(Cell::ToEnum<E>(Cell_(), e) == e))
                return std::string("a cell changes it");
            return std::string(e.String());
        };
        r.all_ = [list] {
            std::vector<std::string> v;
            for (const auto& e : list())
                v.push_back(e.String());
            return v;
        };
        r.same_ = [](const std::string& a, const std::string& b, bool* less) {
            const E e{String_(a)}, f{String_(b)};
            *less = e < f;
            if ((e == f) == (e != f))
                throw std::runtime_error("== and != agree");
            return e == f;
        };
        return r;
    }
    const std::vector<Enum_>& Enums() {
        static const std::vector<Enum_> v = {
            Describe<Clearer_>("Clearer", ClearerListAll, {{"CME"}, {"LCH"}}),
            Describe<CollateralType_>("CollateralType", CollateralTypeListAll, {{"OIS"}, {"GC"}, {"NONE"}}),
            Describe<TradedRate_>("TradedRate", TradedRateListAll, {{"LIBOR_3M_CME"}, {"LIBOR_3M_LCH"}, {"LIBOR_3M_FUT"}, {"LIBOR_6M_CME"}, {"LIBOR_6M_LCH"}}),
            Describe<OptionType_>("OptionType", OptionTypeListAll, {{"CALL", "C"}, {"PUT", "P"}, {"STRADDLE", "V", "C+P"}}),
            Describe<Ccy_>("Ccy", CcyListAll, {{"USD"}, {"EUR"}, {"GBP"}, {"JPY"}, {"AUD"}, {"CHF"}, {"CAD"}, {"CNY"}}),
            Describe<PeriodLength_>("PeriodLength", PeriodLengthListAll, {{"ANNUAL", "12M"}, {"SEMIANNUAL", "SEMI", "6M"}, {"QUARTERLY", "3M"}, {"MONTHLY", "1M"}}),
            Describe<DayBasis_>("DayBasis", DayBasisListAll, {{"ACT_365F", "ACT/365F", "ACT_365FIXED", "ACT/365FIXED"}, {"ACT_365L", "ACT/365L", "ISMA_Year"}, {"ACT_360", "ACT/360", "MONEY", "ACTUAL/360"}, {"ACT_ACT", "ACT/ACT", "ACTUAL/ACTUAL"}, {"BOND", "30_360", "30/360", "30_360_US"}}),
            Describe<DateGeneration_>("DateGeneration", DateGenerationListAll, {{"Backward"}, {"Forward"}}),
            Describe<BizDayConvention_>("BizDayConvention", BizDayConventionListAll, {{"Unadjusted"}, {"Following"}, {"ModifiedFollowing"}}),
            Describe<RepositoryErase_>("RepositoryErase", RepositoryEraseListAll, {{"NONE"}, {"NAME_NONEMPTY"}, {"NAME"}, {"TYPE"}}),
            Describe<RNGType_>("RNGType", RNGTypeListAll, {{"IRN", "ShuffledIRN"}, {"MRG32", "MRG32k32a"}}),
        };
        return v;
    }
    // the value a text stands for
    int Find(const Enum_& e, const std::string& s) {
        for (size_t i = 0; i < e.names_.size(); ++i)
            for (const auto& n : e.names_[i])
                if (Squeeze(n) == Squeeze(s))
                    return (int)i;
        return -1;
    }
    void Read(mc::Ctx_& x, const Enum_& e, const std::string& s) {
        x.Step();
        const int want = s.empty() ? -1 : Find(e, s);
        std::string got;
        const bool refused = Throws([&] { got = e.read_(s); });
        if (refused != (want < 0))
            x.Fail("enumeration", "%s %s is %s", e.name_, Show(s).c_str(), refused ? "refused" : ("taken as " + got).c_str());
        if (want >= 0 && Squeeze(got) != Squeeze(e.names_[want][0]))
            x.Fail("enumeration", "%s %s is taken as %s", e.name_, Show(s).c_str(), got.c_str());
    }
} // namespace

MC_SECTION("enumerations", "all 11 public enumerations: every documented name with every single character deleted, replaced by each of 8, doubled, in three cases, with blanks; every pair of values; the list of all values", 2) {
    const auto& e = x.Pick(Enums());
    const auto& names = e.names_[x.Choose((int)e.names_.size())];
    for (const auto& n : names) {
        Read(x, e, n);
        std::string lower = n, mixed = n;
        for (size_t i = 0; i < n.size(); ++i) {
            lower[i] = (char)tolower(n[i]);
            mixed[i] = i % 2 ? lower[i] : Fold(n[i]);
        }
        Read(x, e, lower), Read(x, e, mixed), Read(x, e, " " + n), Read(x, e, n + "\t"), Read(x, e, n + "x"), Read(x, e, n + n), Read(x, e, "");
        for (size_t i = 0; i < n.size(); ++i) {
            std::string m = n;
            m.erase(i, 1);
            Read(x, e, m);
            m = n;
            m.insert(i, 1, '_');
            Read(x, e, m);
            m = n;
            m.insert(i, 1, n[i]);
            Read(x, e, m);
            for (char c : {'A', 'L', '3', '6', '0', '\xff', 'F', '/'}) {
                m = n;
                m[i] = c;
                Read(x, e, m);
            }
        }
        for (size_t i = 1; i < n.size(); ++i)
            Read(x, e, n.substr(0, i)), Read(x, e, n.substr(i));
    }
    // all values, once each
    const auto all = e.all_();
    if (all.size() != e.names_.size())
        x.Fail("enumeration", "%s lists %zu values", e.name_, all.size());
    for (size_t i = 0; i < all.size(); ++i) {
        if (Squeeze(all[i]) != Squeeze(e.names_[i][0]))
            x.Fail("enumeration", "%s lists %s", e.name_, all[i].c_str());
        for (size_t j = 0; j < all.size(); ++j) {
            bool less = false;
            if (e.same_(all[i], all[j], &less) != (i == j) || less != (i < j))
                x.Fail("enumeration", "%s: %s and %s compare wrongly", e.name_, all[i].c_str(), all[j].c_str());
        }
    }
}

MC_SECTION("attributes of enumerations", "every option type with 49 spot/strike pairs; every traded rate; every pair of period and clearing house", 1) {
    static const double v[] = {0.0, 1.0, -1.0, 0.5, 100.0, 1e-300, 1e300};
    const double s = v[x.Choose(7)], k = v[x.Choose(7)];
    x.Step();
    const double c = std::max(s - k, 0.0), p = std::max(k - s, 0.0);
    const OptionType_ call("CALL"), put("PUT"), both("STRADDLE");
    if (call.Payout(s, k) != c || put.Payout(s, k) != p || both.Payout(s, k) != std::max(c, p))
        x.Fail("attribute", "payouts at %g, %g", s, k);
    struct {
        const char* n;
        int m;
    } pl[] = {{"ANNUAL", 12}, {"SEMI", 6}, {"3M", 3}, {"MONTHLY", 1}};
    for (const auto& q : pl) {
        if (PeriodLength_(q.n).Months() != q.m)
            x.Fail("attribute", "%s has %d months", q.n, PeriodLength_(q.n).Months());
        for (const char* h : {"CME", "LCH"}) {
            const bool exists = q.m == 3 || q.m == 6;
            TradedRate_ r;
            if (Throws([&] { r = FindRate(PeriodLength_(q.n), Clearer_(String_(h))); }) == exists)
                x.Fail("attribute", "rate for %s, %s", q.n, h);
            if (exists && (r.Period().Months() != q.m || Std(r.Clearer().String()) != h || Std(r.String()).find(std::to_string(q.m) + "M") == std::string::npos))
                x.Fail("attribute", "rate for %s, %s is %s", q.n, h, r.String());
        }
    }
    const TradedRate_ fut("LIBOR_3M_FUT");
    if (fut.Period().Months() != 3 || Std(fut.Clearer().String()) != "CME")
        x.Fail("attribute", "futures rate");
}

MC_SECTION("large dictionaries", "dictionaries of 1..500 entries (9 sizes) of values of all kinds by position, inserted in 3 orders: every key found in any spelling and no other, printed and read back the same", 2) {
    static const int NS[] = {1, 4, 10, 31, 32, 33, 100, 256, 500};
    const int n = NS[x.Choose(9)], order = x.Choose(3), kinds = x.Choose(3);
    auto val = [&](int i) {
        switch (kinds == 0 ? 0 : kinds == 1 ? i % 2 : i % 5) {
        case 0: return Cell_(i + 0.25);
        case 1: return Cell_(String_("text " + std::to_string(i)));
        case 2: return Cell_(Date_(2024, 2, 29).AddDays(i));
        case 3: return Cell_(i % 2 == 0);
        default: return Cell_(DateTime_(Date_(2024, 2, 29).AddDays(i), 23, 59, i % 60));
        }
    };
    Dictionary_ d;
    for (int k = 0; k < n; ++k) {
        const int i = order == 0 ? k : order == 1 ? n - 1 - k : (k * 7 + 3) % n;
        const std::string key = "Key " + std::to_string(i) + (i % 3 ? "" : " of some length");
        if (order == 2 && n % 7 == 0)
            throw mc::Prune_();
        d.Insert(String_(key), val(i));
        if (k % 50 == 49 || k + 1 == n)
            if (!Throws([&] { d.Insert(String_("KEY" + std::to_string(i) + (i % 3 ? "" : "ofSomeLength")), Cell_(1.0)); }))
                x.Fail("dictionary", "a second value for key %d is accepted", i);
    }
    x.Step();
    if (d.Size() != n)
        x.Fail("dictionary", "%d entries instead of %d", d.Size(), n);
    for (int i = 0; i < n + 3; ++i) {
        const String_ key("kEY" + std::to_string(i) + (i % 3 ? "" : " OF SOME length"));
        if (d.Has(key) != (i < n) || (i < n && !(d.At(key) == val(i))))
            x.Fail("dictionary", "key %d of %d", i, n);
    }
    const String_ s = Dictionary::ToString(d);
    const Dictionary_ e = Dictionary::FromString(s);
    if (!Alike(d, e))
        x.Fail("text", "a dictionary of %d entries reads back differently", n);
    x.State((n * 3 + order) * 3 + kinds);
}

MC_SECTION("long texts", "texts of 12 lengths up to 5000 differing in one place (every power of two, first, last) or in length: compared, split, joined, condensed", 1) {
    static const int NS[] = {1, 7, 8, 15, 16, 17, 31, 32, 33, 255, 1000, 5000};
    const int n = NS[x.Choose(12)];
    std::string a;
    for (int i = 0; i < n; ++i)
        a += i % 11 == 10 && i + 1 < n ? ' ' : (char)((i % 2 ? 'a' : 'A') + i % 26);
    auto flip = [](char c) { return isalpha(c) ? (char)(c ^ 32) : c; };
    std::string b;
    for (char c : a)
        b += flip(c);
    x.Step();
    if (!(String_(a) == String_(b)) || String_(a) < String_(b) || String_(b) < String_(a) || !String::Equivalent(String_(a), String::Condensed(String_(b)).c_str()))
        x.Fail("long", "texts of %d characters alike up to case differ", n);
    for (int p = 0; p < n; p = p < n - 1 && 2 * p + 1 > n - 1 ? n - 1 : 2 * p + 1) {
        if (a[p] == ' ')
            continue;
        std::string c = b;
        c[p] = c[p] == 'z' || c[p] == 'Z' ? '~' : c[p] + 1;
        if (String_(a) == String_(c) || !(String_(a) < String_(c)) || String_(c) < String_(a) || String::Equivalent(String_(a), String::Condensed(String_(c)).c_str()))
            x.Fail("long", "texts of %d characters that differ at %d are alike or misordered", n, p);
        if (p == n - 1)
            break;
    }
    if (String_(a) == String_(a + "b") || !(String_(a) < String_(a + "b")))
        x.Fail("long", "a text of %d characters and a longer one", n);
    std::string squeezed;
    for (char c : a)
        if (c != ' ')
            squeezed += toupper(c);
    if (Std(String::Condensed(String_(a))) != squeezed)
        x.Fail("long", "condensing a text of %d characters", n);
    std::vector<std::string> want(1);
    for (char c : a)
        if (c == ' ')
            want.push_back("");
        else
            want.back() += c;
    const auto parts = String::Split(String_(a), ' ', true);
    bool ok = parts.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); ++i)
        ok = Std(parts[i]) == want[i];
    if (!ok)
        x.Fail("long", "a text of %d characters splits into %zu pieces instead of %zu, or others", n, parts.size(), want.size());
    x.State(n);
}
