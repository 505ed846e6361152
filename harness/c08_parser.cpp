// C08: script text is either understood in full or rejected.
// All token sequences up to a length, all short extensions of valid prefixes, all single-byte edits of a set of scripts and
// deeply nested texts are parsed by the real parser; an independent recogniser of the grammar (parseref.hpp) decides which
// texts are scripts, and what an accepted text means is read off the library's printed form and compared with the reference.
#include "parseref.hpp"
#include <dal/script/visitor/all.hpp>
using namespace pref;
using Dal::String_;
using Dal::Script::Parser_;

namespace {
    const std::map<std::string, double> KON = {{"k", 2.5}};
    std::string Join(const std::vector<std::string>& t) {
        std::string s;
        for (auto& w : t)
            s += (s.empty() ? "" : " ") + w;
        return s;
    }
    // printed form of the text as parsed, or false if it is rejected
    bool Lib(const std::string& text, std::vector<std::string>* printed, bool print = true) {
        static Parser_ parser({{String_("K"), 2.5}});
        try {
            auto ev = parser.Parse(String_(text.begin(), text.end()));
            if (print)
                for (auto& st : ev) {
                    Dal::Script::Debugger_ d;
                    st->Accept(d);
                    printed->push_back(d.String().c_str());
                }
            return true;
        } catch (const std::exception&) {
            return false;
        }
    }
    // accepted text: its printed form has the reference meaning on a few variable assignments
    void Meaning(mc::Ctx_& x, const std::string& text, const std::vector<P>& ref, const std::vector<std::string>& printed) {
        struct A_ {
            double x, y, z, spot;
        };
        static const A_ as[] = {{1.75, 3.5, -0.5, 2.25}, {2.25, 2.25, 2.25, 2.25}, {1.5, 0.25, 1.5, 1.5}, {2.5, 0.5, 0.125, 0.75}};
        std::vector<double> eps;
        std::function<void(const P&)> collect = [&](const P& p) {
            if (p->k == '#') { // numbers are printed with six decimals
                char b[400];
                snprintf(b, sizeof b, "%f", p->v);
                p->v = strtod(b, nullptr);
            }
            if (strchr("=!<>LG", p->k))
                eps.push_back(p->s.empty() ? -1.0 : strtod(p->s.c_str(), nullptr));
            for (auto& c : p->a)
                collect(c);
        };
        for (auto& p : ref)
            collect(p);
        std::vector<double> got;
        for (size_t a = 0; a < 4; ++a) {
            Sem_<double> sem;
            PrintedSem_ ps;
            sem.vars = {{"x", as[a].x}, {"y", as[a].y}, {"z", as[a].z}};
            ps.vars = sem.vars;
            sem.spot = ps.spot = as[a].spot;
            sem.num = ps.num = 1.25;
            try {
                if (printed.size() != ref.size())
                    throw Bad_{"a different number of statements"};
                for (auto& s : printed) {
                    size_t i = 0;
                    const T_ t = ReadTree(s, &i);
                    if (i != s.size())
                        throw Bad_{"text after the printed form"};
                    ps.S(t);
                    if (a == 0)
                        ps.Eps(t);
                }
            } catch (const Bad_& b) {
                x.Fail("printed form", "%s, for the script %s", b.what.c_str(), text.c_str());
            }
            for (auto& p : ref)
                sem.S(p);
            for (auto& kv : sem.vars)
                if (!Same(kv.second, ps.vars[kv.first], 1e-11))
                    x.Fail("meaning", "%s = %.9g in the printed form, %.9g is what the script means: %s", kv.first.c_str(), ps.vars[kv.first], kv.second, text.c_str());
            if (a == 0)
                got = ps.eps;
        }
        std::sort(eps.begin(), eps.end());
        std::sort(got.begin(), got.end());
        bool same = eps.size() == got.size();
        for (size_t i = 0; same && i < eps.size(); ++i)
            same = std::fabs(eps[i] - got[i]) < 2e-6;
        if (!same)
            x.Fail("width", "smoothing widths of the conditions are not those of the script %s", text.c_str());
    }
    Verdict_ Check(mc::Ctx_& x, const std::string& text, const std::vector<std::string>* tokens = nullptr) {
        std::vector<std::string> own;
        std::vector<P> ref;
        Verdict_ v = DEAD;
        if (tokens)
            v = Judge(*tokens, KON, &ref);
        else if (Scan(text, &own))
            v = Judge(own, KON, &ref);
        std::vector<std::string> printed;
        const bool ok = Lib(text, &printed);
        x.Step();
        if (ok != (v == OK))
            x.Fail(ok ? "accepted" : "rejected", "%s: %s", ok ? "text that is not a script was accepted" : "a script was rejected", text.c_str());
        if (ok)
            Meaning(x, text, ref, printed);
        return v;
    }
    const std::vector<std::string> ALPHA = {"x", "y", "k", "1.5", "=", "(", ")", "+", "-", "*", "^", "if", "then", "else", "end", "pays", "<", ">=", "and", "or", "spot", "max", "log", ",", ";", "!="};
    const std::vector<std::string> FEW = {"x", "k", "1.5", "=", "(", ")", "+", "-", "^", "if", "then", "else", "end", "pays", "<", "and", "spot", "max", ",", ";"};
    const std::vector<std::string> WIDE = {"x", "k", "1.5", "2", "=", "(", ")", "+", "-", "*", "/", "^", "if", "then", "else", "end", "pays", "<", ">", "<=", ">=", "!=", "and", "or", "spot", "max", "min", "log", "sqrt", "exp", "dcf", ",", ";", ":", "1.5.2", "2x", "_a", "."};
} // namespace

MC_SECTION("all token sequences", "every sequence of up to 4 of 38 tokens and of 5 of 20 (thorough 26) tokens: accepted exactly when it is a script, with the meaning of the script", 3) {
    const bool five = x.Flip();
    const auto& al = five ? (x.thorough_ ? ALPHA : FEW) : WIDE;
    const int n = five ? 5 : 4;
    // the first tokens are chosen, the last two enumerated in place
    std::vector<std::string> t;
    const int m = five ? n - 2 : x.Choose(n + 1) - 2;
    for (int i = 0; i < m; ++i)
        t.push_back(x.Pick(al));
    if (m <= 0) {
        if (m == -2)
            Check(x, "");
        if (m == -1)
            for (auto& w : al)
                Check(x, w);
        if (m < 0)
            return;
    }
    const std::string head = Join(t);
    t.resize(t.size() + 2);
    for (auto& a : al)
        for (auto& b : al) {
            t[t.size() - 2] = a;
            t.back() = b;
            Check(x, (head.empty() ? "" : head + " ") + a + " " + b, &t);
        }
    x.State(mc::HashStr(head));
}
MC_SECTION("all extensions of valid prefixes", "every prefix of a script up to 7 (thorough 9) of 21 tokens, each followed by any one (quick) or any two tokens", 4) {
    const std::vector<std::string> al = {"x", "k", "1.5", "=", "(", ")", "+", "-", "^", "if", "then", "else", "end", "pays", "<", "and", "or", "spot", "max", ",", ";"};
    const int n = x.thorough_ ? 9 : 7;
    std::vector<std::string> t;
    for (int i = 0; i < n; ++i) {
        t.push_back(x.Pick(al));
        std::vector<P> ref;
        const Verdict_ v = Judge(t, KON, &ref);
        if (v == DEAD) {
            // the dead prefix itself, and one more token to close it
            Check(x, Join(t), &t);
            if (x.thorough_ || i < 6) {
                t.push_back("");
                for (auto& w : al) {
                    t.back() = w;
                    Check(x, Join(t), &t);
                }
            }
            return;
        }
    }
    Check(x, Join(t), &t);
    x.State(mc::HashStr(Join(t)));
}

namespace {
    const std::vector<std::string> TEXTS = {
        "x = 1.5",
        "x=y+z*2^3-4/5",
        "x pays spot()",
        "x = max(1, 2, min(3, y), log(z))",
        "x = -(-y)^+2 z = (x)",
        "if x > 1 then y = 2 end",
        "if x >= 1.5; 0.25 and (y < 2 or z != 3:1) then y = 2 z pays x else x = 3 end y = 4",
        "if x = 1 then if y <= 2 then z = 3 else z = 4 end else end",
        "x = k * exp(sqrt(k))",
        "x = dcf(ACT365F, 2022-01-15, 2023-01-14) * 100",
        "x = dcf(act/360,2022-01-15,2022-07-14)",
        "AB_c.1 = .5 + 0x1F + 1e2",
    };
} // namespace
MC_SECTION("all single-byte edits", "12 scripts covering the whole language: every truncation from either side, every deletion, every insertion and replacement by each of the 256 bytes, every doubling and swap of neighbours", 2) {
    const std::string& s = x.Pick(TEXTS);
    const size_t i = x.Choose(static_cast<int>(s.size()) + 1);
    Check(x, s.substr(0, i));
    Check(x, s.substr(i));
    for (int c = 0; c < 256; ++c) {
        const std::string ch(1, static_cast<char>(c));
        Check(x, s.substr(0, i) + ch + s.substr(i));
        if (i < s.size())
            Check(x, s.substr(0, i) + ch + s.substr(i + 1));
    }
    if (i < s.size()) {
        Check(x, s.substr(0, i) + s.substr(i + 1));
        Check(x, s.substr(0, i) + s[i] + s.substr(i));
        if (i + 1 < s.size())
            Check(x, s.substr(0, i) + s[i + 1] + s[i] + s.substr(i + 2));
        for (size_t j = i + 1; j <= s.size(); ++j) {
            Check(x, s.substr(0, i) + s.substr(j));
            if (x.thorough_ || j - i < 6)
                Check(x, s.substr(0, j) + " " + s.substr(i));
        }
    }
    x.State(mc::HashStr(s.substr(0, i)));
}
MC_SECTION("all short texts", "every text of up to 4 (thorough 5) of 22 characters, alone and as the right-hand side of an assignment", 2) {
    static const char CH[] = "xk1.=<!>+-(),;:^/ \n@_\"";
    const int n = x.thorough_ ? 5 : 4;
    std::string s;
    const int m = x.Choose(n - 1);
    for (int i = 0; i < m; ++i)
        s += CH[x.Choose(22)];
    for (int a = 0; a < 22; ++a) {
        Check(x, s + CH[a]);
        for (int b = 0; b < 22; ++b) {
            Check(x, s + CH[a] + CH[b]);
            Check(x, "x=" + s + CH[a] + CH[b]);
            Check(x, "if x" + s + CH[a] + CH[b] + "1 then y = 2 end");
        }
    }
}
MC_SECTION("case and spacing", "12 scripts in 2 cases x 4 spacings between every two tokens, and single spaces removed wherever two tokens cannot merge: same printed form", 1) {
    const std::string& s = x.Pick(TEXTS);
    std::vector<std::string> t, p0, p1;
    Scan(s, &t);
    if (!Lib(s, &p0))
        x.Fail("rejected", "a script was rejected: %s", s.c_str());
    auto word = [](char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '.'; };
    std::vector<std::string> forms;
    for (int up = 0; up < 2; ++up)
        for (const char* sp : {" ", "\t", "\n\r ", ""}) {
            std::string f;
            for (size_t i = 0; i < t.size(); ++i) {
                std::string w = t[i];
                for (auto& c : w)
                    c = static_cast<char>(up ? toupper(c) : tolower(c));
                if (i && (*sp || (word(t[i - 1].back()) && word(w[0]))))
                    f += *sp ? sp : " ";
                f += w;
            }
            forms.push_back(f);
            forms.push_back(" \n" + f + "\t ");
        }
    for (auto& f : forms) {
        p1.clear();
        x.Step();
        if (!Lib(f, &p1))
            x.Fail("spacing", "rejected when written as %s", f.c_str());
        bool same = p1.size() == p0.size();
        for (size_t i = 0; same && i < p1.size(); ++i)
            same = Lower(p1[i]) == Lower(p0[i]);
        if (!same)
            x.Fail("spacing", "different script when written as %s", f.c_str());
    }
}
namespace {
    std::string Rep(const std::string& s, int n) {
        std::string r;
        r.reserve(s.size() * n + 64);
        for (int i = 0; i < n; ++i)
            r += s;
        return r;
    }
    // long or deeply nested texts; close < 0: truncated
    std::string Long(int shape, int n) {
        switch (shape) {
        case 0:
            return "x = " + Rep("(", n) + "y" + Rep(")", n);
        case 1:
            return "x = " + Rep("-", n) + "y";
        case 2:
            return "x = " + Rep("max(1,", n) + "y" + Rep(")", n);
        case 3:
            return "x = " + Rep("log(", n) + "y" + Rep(")", n);
        case 4:
            return Rep("if x > 1 then ", n) + "y = 2 " + Rep("end ", n);
        case 5:
            return Rep("if x > 1 then z = 3 else ", n) + "y = 2 " + Rep("end ", n);
        case 6:
            return "if " + Rep("(", n) + "x > 1" + Rep(")", n) + " then y = 2 end";
        case 7:
            return "x = y" + Rep(" + y", n);
        case 8:
            return "x = y" + Rep(" * y", n);
        case 9:
            return "x = 1" + Rep(" ^ 1", n);
        case 10:
            return "if x > 1" + Rep(" and x > 1", n) + " then y = 2 end";
        case 11:
            return "if x > 1" + Rep(" or x > 1", n) + " then y = 2 end";
        case 12:
            return "x = max(1" + Rep(", y", n) + ")";
        case 13:
            return Rep("x = y ", n);
        case 14:
            return "if x > 1 then " + Rep("x = y ", n) + " end";
        default:
            return "x = " + Rep("(1+", n) + "y" + Rep(")", n);
        }
    }
} // namespace
MC_SECTION("long and deeply nested texts", "16 shapes repeated 1..60 times (understood), and up to 200,000 times (understood or rejected, never a crash), complete or cut anywhere in the last tokens", 2) {
    const int shape = x.Choose(16);
    const std::vector<int> ns = {1, 2, 3, 5, 8, 13, 21, 34, 60, 400, 498, 499, 500, 501, 1000, 5000, 50000, 200000};
    const int n = x.Pick(ns);
    const std::string s = Long(shape, n);
    std::vector<std::string> t, printed;
    Scan(s, &t);
    x.Step();
    if (n <= 60) {
        std::vector<P> ref;
        if (Judge(t, KON, &ref) != OK)
            x.Fail("harness", "not a script: %s", s.c_str());
        if (!Lib(s, &printed))
            x.Fail("rejected", "a script nested %d times was rejected: %s", n, s.substr(0, 60).c_str());
        Meaning(x, s, ref, printed);
    } else
        Lib(s, &printed, n <= 1000);
    for (size_t cut : {1, 2, 5, 9})
        if (cut < s.size() && s.size() < 100000)
            Lib(s.substr(0, s.size() - cut), &printed, false);
    Lib(s.substr(0, s.size() / 2), &printed, false);
}
