// Reference scripts: an abstract syntax tree, its printing as script text, and its meaning.
// The meaning is written from the language (precedence, association, comparison, branches, discounted payments), never
// from the library's own tree: the library only ever sees the printed text.
#pragma once
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/script/event.hpp>
#include <dal/script/parser.hpp>
#include <dal/storage/globals.hpp>
#include "mc.hpp"
#include <array>
#include <memory>
#include <string>
#include <vector>

namespace sref {
    struct N_;
    using P = std::shared_ptr<N_>;
    // kinds: '#' number  'v' variable  'k' named constant  's' spot
    //        '+' '-' '*' '/' '^'  'n' unary minus 'p' unary plus  'M' max 'm' min  'l' log 'q' sqrt 'e' exp
    //        '=' '!' '<' '>' 'L' (<=) 'G' (>=)  '&' and '|' or
    //        'A' assign  'Y' pays  'I' if (cond, then..., else...; split = index of first else or -1)
    struct N_ {
        char k = '#';
        double v = 0;
        std::string s;
        std::vector<P> a;
        int split = -1;
    };
    inline P Mk(char k, std::vector<P> a = {}) {
        auto p = std::make_shared<N_>();
        p->k = k;
        p->a = std::move(a);
        return p;
    }
    inline P Num(double v) {
        auto p = Mk('#');
        p->v = v;
        return p;
    }
    inline P Va(const std::string& s) {
        auto p = Mk('v');
        p->s = s;
        return p;
    }
    inline P Kon(const std::string& s, double v) {
        auto p = Mk('k');
        p->s = s;
        p->v = v;
        return p;
    }
    inline P Sx() { return Mk('s'); }
    inline P Asg(const std::string& v, P e) { return Mk('A', {Va(v), e}); }
    inline P Pay(const std::string& v, P e) { return Mk('Y', {Va(v), e}); }
    inline P Iff(P c, std::vector<P> t) {
        auto p = Mk('I', {c});
        for (auto& x : t)
            p->a.push_back(x);
        return p;
    }
    inline P IfEl(P c, std::vector<P> t, std::vector<P> f) {
        auto p = Iff(c, t);
        p->split = static_cast<int>(p->a.size());
        for (auto& x : f)
            p->a.push_back(x);
        return p;
    }

    // ---------------------------------------------------------------- printing
    struct Style_ {
        bool full = false;  // parentheses around every sub-expression
        bool upper = false; // key words and names in upper case
        int space = 1;      // 0: none where possible, 1: one, 2: newlines and tabs
    };
    inline std::string Cs(std::string s, const Style_& st) {
        for (auto& c : s)
            c = static_cast<char>(st.upper ? toupper(c) : tolower(c));
        return s;
    }
    inline std::string Sp(const Style_& st) { return st.space == 0 ? "" : st.space == 1 ? " " : "\n\t "; }
    inline std::string Sp1(const Style_& st) { return st.space == 2 ? "\n\t " : " "; }
    inline int Lev(char k) {
        switch (k) {
        case '+':
        case '-':
            return 1;
        case '*':
        case '/':
            return 2;
        case '^':
            return 3;
        case 'n':
        case 'p':
            return 4;
        case '|':
            return 1;
        case '&':
            return 2;
        case '=':
        case '!':
        case '<':
        case '>':
        case 'L':
        case 'G':
            return 3;
        default:
            return 5;
        }
    }
    inline std::string NumText(double v) {
        char b[64];
        for (int p = 1; p <= 17; ++p) {
            snprintf(b, sizeof b, "%.*f", p, v);
            if (strtod(b, nullptr) == v)
                break;
        }
        return b;
    }
    inline std::string Txt(const P& p, const Style_& st);
    inline std::string Sub(const P& p, int need, const Style_& st) {
        const bool leaf = Lev(p->k) == 5;
        if ((st.full && !leaf) || Lev(p->k) < need)
            return "(" + Sp(st) + Txt(p, st) + Sp(st) + ")";
        return Txt(p, st);
    }
    inline std::string Txt(const P& p, const Style_& st) {
        const std::string sp = Sp(st);
        switch (p->k) {
        case '#':
            return NumText(p->v);
        case 'v':
        case 'k':
            return Cs(p->s, st);
        case 's':
            return Cs("spot", st) + sp + "(" + sp + ")";
        case '+':
        case '-':
        case '*':
        case '/':
        case '^':
            return Sub(p->a[0], Lev(p->k), st) + sp + p->k + sp + Sub(p->a[1], Lev(p->k) + 1, st);
        case 'n':
            return "-" + sp + Sub(p->a[0], 4, st);
        case 'p':
            return "+" + sp + Sub(p->a[0], 4, st);
        case 'M':
        case 'm':
        case 'l':
        case 'q':
        case 'e': {
            std::string r = Cs(p->k == 'M' ? "max" : p->k == 'm' ? "min" : p->k == 'l' ? "log" : p->k == 'q' ? "sqrt" : "exp", st) + sp + "(" + sp;
            for (size_t i = 0; i < p->a.size(); ++i)
                r += (i ? sp + "," + sp : "") + Txt(p->a[i], st);
            return r + sp + ")";
        }
        case '|':
            return Sub(p->a[0], 1, st) + Sp1(st) + Cs("or", st) + Sp1(st) + Sub(p->a[1], 2, st);
        case '&':
            return Sub(p->a[0], 2, st) + Sp1(st) + Cs("and", st) + Sp1(st) + Sub(p->a[1], 3, st);
        case '=':
        case '!':
        case '<':
        case '>':
        case 'L':
        case 'G': {
            const char* op = p->k == '=' ? "=" : p->k == '!' ? "!=" : p->k == '<' ? "<" : p->k == '>' ? ">" : p->k == 'L' ? "<=" : ">=";
            std::string r = Txt(p->a[0], st) + sp + op + sp + Txt(p->a[1], st);
            if (!p->s.empty())
                r += sp + ";" + sp + p->s;
            return r;
        }
        case 'A':
            return Txt(p->a[0], st) + sp + "=" + sp + Txt(p->a[1], st);
        case 'Y':
            return Txt(p->a[0], st) + Sp1(st) + Cs("pays", st) + Sp1(st) + Txt(p->a[1], st);
        case 'I': {
            std::string r = Cs("if", st) + Sp1(st) + Txt(p->a[0], st) + Sp1(st) + Cs("then", st);
            for (size_t i = 1; i < p->a.size(); ++i)
                r += (static_cast<int>(i) == p->split ? Sp1(st) + Cs("else", st) : "") + Sp1(st) + Txt(p->a[i], st);
            if (p->split == static_cast<int>(p->a.size()))
                r += Sp1(st) + Cs("else", st);
            return r + Sp1(st) + Cs("end", st);
        }
        }
        return "?";
    }
    inline std::string Txt(const std::vector<P>& ev, const Style_& st = Style_()) {
        std::string r;
        for (auto& p : ev)
            r += (r.empty() ? "" : Sp1(st)) + Txt(p, st);
        return r;
    }

    // ---------------------------------------------------------------- forward-mode numbers
    constexpr int ND = 4;
    struct Dual_ {
        double v;
        std::array<double, ND> d;
        Dual_(double x = 0) : v(x) { d.fill(0.0); }
    };
    inline double g_mag = 1.0; // largest magnitude met on the way: the scale of rounding errors
    inline Dual_ Lin(double v, double ca, const Dual_& a, double cb = 0.0, const Dual_& b = Dual_()) {
        Dual_ r(v);
        for (int i = 0; i < ND; ++i)
            r.d[i] = (a.d[i] != 0.0 ? ca * a.d[i] : 0.0) + (b.d[i] != 0.0 ? cb * b.d[i] : 0.0);
        for (double q : {v, ca, cb, ca * a.d[0], cb * b.d[0], ca * a.d[1], cb * b.d[1], ca * a.d[2], cb * b.d[2]})
            if (std::isfinite(q))
                g_mag = std::max(g_mag, std::fabs(q));
        return r;
    }
    inline double Val(double x) { return x; }
    inline double Val(const Dual_& x) { return x.v; }
    inline Dual_ operator+(const Dual_& a, const Dual_& b) { return Lin(a.v + b.v, 1, a, 1, b); }
    inline Dual_ operator-(const Dual_& a, const Dual_& b) { return Lin(a.v - b.v, 1, a, -1, b); }
    inline Dual_ operator-(const Dual_& a) { return Lin(-a.v, -1, a); }
    inline Dual_ operator*(const Dual_& a, const Dual_& b) { return Lin(a.v * b.v, b.v, a, a.v, b); }
    inline Dual_ operator/(const Dual_& a, const Dual_& b) { return Lin(a.v / b.v, 1.0 / b.v, a, -a.v / b.v / b.v, b); }
    inline Dual_ rpow(const Dual_& a, const Dual_& b) {
        const double v = std::pow(a.v, b.v);
        return Lin(v, b.v == 0.0 ? 0.0 : b.v * std::pow(a.v, b.v - 1.0), a, a.v == 0.0 ? 0.0 : v * std::log(a.v), b);
    }
    inline double rpow(double a, double b) { return std::pow(a, b); }
    inline Dual_ rlog(const Dual_& a) { return Lin(std::log(a.v), 1 / a.v, a); }
    inline double rlog(double a) { return std::log(a); }
    inline Dual_ rsqrt(const Dual_& a) { return Lin(std::sqrt(a.v), 0.5 / std::sqrt(a.v), a); }
    inline double rsqrt(double a) { return std::sqrt(a); }
    inline Dual_ rexp(const Dual_& a) { return Lin(std::exp(a.v), std::exp(a.v), a); }
    inline double rexp(double a) { return std::exp(a); }

    // ---------------------------------------------------------------- meaning
    template <class T> struct Sem_ {
        std::map<std::string, T> vars;
        std::map<std::string, T> konst;
        T spot, num;
        bool tie = false;     // no derivative here: a maximum or minimum of equal values, or the edge of a function's domain
        bool touched = false; // set when some condition was evaluated exactly at its threshold
        bool nan = false;
        T E(const P& p) {
            switch (p->k) {
            case '#':
                return T(p->v);
            case 'v':
                return vars[p->s];
            case 'k': {
                auto it = konst.find(p->s);
                return it == konst.end() ? T(p->v) : it->second;
            }
            case 's':
                return spot;
            case '+':
                return E(p->a[0]) + E(p->a[1]);
            case '-':
                return E(p->a[0]) - E(p->a[1]);
            case '*':
                return E(p->a[0]) * E(p->a[1]);
            case '/': {
                const T l = E(p->a[0]), r = E(p->a[1]);
                if (Val(r) == 0.0)
                    tie = true;
                return l / r;
            }
            case '^': {
                const T l = E(p->a[0]), r = E(p->a[1]);
                if (Val(l) <= 0.0)
                    tie = true;
                return rpow(l, r);
            }
            case 'n':
                return -E(p->a[0]);
            case 'p':
                return E(p->a[0]);
            case 'l':
            case 'q': {
                const T l = E(p->a[0]);
                if (Val(l) <= 0.0)
                    tie = true;
                return p->k == 'l' ? rlog(l) : rsqrt(l);
            }
            case 'e':
                return rexp(E(p->a[0]));
            case 'M':
            case 'm': {
                T r = E(p->a[0]);
                for (size_t i = 1; i < p->a.size(); ++i) {
                    const T y = E(p->a[i]);
                    if (std::isnan(Val(r)) || std::isnan(Val(y)))
                        nan = true;
                    if (Val(r) == Val(y))
                        tie = true;
                    if (p->k == 'M' ? Val(r) < Val(y) : Val(r) > Val(y))
                        r = y;
                }
                return r;
            }
            }
            abort();
        }
        bool C(const P& p) {
            if (p->k == '&') {
                const bool l = C(p->a[0]), r = C(p->a[1]);
                return l && r;
            }
            if (p->k == '|') {
                const bool l = C(p->a[0]), r = C(p->a[1]);
                return l || r;
            }
            const double l = Val(E(p->a[0])), r = Val(E(p->a[1]));
            if (std::isnan(l) || std::isnan(r) || (std::isinf(l) && std::isinf(r)))
                nan = true;
            switch (p->k) {
            case '=':
                return l == r;
            case '!':
                return l != r;
            case '<':
                return l < r;
            case '>':
                return l > r;
            case 'L':
                return l <= r;
            case 'G':
                return l >= r;
            }
            abort();
        }
        void S(const P& p) {
            if (p->k == 'A')
                vars[p->a[0]->s] = E(p->a[1]);
            else if (p->k == 'Y') {
                const T x = E(p->a[1]);
                vars[p->a[0]->s] = vars[p->a[0]->s] + x / num;
            } else {
                const size_t n = p->a.size(), e = p->split < 0 ? n : p->split;
                if (C(p->a[0]))
                    for (size_t i = 1; i < e; ++i)
                        S(p->a[i]);
                else
                    for (size_t i = e; i < n; ++i)
                        S(p->a[i]);
            }
        }
    };
    struct Script_ {
        std::vector<std::vector<P>> events;        // one per event date
        std::vector<std::pair<std::string, double>> konst; // named constants
    };
    struct Scen_ {
        std::vector<double> spot, num;
    };
    template <class T> struct Res_ {
        std::map<std::string, T> vars;
        bool tie, nan;
    };
    template <class T> Res_<T> Run(const Script_& s, const Scen_& sc, const std::vector<T>& spots, const std::vector<T>& konst) {
        Sem_<T> sem;
        for (size_t i = 0; i < s.konst.size(); ++i)
            sem.konst[s.konst[i].first] = konst[i];
        for (size_t e = 0; e < s.events.size(); ++e) {
            sem.spot = spots[e];
            sem.num = T(sc.num[e]);
            for (auto& st : s.events[e])
                sem.S(st);
        }
        return {sem.vars, sem.tie, sem.nan};
    }
    inline void Names(const P& p, std::set<std::string>& out) {
        if (p->k == 'v')
            out.insert(p->s);
        for (auto& a : p->a)
            Names(a, out);
    }

    // ---------------------------------------------------------------- the library's product
    inline Dal::Date_ Today() { return Dal::Date_(2022, 1, 3); }
    inline Dal::Script::ScriptProduct_ Product(const Script_& s, const Style_& st = Style_(), const char* payoff = "") {
        using namespace Dal;
        Vector_<Cell_> d;
        Vector_<String_> e;
        for (auto& k : s.konst) {
            d.push_back(Cell_(String_(k.first)));
            e.push_back(String_(NumText(k.second)));
        }
        for (size_t i = 0; i < s.events.size(); ++i) {
            d.push_back(Cell_(Today().AddDays(30 * (1 + static_cast<int>(i)))));
            e.push_back(String_(Txt(s.events[i], st)));
        }
        return Script::ScriptProduct_(d, e, payoff);
    }
    inline bool Same(double a, double b, double tol = 0.0) {
        if (std::isnan(a) || std::isnan(b))
            return std::isnan(a) && std::isnan(b);
        if (a == b)
            return true;
        return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
    }
    inline std::string Show(const Script_& s) {
        std::string r;
        for (auto& k : s.konst)
            r += "[" + k.first + " := " + NumText(k.second) + "] ";
        for (auto& e : s.events)
            r += "{" + Txt(e) + "} ";
        return r;
    }
} // namespace sref
