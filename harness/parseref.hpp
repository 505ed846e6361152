// Reference recogniser of the event language, written from its grammar: token list -> abstract syntax (scriptref.hpp).
#pragma once
#include "scriptref.hpp"
#include <dal/time/daybasis.hpp>
#include <dal/time/dateutils.hpp>
#include <cctype>

namespace pref {
    using namespace sref;
    struct Dead_ {};   // no continuation of the tokens so far is a script
    struct More_ {};   // the text ended where something else is needed
    inline std::string Lower(std::string s) {
        for (auto& c : s)
            c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
        return s;
    }
    // ------------------------------------------------------------ words
    inline bool Scan(const std::string& text, std::vector<std::string>* out) {
        size_t i = 0;
        auto word = [](unsigned char c) { return c == '_' || c == '.' || (c < 128 && isalnum(c)); };
        while (i < text.size()) {
            const unsigned char c = text[i];
            if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f') {
                ++i;
                continue;
            }
            size_t j = i + 1;
            if (word(c)) {
                while (j < text.size() && word(text[j]))
                    ++j;
            } else if (c == '<' || c == '>' || c == '!') {
                if (j < text.size() && text[j] == '=')
                    ++j;
                else if (c == '!')
                    return false;
            } else if (c == 0 || !strchr("+-*/^(),;:=", c))
                return false;
            out->push_back(Lower(text.substr(i, j - i)));
            i = j;
        }
        return true;
    }
    inline bool Number(const std::string& w, double* v) {
        if (w.empty() || !(w[0] == '.' || isdigit(static_cast<unsigned char>(w[0]))))
            return false;
        char* e = nullptr;
        errno = 0;
        *v = strtod(w.c_str(), &e);
        return e == w.c_str() + w.size() && errno == 0;
    }
    struct Parse_ {
        const std::vector<std::string>& t;
        const std::map<std::string, double>& konst;
        size_t i = 0;
        static bool Word(const std::string& w) { return !w.empty() && (isalpha(static_cast<unsigned char>(w[0])) || w[0] == '_'); }
        static bool Reserved(const std::string& w) {
            static const std::set<std::string> r = {"if", "end", "then", "else", "dcf", "pays", "and", "or", "spot", "max", "min", "log", "sqrt", "exp"};
            return r.count(w) > 0;
        }
        bool At(const char* w) const { return i < t.size() && t[i] == w; }
        const std::string& Cur() const {
            if (i >= t.size())
                throw More_();
            return t[i];
        }
        void Need(const char* w) {
            if (Cur() != w)
                throw Dead_();
            ++i;
        }
        P Expr() {
            P l = Term();
            while (At("+") || At("-")) {
                const char k = t[i++][0];
                l = Mk(k, {l, Term()});
            }
            return l;
        }
        P Term() {
            P l = Power();
            while (At("*") || At("/")) {
                const char k = t[i++][0];
                l = Mk(k, {l, Power()});
            }
            return l;
        }
        P Power() {
            P l = Unary();
            while (At("^")) {
                ++i;
                l = Mk('^', {l, Unary()});
            }
            return l;
        }
        P Unary() {
            const std::string w = Cur();
            if (w == "+" || w == "-") {
                ++i;
                return Mk(w == "+" ? 'p' : 'n', {Unary()});
            }
            return Atom();
        }
        P Atom() {
            const std::string w = Cur();
            double v;
            if (w == "(") {
                ++i;
                P e = Expr();
                Need(")");
                return e;
            }
            if (Number(w, &v)) {
                ++i;
                return Num(v);
            }
            if (w == "spot") {
                ++i;
                Need("(");
                Need(")");
                return Sx();
            }
            if (w == "log" || w == "sqrt" || w == "exp") {
                ++i;
                Need("(");
                P e = Expr();
                Need(")");
                return Mk(w == "log" ? 'l' : w == "sqrt" ? 'q' : 'e', {e});
            }
            if (w == "max" || w == "min") {
                ++i;
                Need("(");
                std::vector<P> a = {Expr()};
                while (a.size() < 2 || At(",")) {
                    Need(",");
                    a.push_back(Expr());
                }
                Need(")");
                return Mk(w == "max" ? 'M' : 'm', a);
            }
            if (w == "dcf")
                return Dcf();
            if (!Word(w) || Reserved(w))
                throw Dead_();
            ++i;
            auto it = konst.find(w);
            return it == konst.end() ? Va(w) : Kon(w, it->second);
        }
        // DCF(basis, start, end): day count fraction of two dates
        P Dcf() {
            ++i;
            Need("(");
            std::string a[3];
            for (int k = 0; k < 3; ++k) {
                while (Cur() != "," && Cur() != ")")
                    if (t[i] == "(")
                        throw Dead_();
                    else
                        a[k] += t[i++];
                Need(k < 2 ? "," : ")");
            }
            // basis and dates are read as the library reads them on their own (properties C10 and C13)
            try {
                return Num(Dal::DayBasis_(Dal::String_(a[0]))(Dal::Date::FromString(Dal::String_(a[1])), Dal::Date::FromString(Dal::String_(a[2])), nullptr));
            } catch (const std::exception&) {
                throw Dead_();
            }
        }
        P Cond() {
            P l = Cond2();
            while (At("or")) {
                ++i;
                l = Mk('|', {l, Cond2()});
            }
            return l;
        }
        P Cond2() {
            P l = Cond3();
            while (At("and")) {
                ++i;
                l = Mk('&', {l, Cond3()});
            }
            return l;
        }
        P Cond3() {
            if (Cur() == "(") {
                ++i;
                P c = Cond();
                Need(")");
                return c;
            }
            P l = Expr();
            const std::string op = Cur();
            const char k = op == "=" ? '=' : op == "!=" ? '!' : op == "<" ? '<' : op == ">" ? '>' : op == "<=" ? 'L' : op == ">=" ? 'G' : 0;
            if (!k)
                throw Dead_();
            ++i;
            P c = Mk(k, {l, Expr()});
            if (At(";") || At(":")) {
                ++i;
                double v;
                if (!Number(Cur(), &v))
                    throw Dead_();
                c->s = t[i++];
            }
            return c;
        }
        P Stmt() {
            const std::string w = Cur();
            if (w == "if") {
                ++i;
                P p = Mk('I', {Cond()});
                Need("then");
                while (Cur() != "end" && t[i] != "else")
                    p->a.push_back(Stmt());
                if (t[i] == "else") {
                    ++i;
                    p->split = static_cast<int>(p->a.size());
                    while (Cur() != "end")
                        p->a.push_back(Stmt());
                }
                ++i;
                return p;
            }
            if (!Word(w) || Reserved(w) || konst.count(w))
                throw Dead_();
            ++i;
            const std::string op = Cur();
            if (op != "=" && op != "pays")
                throw Dead_();
            ++i;
            return Mk(op == "=" ? 'A' : 'Y', {Va(w), Expr()});
        }
        std::vector<P> Event() {
            std::vector<P> r;
            while (i < t.size())
                r.push_back(Stmt());
            return r;
        }
    };
    enum Verdict_ { OK, MORE, DEAD };
    inline Verdict_ Judge(const std::vector<std::string>& t, const std::map<std::string, double>& konst, std::vector<P>* out) {
        Parse_ p{t, konst};
        try {
            *out = p.Event();
            return OK;
        } catch (const More_&) {
            return MORE;
        } catch (const Dead_&) {
            return DEAD;
        }
    }

    // ------------------------------------------------------------ the printed form, read and interpreted
    struct T_ {
        std::string name, attr;
        std::vector<T_> a;
    };
    struct Bad_ {
        std::string what;
    };
    inline T_ ReadTree(const std::string& s, size_t* i) {
        auto skip = [&] {
            while (*i < s.size() && isspace(static_cast<unsigned char>(s[*i])))
                ++*i;
        };
        T_ r;
        skip();
        while (*i < s.size() && (isalnum(static_cast<unsigned char>(s[*i])) || s[*i] == '_'))
            r.name += s[(*i)++];
        if (r.name.empty())
            throw Bad_{"no name in the printed form"};
        if (*i < s.size() && s[*i] == '[') {
            const size_t e = s.find(']', *i);
            if (e == std::string::npos)
                throw Bad_{"no ] in the printed form"};
            r.attr = s.substr(*i + 1, e - *i - 1);
            *i = e + 1;
        }
        skip();
        if (*i < s.size() && s[*i] == '(') {
            ++*i;
            for (;;) {
                r.a.push_back(ReadTree(s, i));
                skip();
                if (*i >= s.size())
                    throw Bad_{"printed form not closed"};
                if (s[*i] == ')') {
                    ++*i;
                    break;
                }
                if (s[*i] != ',')
                    throw Bad_{"arguments not separated in the printed form"};
                ++*i;
            }
            skip();
        }
        return r;
    }
    struct PrintedSem_ {
        std::map<std::string, double> vars;
        double spot, num;
        std::vector<double> eps;
        static double AttrNum(const std::string& s) { return strtod(s.c_str(), nullptr); }
        static std::string VarName(const T_& t) { return Lower(t.attr.substr(0, t.attr.find(','))); }
        void Arity(const T_& t, size_t lo, size_t hi) {
            if (t.a.size() < lo || t.a.size() > hi)
                throw Bad_{"wrong number of arguments of " + t.name};
        }
        double E(const T_& t) {
            const std::string& n = t.name;
            if (n == "CONST")
                return AttrNum(t.attr);
            if (n == "CONST_VAR")
                return AttrNum(t.attr.substr(t.attr.rfind(',') + 1));
            if (n == "VAR")
                return vars[VarName(t)];
            if (n == "SPOT")
                return spot;
            if (n == "MAX" || n == "MIN") {
                Arity(t, 2, 1u << 30);
                double r = E(t.a[0]);
                for (size_t i = 1; i < t.a.size(); ++i) {
                    const double y = E(t.a[i]);
                    r = n == "MAX" ? (r < y ? y : r) : (r > y ? y : r);
                }
                return r;
            }
            if (n == "UPLUS" || n == "UMINUS" || n == "LOG" || n == "EXP" || n == "SQRT") {
                Arity(t, 1, 1);
                const double v = E(t.a[0]);
                return n == "UPLUS" ? v : n == "UMINUS" ? -v : n == "LOG" ? std::log(v) : n == "EXP" ? std::exp(v) : std::sqrt(v);
            }
            if (n == "ADD" || n == "SUBTRACT" || n == "MULT" || n == "DIV" || n == "POW") {
                Arity(t, 2, 2);
                const double l = E(t.a[0]), r = E(t.a[1]);
                return n == "ADD" ? l + r : n == "SUBTRACT" ? l - r : n == "MULT" ? l * r : n == "DIV" ? l / r : std::pow(l, r);
            }
            throw Bad_{"unknown " + n};
        }
        bool C(const T_& t) {
            const std::string& n = t.name;
            if (n == "AND" || n == "OR") {
                Arity(t, 2, 2);
                const bool l = C(t.a[0]), r = C(t.a[1]);
                return n == "AND" ? l && r : l || r;
            }
            Arity(t, 1, 1);
            if (n == "NOT")
                return !C(t.a[0]);
            const double v = E(t.a[0]);
            if (n == "EQUALZERO")
                return v == 0;
            if (n == "GTZERO")
                return v > 0;
            if (n == "GTEQUALZERO")
                return v >= 0;
            throw Bad_{"unknown " + n};
        }
        void Eps(const T_& t) {
            const size_t p = t.attr.find("EPS=");
            if (p != std::string::npos)
                eps.push_back(AttrNum(t.attr.substr(p + 4)));
            for (auto& c : t.a)
                Eps(c);
        }
        void S(const T_& t) {
            if (t.name == "ASSIGN" || t.name == "PAYS") {
                Arity(t, 2, 2);
                if (t.a[0].name != "VAR")
                    throw Bad_{"assignment to " + t.a[0].name};
                const double v = E(t.a[1]);
                double& x = vars[VarName(t.a[0])];
                x = t.name == "ASSIGN" ? v : x + v / num;
            } else if (t.name == "IF") {
                const int fe = atoi(t.attr.substr(t.attr.find('=') + 1).c_str());
                const size_t n = t.a.size(), e = fe == -1 ? n : fe;
                if (C(t.a.at(0)))
                    for (size_t i = 1; i < e; ++i)
                        S(t.a[i]);
                else
                    for (size_t i = e; i < n; ++i)
                        S(t.a[i]);
            } else
                throw Bad_{"unknown " + t.name};
        }
    };
} // namespace pref
