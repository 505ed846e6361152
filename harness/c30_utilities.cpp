// C30: error messages, audit trails, text files and the collection and smoothing utilities, against direct definitions.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/smooth.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/cell.hpp>
#include <dal/risk/report.hpp>
#include <dal/storage/audit.hpp>
#include <dal/storage/box.hpp>
#include <dal/string/strings.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/utilities/algorithms.hpp>
#include <dal/utilities/exceptions.hpp>
#include <dal/utilities/file.hpp>
#include <dal/utilities/functionals.hpp>
#include <dal/utilities/maps.hpp>
#include <dal/utilities/numerics.hpp>
#include <cmath>
#include <functional>
#include <cstdarg>
#include <cstdlib>
#include <limits>
#include <memory>
#include <set>
#include <unistd.h>
using namespace Dal;

namespace {
    __attribute__((format(printf, 2, 3))) void Seen(mc::Ctx_& x, const char* fmt, ...) {
        char buf[300];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        x.State(std::hash<std::string>()(buf));
        x.Sample(buf);
    }
    template <class F> bool Throws(F f) {
        try {
            f();
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
} // namespace

namespace {
    std::string Raise(const char* msg) {
        try {
            THROW(msg);
        } catch (const Exception_& e) {
            return e.what();
        }
    }
    // the part of an error text after its own message: one line per note in force
    std::vector<std::string> Notes(const std::string& what, const std::string& msg) {
        std::vector<std::string> r;
        const size_t p = what.rfind(msg);
        if (p == std::string::npos)
            return {"<message lost>"};
        std::string rest = what.substr(p + msg.size());
        while (!rest.empty()) {
            if (rest[0] != '\n')
                return {"<malformed>" + rest};
            const size_t q = rest.find('\n', 1);
            r.push_back(rest.substr(1, q == std::string::npos ? q : q - 1));
            rest = q == std::string::npos ? "" : rest.substr(q);
        }
        return r;
    }
    std::string Show(const std::vector<std::string>& v) {
        std::string r;
        for (auto& s : v)
            r += "[" + s + "]";
        return r;
    }
    struct Escape_ {};
    struct Notes_ {
        mc::Ctx_& x;
        std::vector<std::string> open;
        int budget;
        void Check(const char* where) {
            x.Step();
            const auto got = Notes(Raise("boom"), "boom");
            if (got != open)
                x.Fail("notes", "%s: error shows %s, open notes are %s", where, Show(got).c_str(), Show(open).c_str());
        }
        void Scope() {
            while (budget > 0) {
                const int op = x.Choose(10); // seven kinds of notes, return, throw through, check
                --budget;
                if (op == 7)
                    return;
                if (op == 8) {
                    x.Step();
                    throw Escape_();
                }
                if (op == 9) {
                    Check("inside");
                    continue;
                }
                const size_t depth = open.size();
                try {
                    const int i = -42;
                    const double d = 0.125;
                    const String_ s("text");
                    const char* c = "chars";
                    const Date_ dt(2024, 2, 29);
                    const DateTime_ tm(Date_(2024, 2, 29), 13, 5, 9);
                    if (op == 0) {
                        NOTICE(i);
                        open.push_back("i = -42");
                        Scope();
                    } else if (op == 1) {
                        NOTICE(d);
                        open.push_back("d = 0.125000");
                        Scope();
                    } else if (op == 2) {
                        NOTICE(s);
                        open.push_back("s = text");
                        Scope();
                    } else if (op == 3) {
                        NOTICE2("name", c);
                        open.push_back("name = chars");
                        Scope();
                    } else if (op == 4) {
                        NOTICE(dt);
                        open.push_back("dt = 2024-02-29");
                        Scope();
                    } else if (op == 5) {
                        NOTICE(tm);
                        open.push_back("tm = 2024-02-29 13:05:09");
                        Scope();
                    } else {
                        NOTE("remark");
                        open.push_back("remark");
                        Scope();
                    }
                } catch (const Escape_&) {
                }
                open.resize(depth);
                Check("after a scope");
            }
        }
    };
} // namespace

MC_SECTION("notes", "every nest of up to 5 (quick) or 6 (thorough) events out of opening a note of each kind, leaving a scope, throwing out of a scope and raising an error: the error shows exactly the open notes, outermost first", 2) {
    Notes_ n{x, {}, x.thorough_ ? 6 : 5};
    try {
        n.Scope();
    } catch (const Escape_&) {
    }
    n.open.clear();
    n.Check("at the end");
    x.State(0);
}

MC_SECTION("library_errors", "errors raised by the library at 8 places that record context, in all sequences of two: the message has the current values, nothing is left behind", 1) {
    std::string what;
    for (int n = 0; n < 2; ++n) {
        const int k = x.Choose(8);
        const int j = k == 7 ? x.Choose(5) : 0;
        x.Step();
        std::vector<std::string> want;
        what.clear();
        try {
            if (k == 0) {
                want = {"Reading date from string", "src = garbage"};
                (void)Date::FromString("garbage");
            } else if (k == 1) {
                want = {"src = ??"};
                (void)Date::ParseIncrement("??");
            } else if (k == 2) {
                want = {"axis = nowhere"};
                Report_ r("r", {Report::Axis_{"a", 2, {}}});
                (void)r.Header("nowhere");
            } else if (k == 3) {
                want = {"a.name_ = a"};
                Report_ r("r", {Report::Axis_{"a", 2, {}}, Report::Axis_{"a", 3, {}}});
            } else if (k == 7) {
                want = {" = " + std::to_string(j)};
                Report_ r("r", {Report::Axis_{"a", 2, Vector_<String_>(j, "l")}});
                r.AddHeaderRow("a", 0, Vector_<Cell_>(j + 1));
            } else if (k == 4) {
                want = {"src = 3Q"};
                (void)Date::ParseIncrement("3Q");
            } else if (k == 5) {
                NOTE("outer remark");
                want = {"outer remark", "src = 1999/77/1"};
                (void)Date::FromString("1999/77/1");
            } else {
                want = {"Negative"};
                REQUIRE(std::sqrt(2.0) < 1.0, "Negative");
            }
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception& e) {
            what = e.what();
        }
        for (auto& w : want)
            if (what.find(w) == std::string::npos)
                x.Fail("context", "error %d lacks '%s': %s", k, w.c_str(), what.c_str());
        const auto left = Notes(Raise("boom"), "boom");
        if (!left.empty())
            x.Fail("left", "error %d leaves notes behind: %s", k, Show(left).c_str());
        Seen(x, "%d %d", k, j);
    }
}

MC_SECTION("audit", "all sequences of 4 (quick) or 5 (thorough) out of 4 modes, reports of 2 keys x 2 objects, with 1 or 2 auditors nested: what is recalled is what was reported last or all of it", 2) {
    Handle_<Box_> box[2] = {Handle_<Box_>(new Box_("b0", Matrix_<Cell_>(1, 1))), Handle_<Box_>(new Box_("b1", Matrix_<Cell_>(2, 1)))};
    const String_ key[2] = {"k", "l"};
    const bool two = x.Flip();
    AuditorImp_ outer, inner;
    outer.mode_ = AuditorImp_::READING;
    ENV_SEED(outer);
    std::multimap<int, int> mo, mi;
    int mode = 0;
    auto run = [&](_ENV) {
        for (int n = 0; n < (x.thorough_ ? 5 : 4); ++n) {
            const int op = x.Choose(8);
            x.Step();
            AuditorImp_& a = two ? inner : outer;
            auto& m = two ? mi : mo;
            if (op < 4) {
                a.mode_ = op == 0 ? AuditorImp_::PASSIVE : op == 1 ? AuditorImp_::READING : op == 2 ? AuditorImp_::READING_EXCLUSIVE : AuditorImp_::SHOWING;
                mode = op;
            } else {
                const int k = op & 1, b = op >> 1 & 1;
                if (n == 0 && !two)
                    mode = mode ? mode : 1;
                const bool refused = Throws([&] { Environment::Audit(_env, key[k], box[b]); });
                const bool takes = two ? (mode == 1 || mode == 2) : mode == 1 || mode == 2;
                if (refused == takes)
                    x.Fail("mode", "a report in mode %d is %s", mode, refused ? "refused" : "taken");
                if (takes) {
                    if (mode == 2)
                        m.erase(k);
                    m.insert({k, b});
                    if (two)
                        mo.insert({k, b});
                }
            }
            for (int k = 0; k < 2; ++k)
                for (int side = 0; side < (two ? 2 : 1); ++side) {
                    AuditorImp_& y = side ? outer : a;
                    auto& my = side ? mo : m;
                    const auto keep = y.mode_;
                    if (y.mode_ != AuditorImp_::SHOWING && !y.Find(key[k]).empty())
                        x.Fail("showing", "an auditor shows while not asked to");
                    y.mode_ = AuditorImp_::SHOWING;
                    std::multiset<const void*> got, want;
                    for (auto& h : y.Find(key[k]))
                        got.insert(h.get());
                    for (auto r = my.equal_range(k); r.first != r.second; ++r.first)
                        want.insert(static_cast<const Storable_*>(box[r.first->second].get()));
                    if (got != want)
                        x.Fail("found", "key %d: %d objects found, %d reported", k, (int)got.size(), (int)want.size());
                    std::set<const void*> distinct(want.begin(), want.end());
                    if (!two) {
                        Handle_<Box_> h;
                        Handle_<Bag_> other;
                        const bool clash = Throws([&] { Environment::Recall(_env, key[k], &h); });
                        if (clash != (distinct.size() > 1) || (distinct.size() == 1 && static_cast<const Storable_*>(h.get()) != *distinct.begin()) || (distinct.empty() && !h.IsEmpty()))
                            x.Fail("recall", "key %d with %d distinct objects is recalled wrongly", k, (int)distinct.size());
                        Environment::Recall(_env, key[k], &other);
                        if (!other.IsEmpty())
                            x.Fail("type", "a box is recalled as a bag");
                        if (distinct.size() == 1 && !Throws([&] { Environment::Recall(_env, key[k], &h); }))
                            x.Fail("full", "recalling into something not empty is accepted");
                    }
                    y.mode_ = keep;
                }
        }
    };
    mode = two ? 0 : 1;
    if (two) {
        ENV_ADD(inner);
        run(_env);
    } else
        run(_env);
    x.State(mo.size() * 100 + mi.size() * 10 + mode);
}

namespace {
    Vector_<> Some(mc::Ctx_& x, int maxn, const std::vector<double>& vals) {
        const int n = x.Choose(maxn + 1);
        Vector_<> r;
        for (int i = 0; i < n; ++i)
            r.push_back(x.Pick(vals));
        return r;
    }
} // namespace

namespace {
void CheckCollections(mc::Ctx_& x, const Vector_<>& a, const Vector_<>& b) {
    const int n = (int)a.size(), m = (int)b.size();
    x.Step();
    auto sq = [](double v) { return v * v + 1; };
    auto bad = [&](const char* what) { x.Fail(what, "%s is wrong for a vector of %d and one of %d elements", what, n, m); };
    Vector_<> t(n);
    Transform(a, sq, &t);
    const auto ap = Apply(sq, a);
    Vector_<> tt(a);
    Transform(&tt, sq);
    const auto rev = Reverse(a);
    const auto cp = Copy(a);
    const auto cat = Concatenate(a, b);
    if ((int)rev.size() != n || (int)cp.size() != n || (int)cat.size() != n + m || (int)ap.size() != n)
        bad("size");
    for (int i = 0; i < n; ++i) {
        if (t[i] != sq(a[i]) || ap[i] != sq(a[i]) || tt[i] != sq(a[i]))
            bad("transform");
        if (rev[i] != a[n - 1 - i] || cp[i] != a[i] || cat[i] != a[i])
            bad("copy");
    }
    for (int i = 0; i < m; ++i)
        if (cat[n + i] != b[i])
            bad("concatenate");
    auto sub = [](double u, double v) { return u - 10 * v; };
    if (n == m) {
        const auto s = Apply(sub, a, b);
        Vector_<> u(n), w(a);
        Transform(a, b, sub, &u);
        Transform(&w, b, sub);
        const auto z = Zip(a, b);
        const auto mp = ZipToMap(a, b);
        const auto mm = ZipToMultimap(a, b);
        std::map<double, double> rm;
        for (int i = 0; i < n; ++i) {
            if (s[i] != sub(a[i], b[i]) || u[i] != s[i] || w[i] != s[i] || z[i].first != a[i] || z[i].second != b[i])
                bad("pairwise");
            rm.insert({a[i], b[i]});
        }
        if (mp != rm || (int)mm.size() != n || (int)z.size() != n)
            bad("zip");
        for (int i = 0; i < n; ++i) {
            int in = 0, have = 0;
            for (auto q = mm.equal_range(a[i]); q.first != q.second; ++q.first)
                have += q.first->second == b[i];
            for (int j = 0; j < n; ++j)
                in += a[j] == a[i] && b[j] == b[i];
            if (in != have)
                bad("multimap");
        }
        const auto keys = Keys(rm);
        const auto vals = MapValues(rm);
        int k = 0;
        for (auto& kv : rm) {
            if (keys[k] != kv.first || vals[k] != kv.second)
                bad("keys");
            ++k;
        }
        if ((int)keys.size() != k || (int)vals.size() != k)
            bad("keys");
    } else {
        Vector_<> u(n), w(a);
        if (!Throws([&] { (void)Apply(sub, a, b); }) || !Throws([&] { Transform(a, b, sub, &u); }) || !Throws([&] { Transform(&w, b, sub); }) || !Throws([&] { Vector_<> v(b); Copy(a, &v); }) || !Throws([&] { Vector_<> v(b); Transform(a, sq, &v); }) || !Throws([&] { (void)ZipToMap(a, b); }) || !Throws([&] { (void)ZipToMultimap(a, b); }))
            bad("mismatch accepted");
    }
    auto pos = [](double v) { return v > 0; };
    const auto f = Filter(a, pos);
    std::vector<double> rf, ru;
    bool all = true, inc = true, nondec = true;
    for (int i = 0; i < n; ++i) {
        if (pos(a[i]))
            rf.push_back(a[i]);
        else
            all = false;
        ru.push_back(a[i]);
        if (i && !(a[i - 1] < a[i]))
            inc = false;
        if (i && !(a[i - 1] <= a[i]))
            nondec = false;
    }
    std::set<double> su(ru.begin(), ru.end());
    const auto uq = Unique(a);
    const auto dn = Unique(a, std::greater<double>());
    if (std::vector<double>(f.begin(), f.end()) != rf || AllOf(a, pos) != all)
        bad("filter");
    if (std::vector<double>(uq.begin(), uq.end()) != std::vector<double>(su.begin(), su.end()) || std::vector<double>(dn.begin(), dn.end()) != std::vector<double>(su.rbegin(), su.rend()))
        bad("unique");
    if (IsMonotonic(a) != inc || IsMonotonic(a, std::less_equal<double>()) != nondec)
        bad("monotonic");
    for (double v : {-4.0, -3.0, 0.0, 1.0, 1.5, 2.0, 9.0}) {
        int lo = 0, up = 0;
        for (double q : su)
            lo += q < v, up += q <= v;
        if (LowerBound(uq, v) - uq.begin() != lo || UpperBound(uq, v) - uq.begin() != up || BinarySearch(uq, v) != (su.count(v) > 0))
            bad("search");
    }
    if (n) {
        if (*MaxElement(a) != *std::max_element(ru.begin(), ru.end()) || *MinElement(a) != *std::min_element(ru.begin(), ru.end()))
            bad("extremes");
    }
    Vector_<> filled(a);
    Fill(&filled, 7.0);
    for (double v : filled)
        if (v != 7.0)
            bad("fill");
    x.State(n * 10 + m);
    Seen(x, "%d %d %g %g", n, m, n ? a[0] : 0, m ? b[0] : 0);
}
} // namespace

MC_SECTION("collections", "all pairs of vectors of up to 4 and 2 elements over 3 values: transform, filter, unique, reverse, append, search, monotonic, zip, maps", 2) {
    const Vector_<> a = Some(x, 4, {1.0, 2.0, -3.0}), b = Some(x, 2, {1.0, 2.0, 5.0});
    CheckCollections(x, a, b);
}

namespace {
    // the k-th element of a long vector: increasing, decreasing, alternating, two values, a permutation, few repeated values,
    // increasing but for the last, increasing but for one two thirds of the way
    Vector_<> Long(int n, int kind) {
        Vector_<> r(n);
        for (int i = 0; i < n; ++i)
            r[i] = kind == 0 ? i - 2.0 : kind == 1 ? n - i : kind == 2 ? (i % 2 ? -i : i) : kind == 3 ? (i < n / 2 ? 1.0 : 2.0) : kind == 4 ? (i * 37) % n - 3 : kind == 5 ? (i * i) % 7 - 3 : kind == 6 ? (i == n - 1 ? i - 2.5 : i) : (i == 2 * n / 3 ? i - 2.0 : i);
        return r;
    }
    const int LENGTHS[] = {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000};
} // namespace

MC_SECTION("long collections", "vectors of 22 lengths from 5 to 5000 in 8 arrangements against one of the same length in 6 arrangements, or shorter", 1) {
    const int n = LENGTHS[x.Choose(x.thorough_ ? 22 : 21)], k = x.Choose(8), l = x.Choose(7);
    CheckCollections(x, Long(n, k), l == 6 ? Long(n - 1, k) : Long(n, l));
}

namespace {
void CheckStatistics(mc::Ctx_& x, const Vector_<>& a, const Vector_<>& b) {
    const int n = (int)a.size();
    x.Step();
    using ld = long double;
    ld sa = 0, sb = 0, l1 = 0, l2 = 0, ab = 0, mag = 1e6;
    for (int i = 0; i < n; ++i)
        sa += a[i], sb += b[i], l1 += fabsl(a[i]), l2 += (ld)a[i] * a[i], ab += (ld)a[i] * b[i], mag += fabsl((ld)a[i] * b[i]);
    auto near = [](double g, ld w, ld scale) { return std::isfinite(g) && fabsl(g - w) <= 1e-11L * (1 + scale); };
    if (!near(Accumulate(a), sa, l1) || !near(InnerProduct(a, b), ab, mag))
        x.Fail("sums", "sum or inner product of %d elements is wrong", n);
    const auto n1 = Vector::L1Normalized(a), n2 = Vector::L2Normalized(a), ca = Vector::Centralized(a);
    ld va = 0, vb = 0, cov = 0;
    for (int i = 0; i < n; ++i) {
        if (!near(n1[i], l1 > 0 ? a[i] / l1 : 0, 1) || !near(n2[i], l2 > 0 ? a[i] / sqrtl(l2) : 0, 1) || !near(ca[i], a[i] - sa / n, 1e3))
            x.Fail("normalized", "element %d of %d: %g %g %g", i, n, n1[i], n2[i], ca[i]);
        const ld da = a[i] - sa / n, db = b[i] - sb / n;
        va += da * da, vb += db * db, cov += da * db;
    }
    if (!near(Vector::Covariance(a, b), cov / n, 1e6))
        x.Fail("covariance", "covariance %g, want %Lg", Vector::Covariance(a, b), cov / n);
    const double c = Vector::Correlation(a, b);
    if (va > 1e-6 && vb > 1e-6 ? fabsl(c - cov / sqrtl(va * vb)) > 1e-9 : !(std::fabs(c) <= 1e-9))
        x.Fail("correlation", "correlation %g of %d elements, want %Lg", c, n, cov / sqrtl(va * vb));
    if (!Throws([&] { (void)Vector::Covariance(a, Vector_<>(n + 1)); }) || !Throws([&] { (void)Vector::Correlation(a, Vector_<>(n + 1)); }))
        x.Fail("size", "vectors of different size are accepted");
    x.State(n);
    Seen(x, "%d %g %g", n, (double)sa, (double)sb);
}
} // namespace

MC_SECTION("statistics", "all pairs of vectors of 1..4 elements over 4 values: sums, products, norms, centring, covariance, correlation", 2) {
    const int n = 1 + x.Choose(x.thorough_ ? 5 : 4);
    Vector_<> a(n), b(n);
    const std::vector<double> V{0.0, 1.0, -2.5, 1e3};
    for (int i = 0; i < n; ++i)
        a[i] = x.Pick(V), b[i] = x.Pick(n > 3 ? std::vector<double>{1.0, -2.5} : V);
    CheckStatistics(x, a, b);
}

MC_SECTION("long statistics", "pairs of vectors of 22 lengths from 5 to 5000 in 6 arrangements each", 0) {
    const int n = LENGTHS[x.Choose(22)], k = x.Choose(6), l = x.Choose(6);
    Vector_<> a = Long(n, k), b = Long(n, l);
    for (auto* v : {&a, &b})
        for (auto& e : *v)
            e *= 1000.0 / n;
    CheckStatistics(x, a, b);
}

MC_SECTION("deep notes", "nests of 1..64 notes of 7 kinds by depth, an error raised at every depth on the way in and out, left one by one or thrown through from any depth", 2) {
    const int depth = 1 + x.Choose(64), shift = x.Choose(7), out = x.Choose(4);
    Notes_ n{x, {}, 0};
    std::function<void(int)> go = [&](int d) {
        n.Check("on the way in");
        if (d == depth) {
            if (out)
                throw Escape_();
            return;
        }
        const size_t was = n.open.size();
        const int i = d % 2 ? -100003 * d : 2147483647 - d;
        const double v = (d % 3 ? 1.0 : 1e7) * (d + 0.5);
        const String_ s("text" + std::to_string(d));
        const char* c = s.c_str();
        const Date_ dt = Date_(2024, 2, 29).AddDays(d);
        const DateTime_ tm(dt, 13, 5, 9);
        auto next = [&](const std::string& note) {
            n.open.push_back(note);
            // out 1: thrown to the outside; 2: caught half way; 3: caught at every level
            const bool stop = out == 3 || (out == 2 && d == depth / 2);
            try {
                go(d + 1);
            } catch (const Escape_&) {
                if (!stop)
                    throw;
            }
        };
        const int k = (d + shift) % 7;
        if (k == 0) {
            NOTICE(i);
            next("i = " + std::to_string(i));
        } else if (k == 1) {
            NOTICE(v);
            next("v = " + std::to_string(v));
        } else if (k == 2) {
            NOTICE(s);
            next(std::string("s = ") + s.c_str());
        } else if (k == 3) {
            NOTICE2("name", c);
            next(std::string("name = ") + c);
        } else if (k == 4) {
            NOTICE(dt);
            next(std::string("dt = ") + Date::ToString(dt).c_str());
        } else if (k == 5) {
            NOTICE(tm);
            next(std::string("tm = ") + DateTime::ToString(tm).c_str());
        } else {
            NOTE("remark");
            next("remark");
        }
        n.open.resize(was);
        n.Check("on the way out");
    };
    try {
        go(0);
    } catch (const Escape_&) {
    }
    n.open.clear();
    n.Check("at the end");
    x.State(depth * 32 + shift * 4 + out);
}

MC_SECTION("long files", "texts of 0..2000 lines of lengths by position up to 5000, written, read, overwritten by a shorter one in a scratch directory", 0) {
    static const int NS[] = {0, 1, 10, 100, 500, 2000};
    const int n = NS[x.Choose(6)], k = x.Choose(3), m = n / 2;
    char dir[] = "/tmp/c30XXXXXX";
    if (!mkdtemp(dir))
        throw std::runtime_error("no scratch directory");
    const String_ name = String_(dir) + "/t.txt";
    Vector_<String_> src, shorter, dst, dst2;
    for (int i = 0; i < n; ++i)
        src.push_back(String_(k == 0 ? i % 80 : k == 1 ? (i * i) % 5000 : (i % 97 ? 3 : 4096), (char)('a' + i % 26)));
    for (int i = 0; i < m; ++i)
        shorter.push_back(String_(i % 7, 'q'));
    x.Step();
    File::Write(name, src);
    File::Read(name, &dst);
    File::Write(name, shorter);
    File::Read(name, &dst2);
    File::Remove(name);
    rmdir(dir);
    if (!(dst == src) || !(dst2 == shorter))
        x.Fail("text", "%d lines read back as %zu lines or other text, overwritten by %d as %zu", n, dst.size(), m, dst2.size());
    x.State(n * 3 + k);
}

MC_SECTION("integers", "every k +- {0, tiny, 0.3, 0.5-, 0.5+} for k in -5..5 and at the ends of the range: rounding and refusal", 0) {
    for (double k : {-5., -4., -3., -2., -1., 0., 1., 2., 3., 4., 5., 2147483647., -2147483648., 1e6}) {
        x.Step();
        if (AsInt(k) != (int)k || NearestInt(k) != (int)k || (k != 0 && std::fabs(k) < 1e7 && AsInt(k - (k > 0 ? 1e-10 : -1e-10)) != (int)k))
            x.Fail("exact", "%g becomes %d or %d", k, AsInt(k), NearestInt(k));
        if (std::fabs(k) < 1e7)
            for (double f : {0.3, 0.499, 0.501, 0.7})
                for (double s : {-1.0, 1.0}) {
                    const double v = k + s * f;
                    const int near = (int)std::lround(v), trunc = (int)std::trunc(v);
                    if (NearestInt(v) != near || AsInt(v) != trunc)
                        x.Fail("rounding", "%g becomes %d and %d", v, NearestInt(v), AsInt(v));
                }
        if (AsInt((std::ptrdiff_t)k) != (int)k)
            x.Fail("index", "%g becomes %d", k, AsInt((std::ptrdiff_t)k));
    }
    for (double v : {3e9, -3e9, 1e300, -1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})
        if (!Throws([&] { (void)AsInt(v); }) || !Throws([&] { (void)NearestInt(v); }))
            x.Fail("range", "%g is accepted as an integer", v);
    for (std::ptrdiff_t v : {(std::ptrdiff_t)2147483648LL, (std::ptrdiff_t)-2147483649LL, (std::ptrdiff_t)1LL << 40})
        if (!Throws([&] { (void)AsInt(v); }))
            x.Fail("range", "%ld is accepted as an integer", (long)v);
    Seen(x, "integers");
}

MC_SECTION("smoothing", "all meshes of 2..5 points over steps {0.5, 1, 3}, values over 3, weights none or over {0.5, 2}, penalties {0, 0.1, 1, 50}: the smoothed values are the minimum of the penalised distance", 2) {
    const int n = 2 + x.Choose(x.thorough_ ? 4 : 3);
    Vector_<> xs(n), ys(n), w;
    xs[0] = -1.0;
    for (int i = 1; i < n; ++i)
        xs[i] = xs[i - 1] + x.Pick(std::vector<double>{0.5, 1.0, 3.0});
    for (int i = 0; i < n; ++i)
        ys[i] = x.Pick(std::vector<double>{0.0, 1.0, -4.0});
    if (x.Flip())
        for (int i = 0; i < n; ++i)
            w.push_back(x.Pick(std::vector<double>{0.5, 2.0}));
    for (double lambda : {0.0, 0.1, 1.0, 50.0}) {
        x.Step();
        const Vector_<> z = SmoothedVals(xs, ys, w, lambda);
        if ((int)z.size() != n)
            x.Fail("size", "%d smoothed values of %d", (int)z.size(), n);
        // the gradient of sum w (z-y)^2 + lambda sum (dz)^2/dx vanishes
        double sz = 0, sy = 0;
        for (int i = 0; i < n; ++i) {
            const double wi = w.empty() ? 1.0 : w[i];
            long double g = wi * ((long double)z[i] - ys[i]);
            if (i)
                g += lambda * ((long double)z[i] - z[i - 1]) / (xs[i] - xs[i - 1]);
            if (i + 1 < n)
                g += lambda * ((long double)z[i] - z[i + 1]) / (xs[i + 1] - xs[i]);
            if (!(fabsl(g) <= 1e-10 * (1 + lambda)))
                x.Fail("minimum", "%d points, penalty %g: slope %Lg at point %d", n, lambda, g, i);
            if (lambda == 0.0 && std::fabs(z[i] - ys[i]) > 1e-12)
                x.Fail("data", "without penalty value %d is %g, want %g", i, z[i], ys[i]);
            sz += wi * z[i], sy += wi * ys[i];
        }
        if (std::fabs(sz - sy) > 1e-9)
            x.Fail("mean", "smoothing changes the weighted sum from %g to %g", sy, sz);
    }
    if (!Throws([&] { (void)SmoothedVals(xs, Vector_<>(n + 1)); }) || !Throws([&] { (void)SmoothedVals(xs, ys, Vector_<>(n + 1, 1.0)); }) || !Throws([&] { (void)SmoothedVals(Reverse(xs), ys); }) || !Throws([&] { (void)SmoothedVals(Vector_<>(1), Vector_<>(1)); }))
        x.Fail("misuse", "unsorted or mismatched data are accepted");
    x.State(n);
}

MC_SECTION("files", "all texts of up to 3 lines over 5 lines, written, read, appended to what is there, removed in a scratch directory", 1) {
    const int n = x.Choose(4);
    const std::vector<String_> L{"", "a", "  two words ", "x,\"y\"", String_(5000, 'z')};
    Vector_<String_> src, dst;
    for (int i = 0; i < n; ++i)
        src.push_back(x.Pick(L));
    const bool before = x.Flip();
    char dir[] = "/tmp/c30XXXXXX";
    if (!mkdtemp(dir))
        throw std::runtime_error("no scratch directory");
    const String_ name = String_(dir) + "/t.txt";
    x.Step();
    File::Write(name, {"something", "longer", "before", "it"});
    File::Write(name, src);
    if (before)
        dst.push_back("kept");
    File::Read(name, &dst);
    Vector_<String_> want = before ? Vector_<String_>{"kept"} : Vector_<String_>();
    want.Append(src);
    bool same = dst.size() == want.size();
    for (int i = 0; same && i < (int)want.size(); ++i)
        same = std::string(dst[i].c_str()) == want[i].c_str();
    File::Remove(name);
    const bool gone = access(name.c_str(), F_OK) != 0, again = !Throws([&] { File::Remove(name); }), reads = !Throws([&] { File::Read(name, &dst); }), writes = !Throws([&] { File::Write(String_(dir) + "/no/such/t.txt", src); });
    rmdir(dir);
    if (!same)
        x.Fail("text", "%d lines read back as %d lines or other text", n, (int)dst.size());
    if (!gone || again || reads || writes)
        x.Fail("missing", "a missing file is removed, read or written");
    Seen(x, "%d lines", n);
}
