// Shared by C14 and C15: every kind of storable object with enumerated contents, and a full description of what can be observed of it.
#pragma once
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/model/blackscholes.hpp>
#include <dal/model/dupire.hpp>
#include <dal/risk/report.hpp>
#include <dal/script/event.hpp>
#include <dal/storage/archive.hpp>
#include <dal/storage/bag.hpp>
#include <dal/storage/box.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <dal/utilities/dictionary.hpp>
#include <map>
#include <unistd.h>
#include <dirent.h>
using namespace Dal;
using Obj_ = Handle_<Storable_>;

namespace {
    // ---------------------------------------------------------------- description
    bool g_sheet = false; // empty cells at the end of a row are not observable in a sheet

    std::string Q(const String_& s) {
        std::string r = "'";
        char t[8];
        for (unsigned char c : s) {
            if (c < 32 || c > 126 || c == '\\' || c == '\'') {
                snprintf(t, sizeof t, "\\%02x", c);
                r += t;
            } else
                r += c;
        }
        return r + "'";
    }
    std::string D(double d) {
        if (std::isnan(d))
            return "nan";
        char t[40];
        snprintf(t, sizeof t, "%a", d);
        return t;
    }
    std::string D(const Date_& d) { return "d" + std::string(Date::ToString(d).c_str()); }
    std::string D(const DateTime_& d) { return D(d.Date()) + "+" + D(d.Frac()); }
    std::string D(const String_& s) { return Q(s); }
    std::string D(bool b) { return b ? "T" : "F"; }
    std::string D(int i) { return std::to_string(i); }
    bool Blank(const Cell_& c) { return std::holds_alternative<std::monostate>(c.val_); }
    std::string D(const Cell_& c) {
        switch (c.val_.index()) {
        case 0: return "bool:" + D(std::get<0>(c.val_));
        case 1: return "num:" + D(std::get<1>(c.val_));
        case 2: return "date:" + D(std::get<2>(c.val_));
        case 3: return "time:" + D(std::get<3>(c.val_));
        case 4: return "text:" + D(std::get<4>(c.val_));
        }
        return "empty";
    }
    template <class T> std::string DV(const Vector_<T>& v) {
        std::string r = "[";
        for (const auto& e : v)
            r += D(T(e)) + ",";
        return r + "]";
    }
    template <> std::string DV<Cell_>(const Vector_<Cell_>& v) {
        size_t n = v.size();
        while (g_sheet && n && Blank(v[n - 1]))
            --n;
        std::string r = "[";
        for (size_t i = 0; i < n; ++i)
            r += D(v[i]) + ",";
        return r + "]";
    }
    template <class T> std::string DM(const Matrix_<T>& m) {
        if (g_sheet && m.Empty())
            return "empty";
        std::string r = D(m.Rows()) + "x" + D(m.Cols()) + ":";
        for (int i = 0; i < m.Rows(); ++i)
            for (int j = 0; j < m.Cols(); ++j)
                r += D(T(m(i, j))) + ",";
        return r;
    }
    template <> std::string DM<Cell_>(const Matrix_<Cell_>& m) {
        int n = m.Cols();
        auto blank = [&](int j) {
            for (int i = 0; i < m.Rows(); ++i)
                if (!Blank(m(i, j)))
                    return false;
            return true;
        };
        while (g_sheet && n && blank(n - 1))
            --n;
        if (g_sheet && (n == 0 || m.Rows() == 0))
            return "empty";
        std::string r = D(m.Rows()) + "x" + D(n) + ":";
        for (int i = 0; i < m.Rows(); ++i)
            for (int j = 0; j < n; ++j)
                r += D(m(i, j)) + ",";
        return r;
    }
    std::string D(const Dictionary_& d) {
        std::string r = "{";
        for (const auto& kv : d)
            r += Q(kv.first) + "=" + D(kv.second) + ",";
        return r + "}";
    }

    // everything an object asks to be stored
    struct Spy_ : Archive::Store_ {
        std::string& out_;
        std::map<const Storable_*, int>& seen_;
        std::map<std::string, std::shared_ptr<Spy_>> kids_;
        Spy_(std::string& out, std::map<const Storable_*, int>& seen) : out_(out), seen_(seen) {}
        bool StoreRef(const Storable_* o) override {
            auto p = seen_.insert({o, (int)seen_.size()});
            out_ += "#" + std::to_string(p.first->second);
            return !p.second;
        }
        void SetType(const String_& t) override { out_ += "type " + Q(t) + " {"; }
        void Done() override { out_ += "}"; }
        Store_& Child(const String_& n) override {
            out_ += "\n" + Q(n) + " = ";
            auto& k = kids_[n.c_str()];
            k.reset(new Spy_(out_, seen_));
            return *k;
        }
        template <class T> Spy_& Put(const std::string& s) {
            out_ += s;
            return *this;
        }
#define VF_PUT(T, F) \
    Spy_& operator=(T v) override { \
        out_ += F(v); \
        return *this; \
    }
        VF_PUT(bool, D) VF_PUT(int, D) VF_PUT(double, D) VF_PUT(const String_&, D) VF_PUT(const Date_&, D) VF_PUT(const DateTime_&, D) VF_PUT(const Vector_<>&, DV) VF_PUT(const Vector_<int>&, DV) VF_PUT(const Vector_<bool>&, DV) VF_PUT(const Vector_<String_>&, DV) VF_PUT(const Vector_<Date_>&, DV)
            VF_PUT(const Vector_<DateTime_>&, DV) VF_PUT(const Vector_<Cell_>&, DV) VF_PUT(const Matrix_<>&, DM) VF_PUT(const Matrix_<String_>&, DM) VF_PUT(const Matrix_<Cell_>&, DM) VF_PUT(const Dictionary_&, D)
    };

    // an object with a member of every kind the archive supports
    struct Probe_ : Storable_ {
        bool b = false;
        int i = 0;
        double d = 0;
        String_ s;
        Date_ dt = Date_(2024, 2, 29);
        Vector_<> vd;
        Vector_<int> vi;
        Vector_<bool> vb;
        Vector_<String_> vs;
        Vector_<Date_> vt;
        Vector_<DateTime_> vm;
        Vector_<Cell_> vc;
        Matrix_<> md;
        Matrix_<String_> ms;
        Matrix_<Cell_> mc;
        Dictionary_ dict;
        Vector_<Obj_> subs;
        Obj_ other;
        explicit Probe_(const String_& name) : Storable_("Probe", name) {}
        void Write(Archive::Store_& dst) const override {
            using namespace Archive::Utils;
            dst.SetType("Probe");
            SetOptional(dst, "name", name_);
            Set(dst, "b", b), Set(dst, "i", i), Set(dst, "d", d), Set(dst, "s", s), Set(dst, "dt", dt);
            Set(dst, "vd", vd), Set(dst, "vi", vi), Set(dst, "vb", vb), Set(dst, "vs", vs), Set(dst, "vt", vt), Set(dst, "vm", vm), Set(dst, "vc", vc);
            Set(dst, "md", md), Set(dst, "ms", ms), Set(dst, "mc", mc);
            if (dict.Size() || !name_.empty())
                Set(dst, "dict", dict);
            SetMultiple(dst, "subs", subs);
            SetOptional(dst, "other", other);
            dst.Done();
        }
        std::string Text() const {
            return D(b) + " " + D(i) + " " + D(d) + " " + D(s) + " " + D(dt) + " " + DV(vd) + " " + DV(vi) + " " + DV(vb) + " " + DV(vs) + " " + DV(vt) + " " + DV(vm) + " " + DV(vc) + " " + DM(md) + " " + DM(ms) + " " + DM(mc) + " " + D(dict);
        }
    };
    struct ProbeReader_ : Archive::Reader_ {
        Storable_* Build() const override { return new Probe_(""); }
        Storable_* Build(const Archive::View_& v, Archive::Built_& share) const override {
            using namespace Archive::Utils;
            using V = Archive::View_;
            String_ n;
            GetOptional(v, "name", &n, std::mem_fn(&V::AsString));
            std::unique_ptr<Probe_> p(new Probe_(n));
            Get(v, "b", &p->b, std::mem_fn(&V::AsBool));
            Get(v, "i", &p->i, std::mem_fn(&V::AsInt));
            Get(v, "d", &p->d, std::mem_fn(&V::AsDouble));
            Get(v, "s", &p->s, std::mem_fn(&V::AsString));
            Get(v, "dt", &p->dt, std::mem_fn(&V::AsDate));
            Get(v, "vd", &p->vd, std::mem_fn(&V::AsDoubleVector));
            Get(v, "vi", &p->vi, std::mem_fn(&V::AsIntVector));
            Get(v, "vb", &p->vb, std::mem_fn(&V::AsBoolVector));
            Get(v, "vs", &p->vs, std::mem_fn(&V::AsStringVector));
            Get(v, "vt", &p->vt, std::mem_fn(&V::AsDateVector));
            Get(v, "vm", &p->vm, std::mem_fn(&V::AsDateTimeVector));
            Get(v, "vc", &p->vc, std::mem_fn(&V::AsCellVector));
            Get(v, "md", &p->md, std::mem_fn(&V::AsDoubleMatrix));
            Get(v, "ms", &p->ms, std::mem_fn(&V::AsStringMatrix));
            Get(v, "mc", &p->mc, std::mem_fn(&V::AsCellMatrix));
            GetOptional(v, "dict", &p->dict, std::mem_fn(&V::AsDictionary));
            GetMultiple(v, "subs", &p->subs, Archive::Builder_<>(share, "subs", ""));
            GetOptional(v, "other", &p->other, Archive::Builder_<>(share, "other", ""));
            return p.release();
        }
    } g_probeReader;

    // what can be seen of an object without storing it
    std::string See(const Storable_& o, std::map<const Storable_*, int>& seen) {
        auto id = seen.insert({&o, (int)seen.size()});
        std::string r = "<" + std::to_string(id.first->second);
        if (!id.second)
            return r + ">";
        r += " " + Q(o.type_) + " " + Q(o.name_) + " ";
        if (auto p = dynamic_cast<const Interp1Linear_*>(&o))
            r += DV(p->x()) + DV(p->f());
        else if (auto p = dynamic_cast<const Interp1_*>(&o)) {
            for (double t = -3; t < 6; t += 0.37)
                r += D((*p)(t)) + ",";
        } else if (auto p = dynamic_cast<const Interp2Linear_*>(&o)) {
            r += DV(p->x()) + DV(p->y());
            for (double a : p->x())
                for (double b : p->y())
                    r += D((*p)(a, b)) + ",";
        } else if (auto p = dynamic_cast<const PiecewiseConstant_*>(&o))
            r += DV(p->knotDates_) + DV(p->fRight_) + DV(p->sofar_);
        else if (auto p = dynamic_cast<const DiscountCurve_*>(&o)) {
            for (int t : {-400, 0, 1, 20, 31, 366, 5000})
                r += D((*p)(Date_(2024, 1, 15), Date_(2024, 1, 15).AddDays(t))) + ",";
        } else if (auto p = dynamic_cast<const BSModelData_*>(&o))
            r += D(p->spot_) + D(p->vol_) + D(p->rate_) + D(p->div_);
        else if (auto p = dynamic_cast<const DupireModelData_*>(&o))
            r += D(p->spot_) + D(p->rate_) + D(p->repo_) + DV(p->spots_) + DV(p->times_) + DM(p->vols_);
        else if (auto p = dynamic_cast<const PseudoRSG_*>(&o)) {
            // draws advance the object, so only the description is compared here and the draws by the caller
            r += D((int)p->NDim());
        } else if (auto p = dynamic_cast<const Fixings_*>(&o)) {
            for (const auto& kv : p->vals_)
                r += D(kv.first) + ":" + D(kv.second) + ",";
        } else if (auto p = dynamic_cast<const Box_*>(&o))
            r += DM(p->contents_);
        else if (auto p = dynamic_cast<const Bag_*>(&o)) {
            for (const auto& kv : p->contents_)
                r += Q(kv.first) + ":" + See(*kv.second, seen) + ",";
        } else if (auto p = dynamic_cast<const Report_*>(&o)) {
            const auto axes = p->Axes();
            auto a = p->MakeAddress();
            for (const auto& n : axes) {
                r += Q(n) + " at " + D(a.axes_[n]) + " size " + D(p->Size(n)) + DV(p->Header(n).labels_) + DM(p->Header(n).values_);
            }
            std::function<void(size_t)> walk = [&](size_t k) {
                if (k == axes.size()) {
                    r += D((*p)[a]) + ",";
                    return;
                }
                for (int i = 0; i < p->Size(axes[k]); ++i) {
                    a[axes[k]] = i;
                    walk(k + 1);
                }
            };
            walk(0);
        } else if (auto p = dynamic_cast<const Probe_*>(&o)) {
            r += p->Text();
            for (const auto& s : p->subs)
                r += See(*s, seen);
            if (p->other)
                r += See(*p->other, seen);
        }
        return r + ">";
    }
    std::string Describe(const Storable_& o) {
        std::map<const Storable_*, int> a, b;
        std::string r = See(o, a) + "\n";
        Spy_ spy(r, b);
        o.Write(spy);
        return r;
    }

    // ---------------------------------------------------------------- alphabets
    std::string S_(const char* s, size_t n) { return std::string(s, n); }
    const std::vector<std::string>& Chars() {
        static const std::vector<std::string> c = {"a", "A", "\"", "\\", "\n", S_("\0", 1), "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xff", "~", "$", ",", "=", "{", "}", "[", " ", "1", "/", ":", "-", "'", "\t", "\r", "."};
        return c;
    }
    const std::vector<String_>& Texts() {
        static const std::vector<String_> t = [] {
            std::vector<String_> r = {"", "x", "Hello World", "true", "FALSE", "null", "1", "-1.5e3", "nan", "inf", "1e999", "2024-01-31", "2024-99-99", "2024-01-31 10:20:30", "2024-01-31 99:99:99", "2024-1-3", "=a=", "==", "=", "$1", "~Bag", "$1~Bag", "a,b", "\"q\"", "a\\", "\\u0041", "{}", "[1,2]", "a;b=c", " lead", "trail ", "\t", "a\tb", "\r", "very long ", "name", "contents0", "caf\xc3\xa9"};
            r[r.size() - 4] = String_(3000, 'y');
            return r;
        }();
        return t;
    }
    const std::vector<double>& Nums() {
        static const std::vector<double> n = {0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3.0, -2.0 / 3.0, 1e-7, 1e22, 123456789.123456789, 9007199254740993.0, 2147483648.0, -4e9, 1e-310, 5e-324, 1.7976931348623157e308, 1e100, 42.0};
        return n;
    }
    const std::vector<Cell_>& Cells() {
        static const std::vector<Cell_> c = [] {
            std::vector<Cell_> r = {Cell_(), Cell_(true), Cell_(false), Cell_(0.0), Cell_(1.0), Cell_(-0.1), Cell_(1e300), Cell_(3e9), Cell_(Date_(2024, 2, 29)), Cell_(Date_(1999, 12, 31)), Cell_(DateTime_(Date_(2024, 1, 1), 0.5)), Cell_(DateTime_(Date_(2024, 1, 1), 23, 59, 59)), Cell_(DateTime_(Date_(2024, 1, 1), 0.0))};
            for (const char* t : {"", "x", "true", "1", "2024-02-29", "2024-01-01 12:00:00", "2024-13-77", "=z=", "a,\"b"})
                r.push_back(Cell_(t));
            return r;
        }();
        return c;
    }
    template <class T> Vector_<T> V(const std::vector<T>& v) { return Vector_<T>(v.begin(), v.end()); }

    void RoundTrip(mc::Ctx_& x, const Storable_& o); // by each medium
    void RoundTripFile(mc::Ctx_& x, const Storable_& o);

    Obj_ Leaf(int k) {
        switch (k) {
        case 0: return Obj_(new BSModelData_("leaf", 100.0, 0.2, 0.01, 0.0));
        case 1: return Obj_(new Interp1Linear_("", {0.0, 1.0}, {2.0, 0.1}));
        case 2: return Obj_(new Box_("bx", Matrix_<Cell_>(2, 2, Cell_("c"))));
        default: return Obj_(new Fixings_("IBM", {}));
        }
    }
} // namespace

// -------------------------------------------------------------------- sections for both media
MC_SECTION("names", "every text of 0..2 (thorough 3) characters over 27 awkward ones and 37 awkward texts as an object's name; as cell, key, axis, label and event", 2) {
    String_ s;
    if (x.Flip())
        s = x.Pick(Texts());
    else
        for (int i = 0, n = x.Choose(x.thorough_ ? 4 : 3); i < n; ++i)
            s += String_(x.Pick(Chars()));
    x.State(std::hash<std::string>()(Q(s)));
    Box_ box(s, Matrix_<Cell_>(1, 1, Cell_(s)));
    RoundTrip(x, box);
    std::multimap<String_, Obj_> m;
    m.insert({s, Leaf(0)});
    m.insert({String_("k") + s, Leaf(1)});
    RoundTrip(x, Bag_(s, m));
    Report_ rep("r", {{s, 1, {s, "l"}}});
    RoundTrip(x, rep);
    RoundTrip(x, Script::ScriptProductData_("p", {Cell_(s), Cell_(Date_(2025, 1, 1))}, {s, String_("x = 1") + s}));
    if (s.size() < 3000)
        RoundTripFile(x, box);
}

MC_SECTION("numbers", "every quadruple of 18 awkward numbers (extremes, denormals, thirds, negative zero) in a model; every one as each element of vectors and matrices", 2) {
    const auto& n = Nums();
    const double a = x.Pick(n), b = x.Pick(n), c = x.thorough_ ? x.Pick(n) : n[(x.Choose(3) * 7) % n.size()], d = x.Pick(n);
    RoundTrip(x, BSModelData_("m", a, b, c, d));
    Matrix_<> v(2, 2);
    v(0, 0) = a, v(0, 1) = d, v(1, 0) = c, v(1, 1) = b;
    RoundTrip(x, DupireModelData_("m", b, a, d, {a, d}, {b}, v));
    Box_ box("", Matrix_<Cell_>(1, 2, Cell_(a)));
    RoundTripFile(x, box);
}

MC_SECTION("non-finite numbers", "infinities and undefined numbers in models and cells", 1) {
    static const double v[] = {INFINITY, -INFINITY, NAN, 1.0};
    const double a = v[x.Choose(4)], b = v[x.Choose(4)];
    RoundTrip(x, BSModelData_("m", a, b, 0.0, 0.0));
    Matrix_<Cell_> m(1, 2, Cell_(a));
    m(0, 1) = b;
    RoundTrip(x, Box_("m", m));
    RoundTripFile(x, Box_("m", m));
}

MC_SECTION("cells", "boxes of 0..2 x 0..2 cells with every combination of 22 cells (four cells: 8 of them), and every single cell in larger boxes", 3) {
    const int r = x.Choose(3), c = x.Choose(3);
    Matrix_<Cell_> m(r, c);
    static const std::vector<int> few = {0, 1, 4, 8, 10, 13, 14, 17};
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j)
            m(i, j) = Cells()[r * c == 4 && !x.thorough_ ? few[x.Choose(8)] : x.Choose(r * c == 4 ? 22 : (int)Cells().size())];
    const Box_ box("b", m);
    RoundTrip(x, box);
    if (r * c <= 2)
        RoundTripFile(x, box);
}

MC_SECTION("larger boxes", "5 x 4 boxes, empty or full but for one enumerated cell; boxes with no rows or no columns", 2) {
    Matrix_<Cell_> m(5, 4, x.Flip() ? Cell_("full") : Cell_());
    m(x.Choose(5), x.Choose(4)) = x.Pick(Cells());
    RoundTrip(x, Box_("big", m));
    RoundTrip(x, Box_("", Matrix_<Cell_>(x.Choose(3), 0)));
}

MC_SECTION("fixings and curves", "every subset of six date-times with values from 0.1 and -3; every piecewise constant function on subsets of five dates; chains of discount curves sharing bases", 3) {
    const int what = x.Choose(3);
    if (what == 0) {
        static const std::vector<DateTime_> t = {DateTime_(Date_(2023, 12, 31), 0.0), DateTime_(Date_(2024, 1, 1), 0.0), DateTime_(Date_(2024, 1, 1), 1.0 / 86400), DateTime_(Date_(2024, 1, 1), 0.5), DateTime_(Date_(2024, 1, 1), 23, 59, 59), DateTime_(Date_(2024, 2, 29), 7, 1, 9)};
        Fixings_::vals_t v;
        for (const auto& e : t)
            if (const int c = x.Choose(3))
                v[e] = c == 1 ? 0.1 : -3.0;
        Fixings_ f("IX[USD]", v);
        RoundTrip(x, f);
        RoundTripFile(x, f);
    } else if (what == 1) {
        Vector_<Date_> d;
        Vector_<> v;
        for (int o : {0, 1, 30, 400, 9000})
            if (const int c = x.Choose(3)) {
                d.push_back(Date_(2024, 1, 15).AddDays(o));
                v.push_back(c == 1 ? 1.0 / 3 : -0.02);
            }
        PiecewiseConstant_ f(d, v, x.Flip() ? "pwc" : "");
        RoundTrip(x, f);
        RoundTripFile(x, f);
    } else {
        // up to three curves, each on no base or an earlier curve; then a bag of a choice of them
        Vector_<Handle_<DiscountCurve_>> made;
        const int n = 1 + x.Choose(3);
        for (int i = 0; i < n; ++i) {
            const int base = x.Choose(i + 1);
            const Vector_<Date_> d = i ? Vector_<Date_>({Date_(2024, 1, 15), Date_(2024, 2, 1)}) : Vector_<Date_>({Date_(2023, 1, 1)});
            PiecewiseLinear_ f(d, Vector_<>(d.size(), 0.01 + i / 30.0), Vector_<>(d.size(), 0.02));
            made.push_back(Handle_<DiscountCurve_>(NewDiscountPWLF(String_(1, 'a' + i), f, base ? made[base - 1] : Handle_<DiscountCurve_>())));
        }
        RoundTrip(x, *made.back());
        RoundTripFile(x, *made.back());
        std::multimap<String_, Obj_> m;
        for (int i = 0; i < n; ++i)
            m.insert({String_(1, 'z' - i), Obj_(made[x.Choose(n)])});
        Bag_ bag("curves", m);
        RoundTrip(x, bag);
        RoundTripFile(x, bag);
    }
}

MC_SECTION("interpolators and products", "linear, bilinear and cubic interpolators, random-number descriptions, script products with every small content", 3) {
    const int what = x.Choose(5);
    const std::vector<double> vals = {0.1, -2.0, 1e10};
    auto some = [&](int n) {
        Vector_<> v;
        for (int i = 0; i < n; ++i)
            v.push_back(x.Pick(vals));
        return v;
    };
    if (what == 0) {
        const int n = 1 + x.Choose(4);
        static const double g[] = {-1.0 / 3, 0.0, 0.7, 3e5};
        Interp1Linear_ f(x.Flip() ? "lin" : "", Vector_<>(g, g + n), some(n));
        RoundTrip(x, f);
        RoundTripFile(x, f);
    } else if (what == 1) {
        const int r = 1 + x.Choose(3), c = 1 + x.Choose(3);
        Matrix_<> f(r, c, 0.1);
        f(x.Choose(r), x.Choose(c)) = x.Pick(vals);
        static const double g[] = {-1.0, 0.3, 7.0};
        Interp2Linear_ p("bi", Vector_<>(g, g + r), Vector_<>(g, g + c), f);
        RoundTrip(x, p);
        RoundTripFile(x, p);
    } else if (what == 2) {
        const int n = 3 + x.Choose(2);
        static const double g[] = {-1.0, 0.3, 2.0, 5.0};
        std::unique_ptr<Interp1_> p(Interp::NewCubic("cub", Vector_<>(g, g + n), some(n), Interp::Boundary_(1 + x.Choose(3), 0.1), Interp::Boundary_(1 + x.Choose(3), -0.7)));
        RoundTrip(x, *p);
        RoundTripFile(x, *p);
    } else if (what == 3) {
        static const int seeds[] = {1, 42, 123456789, 2147483646};
        const char* kind = x.Flip() ? "MRG32" : "IRN";
        const int seed = seeds[x.Choose(4)], dim = 1 + x.Choose(5);
        const bool precise = x.Flip();
        RoundTrip(x, PseudoRSG_(kind, seed, dim, precise)); // comparing draws, so from the start each time
        RoundTripFile(x, PseudoRSG_(kind, seed, dim, precise));
    } else {
        Vector_<Cell_> d;
        Vector_<String_> e;
        static const std::vector<String_> ev = {"K = 1.0", "", "pay = max(spot() - \"K\", 0)", "a,b\\c"};
        const int n = x.Choose(4), m = x.Choose(3);
        for (int i = 0; i < n; ++i)
            d.push_back(n == 3 ? Cells()[(i * 5 + x.Choose(6) * 3) % Cells().size()] : x.Pick(Cells()));
        for (int i = 0; i < m; ++i)
            e.push_back(x.Pick(ev));
        Script::ScriptProductData_ p(x.Flip() ? "prd" : "", d, e);
        RoundTrip(x, p);
        if (n < 3)
            RoundTripFile(x, p);
    }
}

MC_SECTION("nesting and sharing", "bags of 0..3 entries under keys from four (two differing in case only; the third always under one of these, and quick: of one kind or shared, after at most two other objects), each entry a new leaf, an earlier entry shared, or a bag containing new and shared ones", 3) {
    std::vector<Obj_> pool;
    auto leaf = [&](bool nest, bool brief = false) -> Obj_ {
        const int k = x.Choose((int)pool.size() + (brief ? 1 : nest ? 4 : 3));
        if (k < (int)pool.size())
            return pool[k];
        const int j = k - (int)pool.size();
        if (j < 3) {
            pool.push_back(Leaf(j));
            return pool.back();
        }
        return Obj_();
    };
    static const std::vector<String_> keys = {"", "a", "A", "k,1"};
    std::multimap<String_, Obj_> m;
    for (int i = 0, n = x.Choose(4); i < n; ++i) {
        if (i == 2 && pool.size() > 2 && !x.thorough_)
            throw mc::Prune_();
        Obj_ e = leaf(true, i == 2 && !x.thorough_);
        if (!e) {
            std::multimap<String_, Obj_> in;
            for (int j = 0, q = x.Choose(3); j < q; ++j)
                in.insert({String_(1, 'p' + j), leaf(false, i == 1 && j == 1 && !x.thorough_)});
            e.reset(new Bag_(x.Flip() ? "in" : "", in));
            pool.push_back(e);
        }
        m.insert({i == 2 ? keys[1] : x.Pick(keys), e});
    }
    Bag_ bag(x.Flip() ? "out" : "", m);
    RoundTrip(x, bag);
    if (m.size() < 3)
        RoundTripFile(x, bag);
}

MC_SECTION("many entries", "bags of 4..40 entries, each distinct or all the same; bags nested 1..30 deep", 1) {
    const int n = x.Flip() ? 4 + x.Choose(37) : 0;
    if (n) {
        const bool same = x.Flip();
        std::multimap<String_, Obj_> m;
        Obj_ one = Leaf(0);
        for (int i = 0; i < n; ++i)
            m.insert({String_("k") + String::FromInt(i * 7 % n), same ? one : Obj_(new BSModelData_(String::FromInt(i), i, 0.1 * i))});
        RoundTrip(x, Bag_("many", m));
    } else {
        Obj_ o = Leaf(1);
        for (int i = 0, k = 1 + x.Choose(30); i < k; ++i) {
            std::multimap<String_, Obj_> m;
            m.insert({"in", o});
            o.reset(new Bag_(String::FromInt(i), m));
        }
        RoundTrip(x, *o);
        RoundTripFile(x, *o);
    }
}

MC_SECTION("reports", "reports with 1..3 axes of size 1..3 (first also 0), 0..2 labels, headers unset, partly or fully set with every cell, distinct values", 3) {
    const int n = 1 + x.Choose(3);
    Vector_<Report::Axis_> ax;
    static const char* names[] = {"zeta", "alpha", "m,id"};
    int total = 1;
    for (int i = 0; i < n; ++i) {
        Report::Axis_ a;
        a.name_ = names[i];
        a.size_ = i ? 1 + x.Choose(n == 3 ? 2 : 3) : x.Choose(4);
        for (int j = 0, k = x.Choose(n == 3 ? 2 : 3); j < k; ++j)
            a.labels_.push_back(j ? "second" : "");
        total *= a.size_;
        ax.push_back(a);
    }
    Report_ rep(x.Flip() ? "rep" : "", ax);
    Vector_<> v;
    for (int i = 0; i < total; ++i)
        v.push_back(i / 3.0);
    rep.SetAll(v);
    const int h = x.Choose(3);
    const int w = h ? x.Choose(n) : 0;
    if (h && ax[w].size_) {
        Vector_<Cell_> c(ax[w].labels_.size());
        if (!c.empty())
            c[x.Choose((int)c.size())] = x.Pick(Cells());
        for (int i = h == 1 ? ax[w].size_ - 1 : 0; i < ax[w].size_; ++i)
            rep.AddHeaderRow(ax[w].name_, i, c);
    }
    RoundTrip(x, rep);
    if (n < 3 && !h)
        RoundTripFile(x, rep);
}

MC_SECTION("every kind of member", "an object with a member of each kind the archive supports: each member in turn takes every value of its alphabet and every length 0..3, with and without sub-objects", 2) {
    Probe_ p(x.Flip() ? "pr" : "");
    // defaults that do not hide one another
    p.vd = {1.5}, p.vi = {7}, p.vb = {true}, p.vs = {"s"}, p.vt = {Date_(2024, 1, 1)}, p.vm = {DateTime_(Date_(2024, 1, 1), 0.25)}, p.vc = {Cell_("c")};
    p.md = Matrix_<>(1, 2, 0.5), p.ms = Matrix_<String_>(2, 1, "m"), p.mc = Matrix_<Cell_>(1, 1, Cell_(2.5)), p.s = "text";
    static const int ints[] = {0, 1, -1, 2147483646, -2147483646, 1000000};
    static const std::vector<Date_> dates = {Date_(2024, 2, 29), Date_(1950, 1, 1), Date_(2100, 12, 31), Date_(2034, 3, 1)};
    static const std::vector<DateTime_> times = {DateTime_(Date_(2024, 2, 29), 0.0), DateTime_(Date_(2024, 2, 29), 23, 59, 59), DateTime_(Date_(1999, 1, 1), 0.5)};
    const int which = x.Choose(17);
    const int n = which >= 5 && which <= 14 ? x.Choose(4) : 0;
    switch (which) {
    case 0: p.b = x.Flip(); break;
    case 1: p.i = ints[x.Choose(6)]; break;
    case 2: p.d = x.Pick(Nums()); break;
    case 3: p.s = x.Pick(Texts()); break;
    case 4: p.dt = x.Pick(dates); break;
    case 5: p.vd.clear(); for (int i = 0; i < n; ++i) p.vd.push_back(x.Pick(Nums())); break;
    case 6: p.vi.clear(); for (int i = 0; i < n; ++i) p.vi.push_back(ints[x.Choose(6)]); break;
    case 7: p.vb.clear(); for (int i = 0; i < n; ++i) p.vb.push_back(x.Flip()); break;
    case 8: p.vs.clear(); for (int i = 0; i < n; ++i) p.vs.push_back(n == 3 ? Texts()[x.Choose(8) * 3] : x.Pick(Texts())); break;
    case 9: p.vt.clear(); for (int i = 0; i < n; ++i) p.vt.push_back(x.Pick(dates)); break;
    case 10: p.vm.clear(); for (int i = 0; i < n; ++i) p.vm.push_back(x.Pick(times)); break;
    case 11: p.vc.clear(); for (int i = 0; i < n; ++i) p.vc.push_back(n == 3 ? Cells()[x.Choose(11) * 2] : x.Pick(Cells())); break;
    case 12: p.md = Matrix_<>(n, x.Choose(4), x.Pick(Nums())); break;
    case 13: p.ms = Matrix_<String_>(n, x.Choose(4), x.Pick(Texts())); break;
    case 14: p.mc = Matrix_<Cell_>(n, x.Choose(4), x.Pick(Cells())); break;
    case 15: {
        static const std::vector<Cell_> dv = {Cell_(1.0), Cell_(-0.1), Cell_(1e-7), Cell_(1.0 / 3), Cell_(3e9), Cell_("word"), Cell_("two words"), Cell_(Date_(2024, 2, 29)), Cell_(DateTime_(Date_(2024, 2, 29), 0.5)), Cell_(true), Cell_(false), Cell_()};
        static const char* k[] = {"ONE", "TWO", "THREE"};
        for (int i = 0; i < 3; ++i)
            if (const int c = x.Choose(i == 2 ? 3 : (int)dv.size() + 1))
                p.dict.Insert(k[i], dv[c - 1]);
        break;
    }
    default: {
        const int k = x.Choose(4);
        for (int i = 0; i < k; ++i)
            p.subs.push_back(i && x.Flip() ? p.subs[0] : Leaf(x.Choose(4)));
        if (x.Flip())
            p.other = k && x.Flip() ? p.subs[k - 1] : Leaf(2);
    }
    }
    RoundTrip(x, p);
    if (which != 3 && which != 5 && which != 8 && which != 11)
        RoundTripFile(x, p);
}

MC_SECTION("large contents", "every kind of member with 10, 11, 100, 101, 1000 and 3000 elements (texts to 200000 characters, tables 1..300 wide and high, 300 sub-objects, dictionaries of 300, chains of 40 curves, 6 axes)", 1) {
    static const int sizes[] = {10, 11, 64, 100, 101, 257, 1000, 3000};
    const int what = x.Choose(16);
    const int n = sizes[x.Choose(8)];
    x.State(mc::Mix(what, n));
    Probe_ p("pr");
    p.s = "text";
    auto num = [](int i) { return i % 7 == 3 ? i * 1e9 : i / 3.0 - 5; };
    switch (what) {
    case 0: for (int i = 0; i < n; ++i) p.vd.push_back(num(i)); break;
    case 1: for (int i = 0; i < n; ++i) p.vi.push_back(i * 99991 - 1000000); break;
    case 2: for (int i = 0; i < n; ++i) p.vb.push_back(i * i % 7 < 3); break;
    case 3: for (int i = 0; i < n; ++i) p.vs.push_back(String_("s") + String::FromInt(i)); break;
    case 4: for (int i = 0; i < n; ++i) p.vt.push_back(Date_(1980, 1, 1).AddDays(i * 17)); break;
    case 5: for (int i = 0; i < n; ++i) p.vm.push_back(DateTime_(Date_(1980, 1, 1).AddDays(i * 13), i % 24, i % 60, i * 7 % 60)); break;
    case 6: for (int i = 0; i < n; ++i) p.vc.push_back(Cells()[1 + i % (Cells().size() - 1)]); break;
    case 7:
        p.s = String_(n * 66, 'q');
        for (int i = 0; i < n * 66; i += 5)
            p.s[i] = char('a' + i % 26);
        break;
    case 8: {
        static const int dims[][2] = {{1, 300}, {300, 1}, {2, 129}, {129, 2}, {20, 21}, {37, 5}, {64, 64}, {101, 11}};
        const int* d = dims[&sizes[0] + 8 > std::find(sizes, sizes + 8, n) ? std::find(sizes, sizes + 8, n) - sizes : 0];
        p.md = Matrix_<>(d[0], d[1]), p.ms = Matrix_<String_>(d[0], d[1]), p.mc = Matrix_<Cell_>(d[0], d[1]);
        for (int i = 0; i < d[0]; ++i)
            for (int j = 0; j < d[1]; ++j) {
                p.md(i, j) = num(i * d[1] + j);
                p.ms(i, j) = String_("m") + String::FromInt(i) + "_" + String::FromInt(j);
                p.mc(i, j) = Cells()[1 + (i * 3 + j) % (Cells().size() - 1)];
            }
        break;
    }
    case 9: for (int i = 0; i < std::min(n, 300); ++i) p.dict.Insert(String_("K") + String::FromInt(i * 37 % 1009), Cell_(i % 3 ? Cell_(num(i)) : Cell_(String_("v") + String::FromInt(i)))); break;
    case 10: for (int i = 0; i < std::min(n, 300); ++i) p.subs.push_back(i % 5 == 4 ? p.subs[i / 2] : Obj_(new BSModelData_(String_("b") + String::FromInt(i), i, 0.1))); break;
    case 11: {
        Fixings_::vals_t v;
        for (int i = 0; i < n; ++i)
            v[DateTime_(Date_(1980, 1, 1).AddDays(i * 11 / 2), i % 2 ? 0.25 : 0.5)] = num(i);
        Fixings_ f("IX", v);
        RoundTrip(x, f);
        RoundTripFile(x, f);
        return;
    }
    case 12: {
        Vector_<Date_> d;
        Vector_<> l, r;
        for (int i = 0; i < n; ++i)
            d.push_back(Date_(1980, 1, 1).AddDays(i * 12)), l.push_back(num(i) * 1e-12), r.push_back(0.01 + i * 1e-6);
        RoundTrip(x, PiecewiseConstant_(d, r, "pwc"));
        std::unique_ptr<DiscountCurve_> c(NewDiscountPWLF("long", PiecewiseLinear_(d, l, r)));
        RoundTrip(x, *c);
        RoundTripFile(x, *c);
        return;
    }
    case 13: {
        Handle_<DiscountCurve_> c;
        for (int i = 0; i < std::min(n, 40); ++i)
            c.reset(NewDiscountPWLF(String_("c") + String::FromInt(i), PiecewiseLinear_({Date_(2023, 1, 1)}, {0.001 * i}, {0.001}), c));
        RoundTrip(x, *c);
        RoundTripFile(x, *c);
        return;
    }
    case 14: {
        Vector_<> g, f;
        for (int i = 0; i < n; ++i)
            g.push_back(i * 0.3 - 7), f.push_back(num(i));
        RoundTrip(x, Interp1Linear_("lin", g, f));
        std::unique_ptr<Interp1_> cu(Interp::NewCubic("cub", g, f, Interp::Boundary_(2, 0.1), Interp::Boundary_(1, -0.7)));
        RoundTrip(x, *cu);
        Vector_<Cell_> d;
        Vector_<String_> e;
        for (int i = 0; i < n; ++i)
            d.push_back(i % 4 ? Cell_(Date_(2025, 1, 1).AddDays(i)) : Cell_(String_("M") + String::FromInt(i))), e.push_back(String_("x = x + ") + String::FromInt(i));
        RoundTrip(x, Script::ScriptProductData_("prd", d, e));
        return;
    }
    default: {
        const int k = 4 + n % 3;
        Vector_<Report::Axis_> ax;
        int total = 1;
        for (int i = 0; i < k; ++i) {
            Report::Axis_ a;
            a.name_ = String_("ax") + String::FromInt(k - i);
            a.size_ = 1 + (n + i * 3) % 4;
            a.labels_ = {"l"};
            total *= a.size_;
            ax.push_back(a);
        }
        if (n >= 100)
            ax[0].size_ *= 12, total *= 12;
        Report_ rep("rep", ax);
        Vector_<> v;
        for (int i = 0; i < total; ++i)
            v.push_back(num(i));
        rep.SetAll(v);
        for (int i = 0; i < ax[0].size_; ++i)
            rep.AddHeaderRow(ax[0].name_, i, {Cells()[1 + i % 12]});
        RoundTrip(x, rep);
        RoundTripFile(x, rep);
        return;
    }
    }
    RoundTrip(x, p);
    RoundTripFile(x, p);
}
