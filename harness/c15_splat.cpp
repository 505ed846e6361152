// C15: objects laid out as tables of cells (in memory and in comma-separated files) read back identical; damaged tables are rejected, never crash.
#include "storage_sections.hpp"
#include <dal/storage/splat.hpp>
#include <fstream>

namespace {
    void Compare(mc::Ctx_& x, const Storable_& o, const Obj_& back, const char* how) {
        x.Step();
        const std::string a = Describe(o), b = back ? Describe(*back) : std::string("nothing");
        if (a != b)
            x.Fail("identity", "%s reads back as\n%s\ninstead of\n%s", how, b.substr(0, 1500).c_str(), a.substr(0, 1500).c_str());
        auto p = dynamic_cast<const PseudoRSG_*>(&o), q = dynamic_cast<const PseudoRSG_*>(back.get());
        if (p && !strchr(how, ' ')) { // once, as drawing advances the object
            Vector_<> u(p->NDim()), v(p->NDim());
            for (int i = 0; i < 3; ++i) {
                p->FillNormal(&u);
                q->FillNormal(&v);
                if (u != v)
                    x.Fail("identity", "a read-back generator draws other numbers");
            }
        }
    }
    std::string Show(const Matrix_<Cell_>& t) {
        std::string r;
        for (int i = 0; i < t.Rows(); ++i) {
            for (int j = 0; j < t.Cols(); ++j)
                r += D(t(i, j)) + " | ";
            r += "\n";
        }
        return r.substr(0, 2000);
    }
    void RoundTrip(mc::Ctx_& x, const Storable_& o) {
        Matrix_<Cell_> table;
        Obj_ back;
        try {
            table = Splat(o);
            back = UnSplat(table, true);
        } catch (const std::exception& e) {
            x.Fail("identity", "refused: %s\n%s\nfrom\n%s", e.what(), Describe(o).substr(0, 1500).c_str(), Show(table).c_str());
        }
        Compare(x, o, back, "table");
        // a sheet hands the table over with blank cells on the right and below
        Matrix_<Cell_> wide(table.Rows(), table.Cols() + 2);
        for (int i = 0; i < table.Rows(); ++i)
            for (int j = 0; j < table.Cols(); ++j)
                wide(i, j) = table(i, j);
        try {
            back = UnSplat(wide, true);
        } catch (const std::exception& e) {
            x.Fail("identity", "refused with blank columns: %s\n%s", e.what(), Show(wide).c_str());
        }
        Compare(x, o, back, "table with blank columns");
    }
    bool FileCanHold(const Matrix_<Cell_>& t) {
        for (int i = 0; i < t.Rows(); ++i)
            for (int j = 0; j < t.Cols(); ++j)
                if (auto p = std::get_if<String_>(&t(i, j).val_))
                    for (char c : *p)
                        if (c == '\n' || c == '\0')
                            return false;
        return true;
    }
    void RoundTripFile(mc::Ctx_& x, const Storable_& o) {
        const String_ f(("/tmp/vf-c15-" + std::to_string(getpid()) + ".csv").c_str());
        const bool can = FileCanHold(Splat(o));
        Obj_ back;
        bool written = false;
        try {
            SplatFile(f, o);
            written = true;
            back = UnSplatFile(f, true);
            unlink(f.c_str());
        } catch (const std::exception& e) {
            unlink(f.c_str());
            if (can)
                x.Fail("identity", "file refused: %s\n%s", e.what(), Show(Splat(o)).c_str());
            if (written)
                x.Fail("identity", "a table which no file can hold was written without an error");
            return;
        }
        Compare(x, o, back, "file");
    }
    struct Init_ {
        Init_() {
            g_sheet = true;
            mc::g_init = [] { Archive::Register("Probe", &g_probeReader); };
        }
    } s_init;

    // stored tables to damage
    const std::vector<Matrix_<Cell_>>& Corpus() {
        static const std::vector<Matrix_<Cell_>> c = [] {
            std::vector<Obj_> o;
            o.push_back(Leaf(0)), o.push_back(Leaf(1));
            Matrix_<Cell_> m(2, 2);
            m(0, 0) = 1.5, m(0, 1) = "t\"", m(1, 0) = Date_(2024, 2, 29), m(1, 1) = Cell_("2024-01-01");
            o.push_back(Obj_(new Box_("b", m)));
            o.push_back(Obj_(new Fixings_("IBM", {{DateTime_(Date_(2024, 1, 1), 0.5), 3.0}, {DateTime_(Date_(2024, 1, 2), 0.0), 2.0}})));
            std::multimap<String_, Obj_> in;
            in.insert({"a", o[0]}), in.insert({"b", o[0]}), in.insert({"c", o[1]});
            o.push_back(Obj_(new Bag_("bag", in)));
            std::unique_ptr<Report_> rep(new Report_("r", {{"x", 2, {"l"}}, {"y", 1, {}}}));
            rep->SetAll({1.0, 2.0});
            o.push_back(Obj_(rep.release()));
            o.push_back(Obj_(new PseudoRSG_("MRG32", 7, 2, true)));
            Handle_<DiscountCurve_> base(NewDiscountPWLF("base", PiecewiseLinear_({Date_(2024, 1, 1)}, {0.01}, {0.02})));
            o.push_back(Obj_(NewDiscountPWLF("top", PiecewiseLinear_({Date_(2024, 1, 1), Date_(2025, 1, 1)}, {0.01, 0.0}, {0.02, 0.0}), base)));
            o.push_back(Obj_(new Interp2Linear_("bi", {0.0, 1.0}, {2.0}, Matrix_<>(2, 1, 0.5))));
            o.push_back(Obj_(Interp::NewCubic("cu", {0.0, 1.0, 2.0}, {1.0, 0.0, 3.0}, Interp::Boundary_(2, 0.0), Interp::Boundary_(2, 0.0))));
            o.push_back(Obj_(new Script::ScriptProductData_("p", {Cell_(Date_(2025, 1, 1)), Cell_("K")}, {"x = 1", "2.0"})));
            o.push_back(Obj_(new DupireModelData_("d", 1, 2, 3, {1.0, 2.0}, {1.0}, Matrix_<>(2, 1, 0.1))));
            o.push_back(Obj_(new PiecewiseConstant_({Date_(2024, 1, 1), Date_(2024, 5, 1)}, {1.0, 2.0})));
            std::unique_ptr<Probe_> p(new Probe_("pr"));
            p->vd = {1.5}, p->vi = {7}, p->vb = {true}, p->vs = {"s"}, p->vt = {Date_(2024, 1, 1)}, p->vm = {DateTime_(Date_(2024, 1, 1), 0.25)}, p->vc = {Cell_("c"), Cell_()};
            p->md = Matrix_<>(1, 2, 0.5), p->ms = Matrix_<String_>(2, 1, "m"), p->mc = Matrix_<Cell_>(1, 1, Cell_(2.5));
            p->dict.Insert("K", Cell_(2.0));
            p->subs = {o[0], o[0]};
            o.push_back(Obj_(p.release()));
            std::vector<Matrix_<Cell_>> r;
            for (const auto& e : o)
                r.push_back(Splat(*e));
            return r;
        }();
        return c;
    }
    // either refused, or a proper object that can be laid out again
    void Judge(mc::Ctx_& x, const Matrix_<Cell_>& t, bool quiet = true) {
        x.Step();
        Obj_ o;
        try {
            o = UnSplat(t, quiet);
        } catch (const std::exception&) {
            return;
        }
        if (!o)
            x.Fail("damaged", "nothing is returned for\n%s", Show(t).c_str());
        x.Outcome(std::hash<std::string>()(Describe(*o)));
        RoundTrip(x, *o);
    }
    Matrix_<Cell_> Without(const Matrix_<Cell_>& t, int row, int col) {
        Matrix_<Cell_> r(t.Rows() - (row >= 0), t.Cols() - (col >= 0));
        for (int i = 0; i < r.Rows(); ++i)
            for (int j = 0; j < r.Cols(); ++j)
                r(i, j) = t(i + (row >= 0 && i >= row), j + (col >= 0 && j >= col));
        return r;
    }
    Matrix_<Cell_> Part(const Matrix_<Cell_>& t, int r0, int r1, int c0, int c1) {
        Matrix_<Cell_> r(r1 - r0, c1 - c0);
        for (int i = 0; i < r.Rows(); ++i)
            for (int j = 0; j < r.Cols(); ++j)
                r(i, j) = t(r0 + i, c0 + j);
        return r;
    }
} // namespace

MC_SECTION("one cell changed", "each cell of 14 stored tables replaced by each of 22 cells and by 12 texts with a meaning in tables (thorough: two cells, the second in the same row or column)", 2) {
    const auto& t = x.Pick(Corpus());
    static const std::vector<Cell_> by = [] {
        std::vector<Cell_> r = Cells();
        for (const char* s : {"~", "$1", "$", "$1~", "~BSModelData_v1", "$1~BSModelData_v1", "~Nonsense", "name", "contents0", "subs0", "~Bag", "$1~Bag"})
            r.push_back(Cell_(s));
        r.push_back(Cell_(-1.0));
        r.push_back(Cell_(1e12));
        return r;
    }();
    const int n = x.Choose(t.Rows() * t.Cols());
    const int i = n / t.Cols(), j = n % t.Cols();
    for (const auto& c : by) {
        Matrix_<Cell_> u = t;
        u(i, j) = c;
        Judge(x, u);
        if (x.thorough_)
            for (int k = 0; k < t.Rows() + t.Cols(); ++k)
                for (const auto& d : by) {
                    Matrix_<Cell_> w = u;
                    (k < t.Rows() ? w(k, j) : w(i, k - t.Rows())) = d;
                    Judge(x, w);
                }
    }
}

MC_SECTION("parts of tables", "each rectangle of 14 stored tables; each row and column removed, doubled or moved to the end", 1) {
    const auto& t = x.Pick(Corpus());
    const int r = t.Rows(), c = t.Cols();
    for (int a = 0; a <= r; ++a)
        for (int b = a; b <= r; ++b)
            for (int d = 0; d <= c; ++d)
                for (int e = d; e <= c; ++e)
                    Judge(x, Part(t, a, b, d, e), false);
    for (int i = 0; i < r; ++i)
        Judge(x, Without(t, i, -1));
    for (int j = 0; j < c; ++j)
        Judge(x, Without(t, -1, j));
    for (int i = 0; i < r; ++i) {
        Matrix_<Cell_> u(r + 1, c);
        for (int k = 0; k <= r; ++k)
            for (int j = 0; j < c; ++j)
                u(k, j) = t(k - (k > i), j);
        Judge(x, u);
        u = Matrix_<Cell_>(r, c);
        for (int k = 0; k < r; ++k)
            for (int j = 0; j < c; ++j)
                u(k, j) = t(k == r - 1 ? i : k + (k >= i), j);
        Judge(x, u);
    }
    for (int k = 0; k < c; ++k) {
        Matrix_<Cell_> u(r, c + 1);
        for (int i = 0; i < r; ++i)
            for (int j = 0; j <= c; ++j)
                u(i, j) = t(i, j - (j > k));
        Judge(x, u);
    }
}

MC_SECTION("tables of a few cells", "every table of up to 2 x 3 over 9 cells", 2) {
    const int r = x.Choose(3), c = x.Choose(4);
    static const std::vector<Cell_> a = {Cell_(), Cell_("~Bag"), Cell_("~Box"), Cell_("$1~Bag"), Cell_("$1"), Cell_("name"), Cell_("contents"), Cell_(1.0), Cell_("keys")};
    Matrix_<Cell_> t(r, c);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j)
            t(i, j) = a[x.Choose(r * c > 5 && !x.thorough_ ? 6 : (int)a.size())];
    Judge(x, t, x.Flip());
}

MC_SECTION("files", "files that are missing, unwritable, empty, made of separators and quotes (every text of 0..6 characters over five), or a stored one cut at every byte", 1) {
    const String_ f(("/tmp/vf-c15-" + std::to_string(getpid()) + ".csv").c_str());
    auto judge = [&](const std::string& text) {
        std::ofstream(f.c_str(), std::ios::binary) << text;
        Obj_ o;
        x.Step();
        try {
            o = UnSplatFile(f, true);
        } catch (const std::exception&) {
        }
        unlink(f.c_str());
        if (o)
            RoundTrip(x, *o);
    };
    const int what = x.Choose(3);
    if (what == 0) {
        auto refuses = [&](auto fn) {
            try {
                fn();
            } catch (const std::exception&) {
                return;
            }
            x.Fail("damaged", "a file which cannot be read or written is not reported");
        };
        refuses([] { SplatFile("/nonexistent/dir/file.csv", *Leaf(0)); });
        refuses([] { UnSplatFile("/nonexistent/dir/file.csv", true); });
        refuses([&] {
            std::ofstream(f.c_str()).close();
            try {
                UnSplatFile(f, true);
            } catch (...) {
                unlink(f.c_str());
                throw;
            }
        });
    } else if (what == 1) {
        static const char a[] = ",\"\n=~";
        std::string s;
        for (int i = 0, n = x.Choose(7); i < n; ++i)
            s += a[x.Choose(5)];
        judge(s);
    } else {
        const int k = x.Choose((int)Corpus().size());
        const Obj_ o = UnSplat(Corpus()[k], true);
        SplatFile(f, *o);
        std::ifstream in(f.c_str(), std::ios::binary);
        std::string t((std::istreambuf_iterator<char>(in)), {});
        in.close();
        for (size_t i = 0; i < t.size(); ++i) {
            judge(t.substr(0, i));
            std::string u = t;
            for (char c : {'"', ',', '\n', '=', '\r'}) {
                u[i] = c;
                judge(u);
            }
            u = t;
            u.erase(i, 1);
            judge(u);
        }
    }
}
