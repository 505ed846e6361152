// C21: containers against plain models, for every sequence of operations within the bounds.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/ndarray.hpp>
#include <dal/math/stacks.hpp>
#include <dal/risk/report.hpp>
#include <dal/utilities/algorithms.hpp>
#include <map>
using namespace Dal;

// ------------------------------------------------------------------ matrices
namespace {
    struct M_ {
        int r = 0, c = 0;
        std::vector<double> v;
        M_() {}
        M_(int r_, int c_, double f = 0) : r(r_), c(c_), v(r_ * c_, f) {}
        double& at(int i, int j) { return v[i * c + j]; }
        void Resize(int nr, int nc) {
            M_ n(nr, nc);
            for (int i = 0; i < std::min(r, nr); ++i)
                for (int j = 0; j < std::min(c, nc); ++j)
                    n.at(i, j) = at(i, j);
            *this = n;
        }
    };
    void Check(mc::Ctx_& x, Matrix_<>& a, M_ m, const std::string& h) {
        x.Step();
        const Matrix_<>& k = a;
        if (a.Rows() != m.r || a.Cols() != m.c || a.Empty() != m.v.empty())
            x.Fail("shape", "%d x %d%s instead of %d x %d after%s", a.Rows(), a.Cols(), a.Empty() ? " (empty)" : "", m.r, m.c, h.c_str());
        for (int i = 0; i < m.r; ++i) {
            auto row = a.Row(i);
            auto crow = k.Row(i);
            const auto crow2 = k[i];
            Vector_<> v = crow;
            bool ok = row.size() == m.c && crow.size() == m.c && (int)v.size() == m.c && row.end() - row.begin() == m.c && (m.c == 0 || (crow.front() == m.at(i, 0) && crow.back() == m.at(i, m.c - 1)));
            auto it = crow.begin();
            for (int j = 0; ok && j < m.c; ++j, ++it)
                ok = row[j] == m.at(i, j) && *it == m.at(i, j) && crow2[j] == m.at(i, j) && a(i, j) == m.at(i, j) && k(i, j) == m.at(i, j) && v[j] == m.at(i, j) && a[i][j] == m.at(i, j);
            if (!ok || it != crow.end())
                x.Fail("row", "row %d of a %d x %d matrix is wrong after%s", i, m.r, m.c, h.c_str());
        }
        for (int j = 0; j < m.c; ++j) {
            auto col = a.Col(j);
            auto ccol = k.Col(j);
            Vector_<> v = ccol;
            bool ok = (int)col.size() == m.r && (int)ccol.size() == m.r && (int)v.size() == m.r && ccol.end() - ccol.begin() == m.r;
            auto it = ccol.begin();
            auto im = col.begin();
            for (int i = 0; ok && i < m.r; ++i, ++it, ++im)
                ok = col[i] == m.at(i, j) && ccol[i] == m.at(i, j) && *it == m.at(i, j) && *im == m.at(i, j) && *(ccol.begin() + i) == m.at(i, j) && v[i] == m.at(i, j);
            if (!ok || it != ccol.end() || im != col.end())
                x.Fail("col", "column %d of a %d x %d matrix is wrong after%s", j, m.r, m.c, h.c_str());
        }
        if (std::vector<double>(k.begin(), k.end()) != m.v || k.Last() - k.First() != (int)m.v.size())
            x.Fail("elements", "the elements of a %d x %d matrix are wrong after%s", m.r, m.c, h.c_str());
    }
    // what a moved-from matrix holds is unspecified, but it is a matrix
    M_ Observe(mc::Ctx_& x, Matrix_<>& a, const std::string& h) {
        const bool ok = a.Rows() >= 0 && a.Cols() >= 0 && a.Rows() < 100 && a.Cols() < 100;
        if (!ok)
            x.Fail("moved", "a moved-from matrix has %d rows and %d columns after%s", a.Rows(), a.Cols(), h.c_str());
        M_ m(a.Rows(), a.Cols());
        for (int i = 0; i < m.r; ++i)
            for (int j = 0; j < m.c; ++j)
                m.at(i, j) = a(i, j);
        return m;
    }
    void Number(Matrix_<>& a, M_& m, int base) {
        for (int i = 0; i < m.r; ++i)
            for (int j = 0; j < m.c; ++j)
                switch ((i + j) % 4) {
                case 0:
                    a(i, j) = m.at(i, j) = base + 10 * i + j;
                    break;
                case 1:
                    a.Row(i)[j] = m.at(i, j) = base + 10 * i + j;
                    break;
                case 2:
                    a.Col(j)[i] = m.at(i, j) = base + 10 * i + j;
                    break;
                default: {
                    auto c = a.Col(j);
                    *(c.begin() + i) = m.at(i, j) = base + 10 * i + j;
                }
                }
    }
} // namespace
MC_SECTION("matrices", "all sequences of 3 operations (thorough 4) on a pair of matrices, the first of every shape 0..3 x 0..3: resize to every shape 0..3 x 0..3, fill, scale, write, copy, move, swap, clear; both read in every way after each", 2) {
    int r = x.Choose(4), c = x.Choose(4);
    Matrix_<> a(r, c, 5.0), b(2, 3);
    M_ ma(r, c, 5.0), mb(2, 3);
    std::string h = " start";
    Check(x, a, ma, h);
    if (x.Flip()) {
        Number(a, ma, 100);
        h = " write";
    }
    Number(b, mb, 200);
    const int depth = x.thorough_ ? 4 : 3;
    for (int i = 0; i < depth; ++i) {
        const int k = x.Choose(16 + 12);
        h += " " + std::to_string(k);
        if (k < 16) {
            a.Resize(k / 4, k % 4);
            ma.Resize(k / 4, k % 4);
        } else
            switch (k - 16) {
            case 0:
                a.Fill(7.0);
                std::fill(ma.v.begin(), ma.v.end(), 7.0);
                break;
            case 1:
                a *= 2.0;
                for (auto& v : ma.v)
                    v *= 2;
                break;
            case 2:
                Number(a, ma, 300 + 100 * i);
                break;
            case 3:
                a = b;
                ma = mb;
                break;
            case 4:
                b = a;
                mb = ma;
                break;
            case 5:
                a = std::move(b);
                ma = mb;
                mb = Observe(x, b, h);
                break;
            case 6: {
                Matrix_<> t(std::move(a));
                Check(x, t, ma, h);
                M_ ms = Observe(x, a, h);
                Check(x, a, ms, h);
                a = std::move(t);
                break;
            }
            case 7: {
                Matrix_<> t(a);
                Check(x, t, ma, h);
                t.Fill(-1);
                break;
            }
            case 8:
                a.swap(b);
                std::swap(ma, mb);
                break;
            case 9:
                a.Swap(&b);
                std::swap(ma, mb);
                break;
            case 10:
                a.Clear();
                ma = M_();
                break;
            default: {
                Matrix_<>& s = a;
                a = s;
                a = std::move(s);
            }
            }
        Check(x, a, ma, h);
        Check(x, b, mb, h);
    }
    uint64_t s = mc::Mix(ma.r * 4 + ma.c, mb.r * 4 + mb.c);
    for (double v : ma.v)
        s = mc::Mix(s, (int64_t)v);
    x.State(s);
}
MC_SECTION("square matrices and utilities", "every shape 0..3 x 0..3 and pairs of them: square resizing, transposition, stacking, transforming, copying and conversion to and from vectors by rows and columns", 1) {
    const int r = x.Choose(4), c = x.Choose(4), r2 = x.Choose(4), c2 = x.Choose(4);
    Matrix_<> a(r, c), b(r2, c2);
    M_ ma(r, c), mb(r2, c2);
    Number(a, ma, 100);
    Number(b, mb, 500);
    std::string h = " " + std::to_string(r) + "x" + std::to_string(c) + " with " + std::to_string(r2) + "x" + std::to_string(c2);
    SquareMatrix_<double> s(r, 3.0);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < r; ++j)
            s(i, j) = i * 10 + j;
    s.Resize(c);
    const SquareMatrix_<double>& cs = s;
    if (s.Rows() != c || s.Cols() != c)
        x.Fail("square", "shape after resizing%s", h.c_str());
    for (int i = 0; i < c; ++i)
        for (int j = 0; j < c; ++j) {
            const double w = i < r && j < r ? i * 10 + j : 0;
            if (cs(i, j) != w || s.Row(i)[j] != w || cs.Row(i)[j] != w || s.Col(j)[i] != w || cs.Col(j)[i] != w || static_cast<const Matrix_<>&>(s)(i, j) != w)
                x.Fail("square", "element (%d, %d) after resizing from %d to %d", i, j, r, c);
        }
    {
        auto t = Matrix::MakeTranspose(a);
        M_ mt(c, r);
        for (int i = 0; i < r; ++i)
            for (int j = 0; j < c; ++j)
                mt.at(j, i) = ma.at(i, j);
        Check(x, t, mt, " transposing" + h);
        auto n = Matrix::Apply([](double v) { return -v; }, a);
        M_ mn = ma;
        for (auto& v : mn.v)
            v = -v;
        Check(x, n, mn, " applying" + h);
        Matrix::Transform(&n, [](double v) { return -v; });
        Check(x, n, ma, " transforming" + h);
        Matrix::Transform(&n, a, [](double p, double q) { return p + q; });
        for (size_t i = 0; i < mn.v.size(); ++i)
            mn.v[i] = 2 * ma.v[i];
        Check(x, n, mn, " combining" + h);
        Matrix_<> o(r, c, 1.0);
        Matrix::Transform(a, n, [](double p, double q) { return q - p; }, &o);
        Check(x, o, ma, " subtracting" + h);
        o.Fill(0);
        Matrix::Copy(a, &o);
        Check(x, o, ma, " copying" + h);
    }
    for (int byCols = 0; byCols < 2; ++byCols) {
        auto v = Matrix::ToVectors(a, byCols == 1);
        bool ok = (int)v.size() == (byCols ? c : r);
        for (int i = 0; ok && i < (int)v.size(); ++i) {
            ok = (int)v[i].size() == (byCols ? r : c);
            for (int j = 0; ok && j < (int)v[i].size(); ++j)
                ok = v[i][j] == (byCols ? ma.at(j, i) : ma.at(i, j));
        }
        if (!ok)
            x.Fail("vectors", "conversion to vectors of%s", h.c_str());
        if (!v.empty()) {
            auto m = Matrix::FromVectors(v, byCols == 1);
            Check(x, m, ma, " converting to vectors and back" + h);
            // a longer later vector is rejected or, if ragged, widens the matrix; a shorter one leaves the rest empty
            v.back().push_back(99.0);
            const bool first = v.size() == 1;
            for (int ragged = 0; ragged < 2; ++ragged) {
                bool threw = false;
                try {
                    auto w = Matrix::FromVectors(v, byCols == 1, true, ragged == 1);
                    M_ mw(byCols ? r + 1 : r, byCols ? c : c + 1);
                    for (int i = 0; i < (int)v.size(); ++i)
                        for (int j = 0; j < (int)v[i].size(); ++j)
                            (byCols ? mw.at(j, i) : mw.at(i, j)) = v[i][j];
                    Check(x, w, mw, " converting ragged vectors" + h);
                } catch (const mc::Violation_&) {
                    throw;
                } catch (const std::exception&) {
                    threw = true;
                }
                if (threw != (!ragged && !first))
                    x.Fail("vectors", "vectors of different lengths are %s", threw ? "rejected" : "accepted");
            }
        }
    }
    Matrix_<> d(a);
    Matrix::Append(&d, b);
    M_ md = ma;
    md.Resize(r + r2, std::max(c, c2));
    for (int i = 0; i < r2; ++i)
        for (int j = 0; j < c2; ++j)
            md.at(r + i, j) = mb.at(i, j);
    Check(x, d, md, " stacking" + h);
    Matrix_<> one = Matrix::M1x1(4.0);
    Check(x, one, M_(1, 1, 4.0), " making 1x1");
}

// ------------------------------------------------------------------ arrays
namespace {
    struct Arr_ {
        std::vector<int> n;
        std::map<std::vector<int>, double> v; // missing elements are 0
    };
    void Each(const std::vector<int>& n, const std::function<void(const std::vector<int>&)>& f) {
        std::vector<int> at(n.size());
        for (int s : n)
            if (s == 0)
                return;
        for (;;) {
            f(at);
            int d = (int)n.size() - 1;
            while (d >= 0 && ++at[d] == n[d])
                at[d--] = 0;
            if (d < 0)
                return;
        }
    }
    Vector_<int> V(const std::vector<int>& v) { return Vector_<int>(v.begin(), v.end()); }
    template <class A_> void CheckArr(mc::Ctx_& x, A_& a, Arr_& m, const char* what) {
        x.Step();
        const A_& k = a;
        size_t n = 1;
        for (int s : m.n)
            n *= s;
        if (a.Sizes() != V(m.n) || a.IsEmpty() != (n == 0))
            x.Fail("array shape", "wrong sizes after %s", what);
        Each(m.n, [&](const std::vector<int>& at) {
            const double w = m.v.count(at) ? m.v[at] : 0.0;
            if (k[V(at)] != w || a[V(at)] != w)
                x.Fail("array element", "an element is %g instead of %g after %s", k[V(at)], w, what);
        });
    }
    void ResizeArr(Arr_& m, const std::vector<int>& n) {
        m.n = n;
        for (auto it = m.v.begin(); it != m.v.end();) {
            bool in = true;
            for (size_t d = 0; d < n.size(); ++d)
                in = in && it->first[d] < n[d];
            it = in ? ++it : m.v.erase(it);
        }
    }
    std::vector<int> Shape(mc::Ctx_& x, int nd, int max) {
        std::vector<int> n(nd);
        for (auto& s : n)
            s = x.Choose(max + 1);
        return n;
    }
} // namespace
MC_SECTION("arrays", "arrays of 1..4 dimensions of sizes 0..3 (0..2 from 3 dimensions): written, resized to every other shape, resized back, swapped, filled and scaled", 3) {
    const int nd = 1 + x.Choose(x.thorough_ ? 4 : 3);
    const int max = nd < 3 ? 3 : 2;
    auto n0 = Shape(x, nd, max), n1 = Shape(x, nd, max);
    ArrayN_<double> a(V(n0), 4.0);
    Arr_ m;
    m.n = n0;
    Each(n0, [&](const std::vector<int>& at) { m.v[at] = 4.0; });
    CheckArr(x, a, m, "construction");
    int id = 0;
    Each(n0, [&](const std::vector<int>& at) { a[V(at)] = m.v[at] = ++id; });
    CheckArr(x, a, m, "writing");
    a.Resize(V(n1));
    ResizeArr(m, n1);
    CheckArr(x, a, m, "resizing");
    Each(n1, [&](const std::vector<int>& at) {
        if (!m.v.count(at))
            a[V(at)] = m.v[at] = ++id;
    });
    ArrayN_<double> b(V(n0), 0.0);
    Arr_ mb;
    mb.n = n0;
    a.Swap(&b);
    std::swap(m, mb);
    CheckArr(x, a, m, "swapping");
    CheckArr(x, b, mb, "swapping");
    b.Resize(V(n0));
    ResizeArr(mb, n0);
    CheckArr(x, b, mb, "resizing back");
    b *= 2.0;
    for (auto& p : mb.v)
        p.second *= 2;
    CheckArr(x, b, mb, "scaling");
    a.Fill(9.0);
    Each(n0, [&](const std::vector<int>& at) { m.v[at] = 9.0; });
    CheckArr(x, a, m, "filling");
    bool threw = false;
    try {
        auto n2 = n0;
        n2.push_back(1);
        a.Resize(V(n2));
    } catch (const std::exception&) {
        threw = true;
    }
    if (!threw)
        x.Fail("array shape", "a change of dimension is accepted");
    CheckArr(x, a, m, "a rejected resize");
    // swapping with a vector
    size_t total = 1;
    int big = 0;
    for (int s : n0)
        total *= s, big = std::max(big, s);
    Vector_<> v = {1.5, 2.5, 3.5, 4.5};
    threw = false;
    try {
        a.Swap(&v);
    } catch (const std::exception&) {
        threw = true;
    }
    if (threw != (size_t(big) != total || (big == 0 && n0.size() > 1)))
        x.Fail("array swap", "swapping with a vector is %s", threw ? "refused" : "accepted");
    if (!threw) {
        bool ok = v.size() == total && (total == 0 || v[0] == 9.0);
        int seen = 0;
        Arr_ w;
        w.n = std::vector<int>(a.Sizes().begin(), a.Sizes().end());
        Each(w.n, [&](const std::vector<int>& at) { ok = ok && a[V(at)] == 1.5 + seen++; });
        if (!ok || seen != 4)
            x.Fail("array swap", "contents after swapping with a vector");
    } else
        CheckArr(x, a, m, "a rejected swap");
}
MC_SECTION("cubes", "cubes of every shape 0..3 in each direction resized to every shape 0..2: elements, sizes and slices", 2) {
    const int i0 = x.Choose(4), j0 = x.Choose(4), k0 = x.Choose(4), i1 = x.Choose(3), j1 = x.Choose(3), k1 = x.Choose(3);
    Cube_<double> c(i0, j0, k0);
    auto fail = [&](const char* w) { x.Fail("cube", "%s of a cube %d %d %d resized to %d %d %d", w, i0, j0, k0, i1, j1, k1); };
    for (int i = 0; i < i0; ++i)
        for (int j = 0; j < j0; ++j)
            for (int k = 0; k < k0; ++k)
                c(i, j, k) = 100 * i + 10 * j + k;
    auto check = [&](int I, int J, int K) {
        const Cube_<double>& cc = c;
        x.Step();
        if (c.SizeI() != I || c.SizeJ() != J || c.SizeK() != K)
            fail("sizes");
        for (int i = 0; i < I; ++i)
            for (int j = 0; j < J; ++j) {
                for (int k = 0; k < K; ++k) {
                    const double w = i < i0 && j < j0 && k < k0 ? 100 * i + 10 * j + k : 0;
                    if (c(i, j, k) != w || cc(i, j, k) != w || cc[Vector_<int>({i, j, k})] != w || c.SliceBegin(i, j)[k] != w || cc.SliceBegin(i, j)[k] != w)
                        fail("elements");
                }
                if (K > 0 && cc.SliceEnd(i, j) - cc.SliceBegin(i, j) != K)
                    fail("slices");
            }
    };
    check(i0, j0, k0);
    c.Resize(i1, j1, k1);
    check(i1, j1, k1);
}

// ------------------------------------------------------------------ stacks and vectors
namespace {
    template <class S_> void CheckStack(mc::Ctx_& x, S_& s, const std::vector<std::string>& m, const std::string& h) {
        x.Step();
        const S_& k = s;
        bool ok = (size_t)s.Size() == m.size() && s.IsEmpty() == m.empty();
        for (size_t i = 0; ok && i < m.size(); ++i)
            ok = s[i] == m[m.size() - 1 - i] && k[i] == m[m.size() - 1 - i];
        if (ok && !m.empty())
            ok = s.Top() == m.back() && k.Top() == m.back();
        if (!ok)
            x.Fail("stack", "stack of %d instead of %zu elements, or different ones, after%s", (int)s.Size(), m.size(), h.c_str());
    }
} // namespace
MC_SECTION("stacks", "all sequences of 5 operations (thorough 6) on a pair of growing stacks of initial capacity 0..2: push, pop, pop several, read and pop, reset, clear, copy, move", 3) {
    using S_ = Stack_<std::string, 2>;
    const int cap = x.Choose(3);
    S_ a(cap), b;
    std::vector<std::string> ma, mb;
    std::string h = " capacity " + std::to_string(cap);
    b.Push(std::string("b"));
    mb.push_back("b");
    int id = 0;
    const int depth = x.thorough_ ? 6 : 5;
    for (int i = 0; i < depth; ++i) {
        const int k = x.Choose(11);
        h += " " + std::to_string(k);
        switch (k) {
        case 0:
            a.Push("a long enough string to live on the heap " + std::to_string(++id));
            ma.push_back("a long enough string to live on the heap " + std::to_string(id));
            break;
        case 1: // the element pushed lies in the stack
            if (ma.empty())
                throw mc::Prune_();
            a.Push(a.Top());
            ma.push_back(ma.back());
            break;
        case 2:
            if (ma.empty())
                throw mc::Prune_();
            a.Pop();
            ma.pop_back();
            break;
        case 3: {
            if (ma.empty())
                throw mc::Prune_();
            const std::string t = a.TopAndPop();
            if (t != ma.back())
                x.Fail("stack", "reading and popping the top gives another element after%s", h.c_str());
            ma.pop_back();
            break;
        }
        case 4:
            a.Pop(ma.size());
            ma.clear();
            break;
        case 5:
            a.Reset();
            ma.clear();
            break;
        case 6:
            a.Clear();
            ma.clear();
            break;
        case 7:
            a = b;
            ma = mb;
            break;
        case 8:
            b = a;
            mb = ma;
            break;
        case 9: {
            S_ t(std::move(a));
            CheckStack(x, t, ma, h);
            a.Clear();
            S_ u(t);
            CheckStack(x, u, ma, h);
            a = std::move(u);
            break;
        }
        default: {
            a = std::move(b);
            b.Reset();
            ma = mb;
            mb.clear();
        }
        }
        CheckStack(x, a, ma, h);
        CheckStack(x, b, mb, h);
        std::vector<std::string> it(a.begin(), a.end()), rev(ma.rbegin(), ma.rend());
        if (it != rev)
            x.Fail("stack", "iteration from the top after%s", h.c_str());
    }
}
MC_SECTION("fixed stacks", "all sequences of 6 operations (thorough 8) on a stack of fixed size 3: push (rejected when full), pop, read and pop, copy", 3) {
    StaticStack_<std::string, 3> a;
    std::vector<std::string> m;
    std::string h;
    const int depth = x.thorough_ ? 8 : 6;
    for (int i = 0; i < depth; ++i) {
        const int k = x.Choose(6);
        h += " " + std::to_string(k);
        const std::string v = "a long enough string to live on the heap " + std::to_string(i);
        if (k == 0) {
            bool threw = false;
            try {
                a.Push(v);
            } catch (const std::exception&) {
                threw = true;
            }
            if (threw != (m.size() == 3))
                x.Fail("stack", "a push is %s with %zu elements", threw ? "rejected" : "accepted", m.size());
            if (!threw)
                m.push_back(v);
        } else if (k == 4) {
            a.Reset();
            m.clear();
        } else if (k == 5) {
            StaticStack_<std::string, 3> t(a);
            a.Reset();
            a = t;
        } else {
            if (m.empty())
                throw mc::Prune_();
            if (k == 1)
                a.Pop();
            else if (k == 2) {
                if (a.TopAndPop() != m.back())
                    x.Fail("stack", "reading and popping the top gives another element after%s", h.c_str());
            } else
                a.Pop(1);
            m.pop_back();
        }
        CheckStack(x, a, m, h);
    }
}
MC_SECTION("vectors", "all sequences of 4 operations (thorough 5) on a vector and on another: construct, assign, append, resize, fill, shift, scale, add, swap, erase, compare", 3) {
    Vector_<> a, b = {1.0, 2.0};
    std::vector<double> ma, mb = {1.0, 2.0};
    std::string h;
    const int depth = x.thorough_ ? 5 : 4;
    for (int i = 0; i < depth; ++i) {
        const int k = x.Choose(18);
        h += " " + std::to_string(k);
        switch (k) {
        case 0:
            a.push_back(i + 3.0);
            ma.push_back(i + 3.0);
            break;
        case 1:
            a.Resize(3);
            ma.resize(3);
            break;
        case 2:
            a.Resize(1);
            ma.resize(1);
            break;
        case 3:
            a.Fill(i + 0.5);
            std::fill(ma.begin(), ma.end(), i + 0.5);
            break;
        case 4:
            a *= 3.0;
            for (auto& v : ma)
                v *= 3;
            break;
        case 5:
            a += 0.25;
            for (auto& v : ma)
                v += 0.25;
            break;
        case 6:
            a -= 2;
            for (auto& v : ma)
                v -= 2;
            break;
        case 7:
            if (a.size() != b.size())
                throw mc::Prune_();
            a += b;
            for (size_t j = 0; j < ma.size(); ++j)
                ma[j] += mb[j];
            break;
        case 8:
            if (a.size() != b.size())
                throw mc::Prune_();
            b -= a;
            for (size_t j = 0; j < ma.size(); ++j)
                mb[j] -= ma[j];
            break;
        case 9:
            a.Append(b);
            ma.insert(ma.end(), mb.begin(), mb.end());
            break;
        case 10:
            a.Append(b.begin(), b.end());
            ma.insert(ma.end(), mb.begin(), mb.end());
            break;
        case 11:
            a.Assign(b.begin(), b.end());
            ma = mb;
            break;
        case 12:
            a.Swap(&b);
            std::swap(ma, mb);
            break;
        case 13:
            b = a;
            mb = ma;
            break;
        case 14:
            a = Vector::Join(b, a);
            mb.swap(ma);
            {
                auto t = ma;
                t.insert(t.end(), mb.begin(), mb.end());
                std::swap(ma, mb); // b unchanged
                mb = std::vector<double>(b.begin(), b.end());
                ma = t;
            }
            break;
        case 15:
            a = a * 2.0;
            for (auto& v : ma)
                v *= 2;
            break;
        case 16:
            a = Vector_<>(2, 7.5);
            ma = {7.5, 7.5};
            break;
        default:
            a.emplace_back(1.25);
            ma.push_back(1.25);
        }
        x.Step();
        if (std::vector<double>(a.begin(), a.end()) != ma || std::vector<double>(b.begin(), b.end()) != mb)
            x.Fail("vector", "contents after%s", h.c_str());
        if ((a == b) != (ma == mb) || (a != b) == (ma == mb) || (b == a) != (ma == mb))
            x.Fail("vector", "equality after%s", h.c_str());
        for (size_t j = 0; j < ma.size(); ++j)
            if (a[j] != ma[j] || a(j) != ma[j])
                x.Fail("vector", "access after%s", h.c_str());
    }
}

// ------------------------------------------------------------------ reports
MC_SECTION("reports", "reports with 1..3 axes of sizes 0..2 (first) and 1..3 (others): every coordinate written and read, growth along the first axis (row by row to ten rows), every coordinate outside rejected, headers", 3) {
    const int na = 1 + x.Choose(3);
    static const char* NAMES[3] = {"z", "a", "m"}; // not in alphabetical order
    Vector_<Report::Axis_> axes;
    std::vector<int> n;
    for (int i = 0; i < na; ++i) {
        Report::Axis_ a;
        a.name_ = NAMES[i];
        a.size_ = i == 0 ? x.Choose(3) : 1 + x.Choose(3);
        for (int l = 0; l < (i + 1) % 3; ++l)
            a.labels_.push_back(String_("label") + String_(1, char('a' + l)));
        axes.push_back(a);
        n.push_back(a.size_);
    }
    Report_ r("report", axes);
    std::map<std::vector<int>, double> m;
    double id = 0;
    auto addr = [&](const std::vector<int>& at) {
        auto d = r.MakeAddress();
        for (int i = 0; i < na; ++i)
            d[NAMES[i]] = at[i];
        return d;
    };
    auto check = [&](const char* what) {
        x.Step();
        for (int i = 0; i < na; ++i)
            if (r.Size(NAMES[i]) != n[i])
                x.Fail("size", "axis %s has %d entries instead of %d after %s", NAMES[i], r.Size(NAMES[i]), n[i], what);
        auto n1 = n;
        for (auto& s : n1)
            s += 2;
        Each(n1, [&](std::vector<int> at) {
            bool in = true;
            for (int i = 0; i < na; ++i) {
                at[i] -= 1;
                in = in && at[i] >= 0 && at[i] < n[i];
            }
            bool threw = false;
            double v = 0;
            try {
                v = static_cast<const Report_&>(r)[addr(at)];
            } catch (const std::exception&) {
                threw = true;
            }
            if (threw == in)
                x.Fail("coordinate", "a coordinate %s the report is %s after %s", in ? "of" : "outside", threw ? "rejected" : "accepted", what);
            if (in && v != (m.count(at) ? m[at] : 0.0))
                x.Fail("value", "a coordinate holds %g instead of %g after %s", v, m[at], what);
        });
    };
    check("construction");
    Each(n, [&](const std::vector<int>& at) { r[addr(at)] = m[at] = ++id; });
    check("writing");
    // writing outside: only the first axis grows
    for (int i = 0; i < na; ++i)
        for (int side = 0; side < 2; ++side) {
            std::vector<int> at(na, 0);
            if (n[0] > 1)
                at[0] = 1;
            at[i] = side ? n[i] : -1;
            bool threw = false;
            try {
                r[addr(at)] = -77;
            } catch (const std::exception&) {
                threw = true;
            }
            const bool grows = i == 0 && side == 1;
            if (threw == grows)
                x.Fail("coordinate", "writing outside axis %d is %s", i, threw ? "rejected" : "accepted");
            if (grows) {
                n[0]++;
                m[at] = -77;
            }
            check("writing outside");
        }
    {
        auto at = std::vector<int>(na, 0);
        at[0] = n[0] + 1; // leaves a gap
        for (int i = 1; i < na; ++i)
            at[i] = n[i] - 1;
        r[addr(at)] = m[at] = -99;
        n[0] += 2;
        check("growing");
    }
    while (n[0] < 10) {
        auto at = std::vector<int>(na, 0);
        at[0] = n[0]++;
        r[addr(at)] = m[at] = 100 + n[0];
        check("growing by one");
    }
    size_t total = 1;
    for (int s : n)
        total *= s;
    Vector_<> all(total);
    for (size_t i = 0; i < total; ++i)
        all[i] = 1000.0 + i;
    r.SetAll(all);
    int k = 0;
    Each(n, [&](const std::vector<int>& at) { m[at] = 1000.0 + k++; });
    check("setting all");
    const size_t slice = total / n[0];
    for (size_t bad : {total - slice, total + slice + (slice > 1 ? 1 : 0), total - 1}) {
        bool threw = false;
        try {
            r.SetAll(Vector_<>(bad, 1.0));
        } catch (const std::exception&) {
            threw = true;
        }
        if (threw == (bad % slice == 0 && bad >= total))
            x.Fail("all", "setting %zu of %zu values is %s", bad, total, threw ? "rejected" : "accepted");
        if (!threw) {
            n[0]++;
            m.clear();
            Each(n, [&](const std::vector<int>& at) { m[at] = 1.0; });
        }
        check("setting a wrong number of values");
        total = 1;
        for (int s : n)
            total *= s;
    }
    for (int i = 0; i < na; ++i) {
        const int nl = (i + 1) % 3;
        std::map<int, int> rows;
        for (int off : {0, 1, 3, 1}) {
            Vector_<Cell_> v;
            for (int l = 0; l < nl; ++l)
                v.push_back(Cell_(100.0 * off + l + (rows.count(off) ? 50 : 0)));
            r.AddHeaderRow(NAMES[i], off, v);
            rows[off]++;
            const auto& h = r.Header(NAMES[i]);
            bool ok = (int)h.labels_.size() == nl && h.values_.Cols() == nl;
            for (auto& p : rows)
                for (int l = 0; ok && l < nl; ++l)
                    ok = Cell::ToDouble(h.values_(p.first, l)) == 100.0 * p.first + l + (p.second > 1 ? 50 : 0);
            if (!ok)
                x.Fail("header", "headers of axis %s", NAMES[i]);
        }
        for (int bad = 0; bad < 3; ++bad) {
            bool threw = false;
            try {
                r.AddHeaderRow(bad == 2 ? "nosuch" : NAMES[i], bad == 1 ? -1 : 0, Vector_<Cell_>(bad == 0 ? nl + 1 : nl));
            } catch (const std::exception&) {
                threw = true;
            }
            if (!threw)
                x.Fail("header", "an invalid header row is accepted");
        }
    }
    check("adding headers");
    bool threw = false;
    axes.push_back(axes[0]);
    axes.back().size_ = 2;
    try {
        Report_ dup("dup", axes);
    } catch (const std::exception&) {
        threw = true;
    }
    if (!threw)
        x.Fail("axes", "two axes of the same name are accepted");
}

// ------------------------------------------------------------------ formatted tables
namespace {
    struct T_ { // table of cell texts
        int r = 0, c = 0;
        std::vector<std::string> v;
        T_() {}
        T_(int r_, int c_) : r(r_), c(c_), v(r_ * c_) {}
        std::string& at(int i, int j) { return v[i * c + j]; }
    };
    struct Bad_ {};
    std::vector<std::string> Parts(const std::string& f, char sep) {
        std::vector<std::string> r(1);
        int d = 0;
        for (char k : f) {
            if (k == sep && d == 0)
                r.push_back("");
            else
                r.back() += k;
            d += k == '(' ? 1 : k == ')' ? -1 : 0;
            if (d < 0)
                throw Bad_();
        }
        if (d)
            throw Bad_();
        return r;
    }
    T_ Eval(const std::string& f, const std::vector<T_>& args) {
        if (f.empty())
            throw Bad_();
        for (int k = 0; k < 4; ++k) {
            auto p = Parts(f, ":;.,"[k]);
            if (p.size() == 1)
                continue;
            std::vector<T_> e;
            for (auto& s : p)
                e.push_back(Eval(s, args));
            const bool vert = k < 2, far = k == 0 || k == 2;
            T_ r;
            for (auto& t : e) {
                r.r = vert ? r.r + t.r : std::max(r.r, t.r);
                r.c = vert ? std::max(r.c, t.c) : r.c + t.c;
            }
            r = T_(r.r, r.c);
            int off = 0;
            for (auto& t : e) {
                for (int i = 0; i < t.r; ++i)
                    for (int j = 0; j < t.c; ++j)
                        (vert ? r.at(off + i, j + (far ? r.c - t.c : 0)) : r.at(i + (far ? r.r - t.r : 0), off + j)) = t.at(i, j);
                off += vert ? t.r : t.c;
            }
            return r;
        }
        if (f.front() == '(' && f.back() == ')') {
            int d = 0;
            size_t k = 0;
            for (; k < f.size(); ++k) {
                d += f[k] == '(' ? 1 : f[k] == ')' ? -1 : 0;
                if (d == 0)
                    break;
            }
            if (k == f.size() - 1)
                return Eval(f.substr(1, f.size() - 2), args);
        }
        const char o = f.back();
        if (o == 'T' || o == 'I' || o == '*') {
            T_ t = Eval(f.substr(0, f.size() - 1), args);
            T_ r = o == 'T' ? T_(t.c, t.r) : o == 'I' ? T_(t.r, t.c) : T_(1, t.r * t.c);
            for (int i = 0; i < t.r; ++i)
                for (int j = 0; j < t.c; ++j)
                    (o == 'T' ? r.at(j, i) : o == 'I' ? r.at(t.r - 1 - i, t.c - 1 - j) : r.at(0, i * t.c + j)) = t.at(i, j);
            return r;
        }
        if (f.size() != 1 || f[0] < '0' || f[0] > '9')
            throw Bad_();
        if (f[0] == '0')
            return T_(1, 1);
        return f[0] - '1' < (int)args.size() ? args[f[0] - '1'] : T_();
    }
} // namespace
MC_SECTION("formatted tables", "all formats of up to 5 characters (thorough 6) over 0 1 2 3 T I * , . ; : ( ) with a 2x3 and a 3x1 table: the layout the format describes or rejection", 2) {
    static const char SYM[] = "0123TI*,.;:()";
    const int len = x.Choose(x.thorough_ ? 7 : 6);
    std::string f;
    for (int i = 0; i < len; ++i)
        f += SYM[x.Choose(13)];
    static const std::vector<T_> args = [] {
        std::vector<T_> r = {T_(2, 3), T_(3, 1)};
        for (int k = 0; k < 2; ++k)
            for (int i = 0; i < r[k].r; ++i)
                for (int j = 0; j < r[k].c; ++j)
                    r[k].at(i, j) = std::string(1, char('a' + k)) + std::to_string(i) + std::to_string(j);
        return r;
    }();
    static std::vector<Matrix_<Cell_>> lib;
    if (lib.empty())
        for (auto t : args) {
            lib.emplace_back(t.r, t.c);
            for (int i = 0; i < t.r; ++i)
                for (int j = 0; j < t.c; ++j)
                    lib.back()(i, j) = Cell_(String_(t.at(i, j)));
        }
    T_ want;
    bool bad = false, threw = false;
    try {
        want = Eval(f, args);
    } catch (const Bad_&) {
        bad = true;
    }
    bad = bad || want.v.empty();
    Matrix_<Cell_> got;
    x.Step();
    try {
        got = Matrix::Format({&lib[0], &lib[1]}, String_(f));
    } catch (const std::exception&) {
        threw = true;
    }
    if (threw != bad)
        x.Fail("format", "the format '%s' is %s", f.c_str(), threw ? "rejected" : "accepted");
    if (bad)
        return;
    bool ok = got.Rows() == want.r && got.Cols() == want.c;
    for (int i = 0; ok && i < want.r; ++i)
        for (int j = 0; ok && j < want.c; ++j)
            ok = want.at(i, j).empty() ? Cell::IsEmpty(got(i, j)) : Cell::IsString(got(i, j)) && Cell::ToString(got(i, j)) == String_(want.at(i, j));
    if (!ok)
        x.Fail("layout", "the format '%s' gives another table", f.c_str());
}

// ------------------------------------------------------------------ larger sizes
MC_SECTION("larger matrices", "every ordered pair of 9 shapes up to 40 x 40 (and 1 x 200, 200 x 1): written, resized from one to the other and back, copied, moved, swapped, scaled; read in every way", 2) {
    static const int SH[][2] = {{4, 4}, {1, 200}, {200, 1}, {7, 13}, {13, 7}, {40, 40}, {5, 64}, {64, 5}, {33, 2}};
    const int s = x.Choose(9), t = x.Choose(9);
    Matrix_<> a(SH[s][0], SH[s][1]), b(SH[t][0], SH[t][1]);
    M_ ma(SH[s][0], SH[s][1]), mb(SH[t][0], SH[t][1]);
    auto number = [](Matrix_<>& m, M_& mm, int base) {
        for (int i = 0; i < mm.r; ++i)
            for (int j = 0; j < mm.c; ++j)
                m(i, j) = mm.at(i, j) = base + 1000 * i + j;
    };
    number(a, ma, 1);
    number(b, mb, 500000);
    auto both = [&](const char* h) {
        Check(x, a, ma, h);
        Check(x, b, mb, h);
    };
    both(" write");
    a.Resize(mb.r, mb.c);
    ma.Resize(mb.r, mb.c);
    both(" resize");
    a.Resize(SH[s][0], SH[s][1]);
    ma.Resize(SH[s][0], SH[s][1]);
    both(" resize back");
    a.Swap(&b);
    std::swap(ma, mb);
    both(" swap");
    a *= 0.5;
    for (auto& v : ma.v)
        v *= 0.5;
    Matrix_<> c(a), d(std::move(c));
    Check(x, d, ma, " copy and move");
    b = d;
    mb = ma;
    both(" assign");
    x.State(s * 9 + t);
}

MC_SECTION("larger stacks", "stacks of initial capacity 0..40 pushed to 1..300 elements, popped to a tenth, pushed again, copied and moved, all elements read after each tenth", 2) {
    const int cap = x.Choose(41), n = 1 + x.Choose(300);
    Stack_<std::string, 4> s(cap);
    std::vector<std::string> m;
    for (int i = 0; i < n; ++i) {
        s.Push("element of some length on the heap " + std::to_string(i));
        m.push_back("element of some length on the heap " + std::to_string(i));
        if (i % 31 == 30)
            CheckStack(x, s, m, " pushing");
    }
    CheckStack(x, s, m, " pushing");
    while ((int)m.size() > n / 10) {
        if (s.TopAndPop() != m.back())
            x.Fail("stack", "popping element %zu of %d", m.size(), n);
        m.pop_back();
    }
    CheckStack(x, s, m, " popping");
    Stack_<std::string, 4> t(s), u;
    u = t;
    for (int i = 0; i < n; ++i) {
        u.Push(std::to_string(i));
        m.push_back(std::to_string(i));
    }
    CheckStack(x, u, m, " a copy pushed");
    Stack_<std::string, 4> w(std::move(u));
    CheckStack(x, w, m, " moving");
    m.resize(n / 10);
    CheckStack(x, s, m, " pushing to a copy");
    x.State(cap * 1000 + n);
}

MC_SECTION("larger arrays and cubes", "arrays of 2..5 dimensions of up to 12 in each (7 shapes) and 6 cubes of up to 20 x 15 x 30: every element at its own place, after resizing to every other shape of as many dimensions", 2) {
    static const std::vector<std::vector<int>> SH = {{12, 9}, {3, 50}, {5, 6, 7}, {7, 2, 11}, {3, 4, 5, 6}, {6, 1, 7, 2}, {2, 3, 4, 3, 2}};
    const int s = x.Choose(7);
    const auto& d = SH[s];
    const int t = x.Choose(7);
    if (SH[t].size() != d.size())
        throw mc::Prune_();
    auto each = [](const std::vector<int>& shape, auto f) {
        std::vector<int> at(shape.size(), 0);
        for (;;) {
            f(at);
            int k = (int)shape.size() - 1;
            while (k >= 0 && ++at[k] == shape[k])
                at[k--] = 0;
            if (k < 0)
                return;
        }
    };
    auto code = [](const std::vector<int>& at) {
        double c = 0;
        for (int i : at)
            c = c * 64 + i + 1;
        return c;
    };
    auto vec = [](const std::vector<int>& v) { return Vector_<int>(v.begin(), v.end()); };
    ArrayN_<double> a(vec(d));
    each(d, [&](const std::vector<int>& at) { a[vec(at)] = code(at); });
    each(d, [&](const std::vector<int>& at) {
        if (a[vec(at)] != code(at))
            x.Fail("array", "two elements of an array of %zu dimensions share a place", d.size());
    });
    x.Step();
    a.Resize(vec(SH[t]));
    each(SH[t], [&](const std::vector<int>& at) {
        bool in = true;
        for (size_t i = 0; i < at.size(); ++i)
            in = in && at[i] < d[i];
        if (a[vec(at)] != (in ? code(at) : 0.0))
            x.Fail("array", "an element of an array of %zu dimensions is not kept by resizing", d.size());
    });
    x.State(s * 7 + t);
    static const int CS[6][3] = {{20, 15, 30}, {5, 7, 9}, {9, 7, 5}, {1, 1, 64}, {64, 1, 1}, {1, 64, 1}};
    if (s < 6)
        for (int q = 0; q < 6; ++q) {
            Cube_<double> c(CS[s][0], CS[s][1], CS[s][2]);
            auto put = [&](int i, int j, int k) { return 10000.0 * i + 100 * j + k + 1; };
            for (int i = 0; i < CS[s][0]; ++i)
                for (int j = 0; j < CS[s][1]; ++j)
                    for (int k = 0; k < CS[s][2]; ++k)
                        c(i, j, k) = put(i, j, k);
            c.Resize(CS[q][0], CS[q][1], CS[q][2]);
            x.Step();
            for (int i = 0; i < CS[q][0]; ++i)
                for (int j = 0; j < CS[q][1]; ++j)
                    for (int k = 0; k < CS[q][2]; ++k) {
                        const double w = i < CS[s][0] && j < CS[s][1] && k < CS[s][2] ? put(i, j, k) : 0.0;
                        if (c(i, j, k) != w || c.SliceBegin(i, j)[k] != w)
                            x.Fail("cube", "element %d %d %d of a cube %d resized to %d", i, j, k, s, q);
                    }
        }
}
