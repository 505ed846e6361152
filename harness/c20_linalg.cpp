// C20: multiplication, decomposition and solving for every matrix structure, against exact integer arithmetic.
#include "mc.hpp"
#include <dal/platform/platform.hpp>
#include <dal/platform/strict.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/matrix/sparseutils.hpp>
#include <dal/math/matrix/bcg.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/decompositions.hpp>
#include <dal/math/matrix/decompositionsmisc.hpp>
#include <dal/math/matrix/matrixarithmetic.hpp>
#include <memory>
using namespace Dal;

namespace {
    typedef std::vector<std::vector<int>> A_;
    std::string Show(const A_& a) {
        std::string s = "[";
        for (auto& r : a) {
            s += "[";
            for (int v : r)
                s += std::to_string(v) + " ";
            s.back() = ']';
        }
        return s + "]";
    }
    long long Det(const A_& in, int n) { // leading principal minor, Bareiss with exact integers
        std::vector<std::vector<long long>> a(n, std::vector<long long>(n));
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                a[i][j] = in[i][j];
        long long prev = 1, sign = 1;
        for (int k = 0; k < n - 1; ++k) {
            if (!a[k][k]) {
                int p = k + 1;
                while (p < n && !a[p][k])
                    ++p;
                if (p == n)
                    return 0;
                std::swap(a[p], a[k]);
                sign = -sign;
            }
            for (int i = k + 1; i < n; ++i)
                for (int j = k + 1; j < n; ++j)
                    a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev;
            prev = a[k][k];
        }
        return n ? sign * a[n - 1][n - 1] : 1;
    }
    bool Symmetric(const A_& a) {
        for (size_t i = 0; i < a.size(); ++i)
            for (size_t j = 0; j < i; ++j)
                if (a[i][j] != a[j][i])
                    return false;
        return true;
    }
    // 2 positive definite, 1 positive semi-definite, 0 neither (symmetric matrices; every principal minor)
    int Definite(const A_& a) {
        const int n = a.size();
        int ret = 2;
        for (int k = 1; k <= n; ++k)
            if (Det(a, k) <= 0)
                ret = 1;
        if (ret == 2)
            return 2;
        for (int m = 1; m < 1 << n; ++m) {
            A_ s;
            for (int i = 0; i < n; ++i)
                if (m >> i & 1) {
                    s.emplace_back();
                    for (int j = 0; j < n; ++j)
                        if (m >> j & 1)
                            s.back().push_back(a[i][j]);
                }
            if (Det(s, s.size()) < 0)
                return 0;
        }
        return 1;
    }
    std::vector<double> Mul(const A_& a, const Vector_<>& v, bool right) {
        const int n = a.size();
        std::vector<double> r(n, 0.0);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                r[i] += (right ? a[j][i] : a[i][j]) * v[j];
        return r;
    }
    double Biggest(const A_& a, const Vector_<>& v) {
        double x = 1, m = 1;
        for (double t : v)
            x = std::max(x, std::fabs(t));
        for (auto& r : a)
            for (int t : r)
                m = std::max(m, std::fabs(double(t)));
        return x * m;
    }
    // a few right-hand sides; index into them is enumerated
    Vector_<> Rhs(int n, int which) {
        Vector_<> b(n);
        for (int i = 0; i < n; ++i)
            b[i] = which == 0 ? i + 1.0 : which == 1 ? (i % 2 ? -1.5 : 2.25) : which - 2 == i ? 1.0 : 0.0;
        return b;
    }
    bool Near(const std::vector<double>& a, const Vector_<>& b, double tol) {
        if (a.size() != b.size())
            return false;
        for (size_t i = 0; i < a.size(); ++i)
            if (!(std::fabs(a[i] - b[i]) <= tol))
                return false;
        return true;
    }
    struct Square {
        std::unique_ptr<Sparse::Square_> p;
    };
    // multiplication through anything that has MultiplyLeft / MultiplyRight
    template <class T> void CheckMultiply(mc::Ctx_& x, const A_& a, const T& t, const char* what, double tol = 1e-12) {
        const int n = a.size();
        for (int w = 0; w < n + 2; ++w)
            for (int side = 0; side < 2; ++side)
                for (int alias = 0; alias < 2; ++alias) {
                    x.Step();
                    const Vector_<> v = Rhs(n, w);
                    Vector_<> r(w % 2 ? 0 : w % 3 ? n : n + 2, 77.0); // any previous size of the result
                    if (alias)
                        r = v;
                    try {
                        if (side)
                            t.MultiplyRight(alias ? r : v, &r);
                        else
                            t.MultiplyLeft(alias ? r : v, &r);
                    } catch (const std::exception&) {
                        // a sparse matrix may refuse to multiply in place, a decomposition copies
                        if (alias && std::is_base_of<Sparse::Square_, T>::value)
                            continue;
                        throw;
                    }
                    if (!Near(Mul(a, v, side), r, tol * Biggest(a, v)))
                        x.Fail("multiply", "%s %s times right-hand side %d from the %s%s", what, Show(a).c_str(), w, side ? "right" : "left", alias ? " (in place)" : "");
                }
    }
    // true if solved
    bool CheckSolve(mc::Ctx_& x, const A_& a, const SquareMatrixDecomposition_& d, const char* what) {
        const int n = a.size();
        int ok = 0, bad = 0;
        for (int w = 0; w < n + 2; ++w)
            for (int side = 0; side < 2; ++side)
                for (int alias = 0; alias < 2; ++alias) {
                    x.Step();
                    const Vector_<> b = Rhs(n, w);
                    Vector_<> r(w % 2 ? 0 : w % 3 ? n : n + 2, 77.0);
                    if (alias)
                        r = b;
                    try {
                        if (side)
                            d.SolveRight(alias ? r : b, &r);
                        else
                            d.SolveLeft(alias ? r : b, &r);
                    } catch (const std::exception&) {
                        ++bad;
                        continue;
                    }
                    ++ok;
                    Vector_<> bb = b;
                    if (r.size() != n || !Near(Mul(a, r, side), bb, 1e-9 * Biggest(a, r)))
                        x.Fail("solve", "%s %s: the solution of right-hand side %d from the %s%s does not multiply back", what, Show(a).c_str(), w, side ? "right" : "left", alias ? " (in place)" : "");
                }
        if (ok && bad)
            x.Fail("solve", "%s %s solves some right-hand sides and rejects others", what, Show(a).c_str());
        return ok;
    }
    // J A^-1 J' for enumerated J, by its definition: the form of solutions
    template <class D> void CheckQForm(mc::Ctx_& x, const A_& a, const D& d, const char* what) {
        const int n = a.size();
        for (int m = 1; m <= 3; ++m) {
            Matrix_<> j(m, n);
            for (int i = 0; i < m; ++i)
                for (int k = 0; k < n; ++k)
                    j(i, k) = (i + 2 * k) % 3 - 1 + (i == k ? 2 : 0);
            SquareMatrix_<> q(m % 2 ? 0 : 5);
            d.QForm(j, &q);
            x.Step();
            bool ok = q.Rows() == m && q.Cols() == m;
            for (int i = 0; ok && i < m; ++i) {
                Vector_<> r(n), s;
                for (int k = 0; k < n; ++k)
                    r[k] = j(i, k);
                d.Solve(r, &s);
                for (int i2 = 0; ok && i2 < m; ++i2) {
                    double w = 0;
                    for (int k = 0; k < n; ++k)
                        w += j(i2, k) * s[k];
                    ok = std::fabs(w - q(i, i2)) <= 1e-8 * (1 + Biggest(a, s));
                }
            }
            if (!ok)
                x.Fail("quadratic form", "%s %s with %d rows", what, Show(a).c_str(), m);
        }
    }
    // L L' = A from the images of the unit vectors
    template <class D> void CheckCorrelated(mc::Ctx_& x, const A_& a, const D& d, const char* what) {
        const int n = a.size();
        std::vector<Vector_<>> cols(n);
        for (int k = 0; k < n; ++k) {
            Vector_<> e(n, 0.0);
            e[k] = 1.0;
            cols[k] = Vector_<>(k % 2 ? 0 : n + 1, 5.0);
            d.MakeCorrelated(e.begin(), &cols[k]);
            x.Step();
            if ((int)cols[k].size() != n)
                x.Fail("correlated", "%s %s: %zu deviates", what, Show(a).c_str(), cols[k].size());
        }
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) {
                double s = 0;
                for (int k = 0; k < n; ++k)
                    s += cols[k][i] * cols[k][j];
                if (!(std::fabs(s - a[i][j]) <= 1e-10 * Biggest(a, Vector_<>())))
                    x.Fail("correlated", "%s %s: deviates have covariance %g instead of %d at %d %d", what, Show(a).c_str(), s, a[i][j], i, j);
            }
        Vector_<> z = Rhs(n, 1), got;
        d.MakeCorrelated(z.begin(), &got);
        for (int i = 0; i < n; ++i) {
            double s = 0;
            for (int k = 0; k < n; ++k)
                s += cols[k][i] * z[k];
            if (!(std::fabs(s - got[i]) <= 1e-10 * (1 + std::fabs(s))))
                x.Fail("correlated", "%s %s: not linear in the deviates", what, Show(a).c_str());
        }
    }
    Sparse::Square_* Build(mc::Ctx_& x, const A_& a, int above, int below, bool reverse) {
        const int n = a.size();
        Sparse::Square_* s = Sparse::NewBandDiagonal(n, above, below);
        if (s->Size() != n)
            x.Fail("element", "size of %s", Show(a).c_str());
        for (int t = 0; t < n * n; ++t) {
            const int e = reverse ? n * n - 1 - t : t, i = e / n, j = e % n;
            const bool in = j - i <= above && i - j <= below;
            if (in) { // half by setting, half by adding up
                if ((i + j) % 2)
                    s->Set(i, j, a[i][j]);
                else {
                    s->Set(i, j, 5.0);
                    s->Add(i, j, a[i][j] - 2.0);
                    s->Add(i, j, -3.0);
                }
            } else if (std::abs(i - j) > 1 || above > 1 || below > 1) {
                for (int how = 0; how < 2; ++how) {
                    bool threw = false;
                    try {
                        if (how)
                            s->Add(i, j, 1.0);
                        else
                            s->Set(i, j, 1.0);
                    } catch (const std::exception&) {
                        threw = true;
                    }
                    if (!threw)
                        x.Fail("element", "writing outside the band at %d %d of size %d with %d above and %d below is accepted", i, j, n, above, below);
                }
            }
        }
        const Sparse::Square_& c = *s;
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (c(i, j) != a[i][j])
                    x.Fail("element", "element %d %d of %s is %g", i, j, Show(a).c_str(), c(i, j));
        if (c.IsSymmetric() != Symmetric(a))
            x.Fail("symmetric", "%s is%s reported symmetric", Show(a).c_str(), c.IsSymmetric() ? "" : " not");
        return s;
    }
    void CheckBand(mc::Ctx_& x, const A_& a, int above, int below, bool tri) {
        const int n = a.size();
        x.State(std::hash<std::string>()(Show(a) + char('0' + above) + char('0' + below)));
        std::unique_ptr<Sparse::Square_> s(Build(x, a, above, below, (above + below + n) % 2));
        CheckMultiply(x, a, *s, "band matrix");
        const bool symmetric = Symmetric(a), singular = Det(a, n) == 0;
        bool minors = true;
        for (int k = 1; k <= n; ++k)
            minors = minors && Det(a, k) != 0;
        const int definite = symmetric ? Definite(a) : 0;
        bool solved = false;
        try {
            std::unique_ptr<SquareMatrixDecomposition_> d(s->Decompose());
            if (d->Size() != n)
                x.Fail("decompose", "size");
            CheckMultiply(x, a, *d, "decomposed band matrix", 1e-10);
            solved = CheckSolve(x, a, *d, "band matrix");
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
        }
        if (solved && singular)
            x.Fail("singular", "singular band matrix %s is solved", Show(a).c_str());
        if (!solved && (tri ? minors : definite == 2 && above == below))
            x.Fail("solve", "band matrix %s is rejected", Show(a).c_str());
        std::unique_ptr<Sparse::SymmetricDecomposition_> sym;
        try {
            sym.reset(s->DecomposeSymmetric());
        } catch (const std::exception&) {
            return;
        }
        if (!sym != !symmetric)
            x.Fail("decompose", "symmetric decomposition of %s", Show(a).c_str());
        if (sym && solved) {
            CheckQForm(x, a, *sym, "band matrix");
            if (!tri)
                CheckCorrelated(x, a, *sym, "band matrix");
        }
    }
    A_ Zero(int n) { return A_(n, std::vector<int>(n, 0)); }
} // namespace

MC_SECTION("tridiagonal", "every tridiagonal matrix of size 1..3 with entries -1 0 1 3, of size 4 with entries -1 0 2 (quick: symmetric or superdiagonal from 0 1), all given to the band factory with every band of at most one", 4) {
    const int n = 1 + x.Choose(4);
    const int lo = x.Choose(4); // bands
    const int above = lo & 1, below = lo >> 1;
    A_ a = Zero(n);
    static const int v3[] = {-1, 0, 1, 3}, v4[] = {-1, 0, 2};
    for (int i = 0; i < n; ++i)
        a[i][i] = n == 4 ? v4[x.Choose(3)] : v3[x.Choose(4)];
    const bool sym = n == 4 && !x.thorough_ && above && below && x.Flip();
    for (int i = 0; i + 1 < n; ++i) {
        if (above)
            a[i][i + 1] = n == 4 ? (x.thorough_ ? v4[x.Choose(3)] : sym ? v4[x.Choose(3)] : x.Choose(2)) : v3[x.Choose(4)];
        if (below)
            a[i + 1][i] = sym ? a[i][i + 1] : n == 4 ? v4[x.Choose(3)] : v3[x.Choose(4)];
    }
    CheckBand(x, a, above, below, true);
}

MC_SECTION("wide bands", "every symmetric band matrix of size 1..4 and bandwidth 2 or 3 with diagonal from 1 2 5 (size up to 3: 0 1 2 5) and others from -1 0 1; size 5, bandwidth 2, off-diagonals 0 1 (thorough: -1 0 1)", 4) {
    const int n = 1 + x.Choose(5), w = 2 + x.Choose(2);
    A_ a = Zero(n);
    static const int d3[] = {1, 2, 5, 0};
    for (int i = 0; i < n; ++i)
        a[i][i] = n == 5 && !x.thorough_ ? d3[1 + x.Choose(2)] : d3[x.Choose(n <= 3 ? 4 : 3)];
    for (int i = 0; i < n; ++i)
        for (int j = std::max(0, i - (n == 5 ? 2 : w)); j < i; ++j)
            a[i][j] = a[j][i] = n == 5 && !x.thorough_ ? x.Choose(2) : x.Choose(3) - 1;
    CheckBand(x, a, w, w, false);
}

MC_SECTION("uneven bands", "every band of 0..3 above and 0..3 below with one side above 1, sizes 1..3 entries 0 1 2 (size 4: entries set by position): elements, multiplication, and either a right solution or a rejection", 3) {
    const int n = 1 + x.Choose(4), above = x.Choose(4), below = x.Choose(4);
    if (above <= 1 && below <= 1)
        throw mc::Prune_();
    A_ a = Zero(n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (j - i <= above && i - j <= below)
                a[i][j] = n == 4 ? 1 + (i * 5 + j * 3) % 7 : n == 3 ? (i == j ? 2 : x.Choose(2)) : x.Choose(3);
    CheckBand(x, a, above, below, false);
}

MC_SECTION("dense symmetric", "every symmetric matrix of size 1..3 with diagonal 0..3 and others -1 0 1 2, and of size 4 with diagonal 1 2 4 (quick: 1 2) and others -1 0 1: decomposition, solving and deviates when definite, multiplication and deviates when semi-definite", 4) {
    const int n = 1 + x.Choose(4);
    A_ a = Zero(n);
    static const int d4[] = {1, 2, 4};
    for (int i = 0; i < n; ++i) {
        a[i][i] = n == 4 ? d4[x.Choose(x.thorough_ ? 3 : 2)] : x.Choose(4);
        for (int j = 0; j < i; ++j)
            a[i][j] = a[j][i] = n == 4 ? x.Choose(3) - 1 : x.Choose(4) - 1;
    }
    const int definite = Definite(a);
    x.State(std::hash<std::string>()(Show(a)));
    if (!definite)
        throw mc::Prune_();
    bool zero = true;
    for (int i = 0; i < n; ++i)
        zero = zero && a[i][i] == 0;
    if (zero)
        throw mc::Prune_();
    SquareMatrix_<> m(n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            m(i, j) = a[i][j];
    std::unique_ptr<Sparse::SymmetricDecomposition_> d(CholeskyDecomposition(m));
    if (d->Size() != n)
        x.Fail("decompose", "size");
    CheckMultiply(x, a, *d, "symmetric matrix", 1e-9);
    CheckCorrelated(x, a, *d, "symmetric matrix");
    if (definite == 2) {
        if (!CheckSolve(x, a, *d, "symmetric matrix"))
            x.Fail("solve", "symmetric matrix %s is rejected", Show(a).c_str());
        CheckQForm(x, a, *d, "symmetric matrix");
        Vector_<Vector_<>> bs;
        for (int w = 0; w < n + 2; ++w)
            bs.push_back(Rhs(n, w));
        SquareMatrix_<> scratch = m;
        CholeskySolve(&scratch, &bs);
        for (int w = 0; w < n + 2; ++w)
            if (!Near(Mul(a, bs[w], false), Rhs(n, w), 1e-9 * Biggest(a, bs[w])))
                x.Fail("solve", "CholeskySolve of %s, right-hand side %d", Show(a).c_str(), w);
    }
}

MC_SECTION("triangular and diagonal", "every lower triangular matrix of size 1..3 with entries -1 0 1 2 (size 4: diagonal -1 0 2, others 0 1), every diagonal matrix of size 1..5 with entries -1 0 1 4", 3) {
    if (x.Flip()) {
        const int n = 1 + x.Choose(5);
        A_ a = Zero(n);
        Vector_<> v(n);
        static const int vs[] = {-1, 0, 1, 4};
        bool neg = false, zero = false;
        for (int i = 0; i < n; ++i) {
            v[i] = a[i][i] = vs[x.Choose(4)];
            neg = neg || a[i][i] < 0;
            zero = zero || a[i][i] == 0;
        }
        std::unique_ptr<SymmetricMatrixDecomposition_> d(DiagonalAsDecomposition(v));
        CheckMultiply(x, a, *d, "diagonal matrix");
        if (CheckSolve(x, a, *d, "diagonal matrix") == zero)
            x.Fail("singular", "diagonal matrix %s is %s", Show(a).c_str(), zero ? "solved" : "rejected");
        bool threw = false;
        try {
            CheckCorrelated(x, a, *d, "diagonal matrix");
        } catch (const mc::Violation_&) {
            throw;
        } catch (const std::exception&) {
            threw = true;
        }
        if (threw != neg)
            x.Fail("correlated", "deviates from diagonal matrix %s are %s", Show(a).c_str(), threw ? "rejected" : "accepted");
        return;
    }
    const int n = 1 + x.Choose(4);
    A_ a = Zero(n);
    SquareMatrix_<> m(n, 9.0); // what lies above the diagonal is not part of the matrix
    static const int d4[] = {-1, 0, 2};
    bool zero = false;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j <= i; ++j) {
            a[i][j] = n == 4 ? (i == j ? d4[x.Choose(3)] : x.Choose(2)) : x.Choose(4) - 1;
            m(i, j) = a[i][j];
            zero = zero || (i == j && a[i][j] == 0);
        }
    std::unique_ptr<SquareMatrixDecomposition_> d(LowerTriangularAsDecomposition(m));
    if (d->Size() != n)
        x.Fail("decompose", "size");
    CheckMultiply(x, a, *d, "triangular matrix");
    if (CheckSolve(x, a, *d, "triangular matrix") == zero)
        x.Fail("singular", "triangular matrix %s is %s", Show(a).c_str(), zero ? "solved" : "rejected");
}

MC_SECTION("dense products", "every pair of shapes 0..3 (and one of 17..18 to cross cache blocks): matrix-matrix, matrix-vector, vector-matrix, weighted inner product and the squared Jacobian, with and without the result being an argument; sizes that do not fit are rejected", 2) {
    static const int sz[] = {0, 1, 2, 3, 17, 34};
    const int r = sz[x.Choose(6)], c = sz[x.Choose(6)], r2 = sz[x.Choose(6)], c2 = sz[x.Choose(6)];
    const int alias = x.Choose(3);
    auto make = [](int R, int C, int seed) {
        Matrix_<> m(R, C);
        for (int i = 0; i < R; ++i)
            for (int j = 0; j < C; ++j)
                m(i, j) = (i * 7 + j * 3 + seed) % 11 - 4;
        return m;
    };
    const Matrix_<> a = make(r, c, 1), b = make(r2, c2, 5);
    Matrix_<> la = a, lb = b, res = make(2, 3, 9);
    Matrix_<>* out = alias == 0 ? &res : alias == 1 ? &la : &lb;
    bool threw = false;
    x.Step();
    try {
        Matrix::Multiply(la, lb, out);
    } catch (const std::exception&) {
        threw = true;
    }
    if (threw != (c != r2))
        x.Fail("dense", "product of %dx%d and %dx%d is %s", r, c, r2, c2, threw ? "rejected" : "accepted");
    if (!threw) {
        if (out->Rows() != r || out->Cols() != c2)
            x.Fail("dense", "shape of the product of %dx%d and %dx%d", r, c, r2, c2);
        for (int i = 0; i < r; ++i)
            for (int j = 0; j < c2; ++j) {
                double s = 0;
                for (int k = 0; k < c; ++k)
                    s += a(i, k) * b(k, j);
                if ((*out)(i, j) != s)
                    x.Fail("dense", "product of %dx%d and %dx%d, result %d, at %d %d", r, c, r2, c2, alias, i, j);
            }
    }
    Vector_<> v(r2), u(c2);
    for (int i = 0; i < r2; ++i)
        v[i] = i % 5 - 1.0;
    for (int i = 0; i < c2; ++i)
        u[i] = i % 3 + 0.5;
    for (int side = 0; side < 2; ++side) {
        Vector_<> w = v, o(3, 1.0);
        threw = false;
        try {
            if (side)
                Matrix::Multiply(w, a, alias ? &w : &o);
            else
                Matrix::Multiply(a, w, alias ? &w : &o);
        } catch (const std::exception&) {
            threw = true;
        }
        const int inner = side ? r : c, outer = side ? c : r;
        const Vector_<>& got = alias ? w : o;
        if (threw != (inner != r2))
            x.Fail("dense", "product of a vector of %d and a %dx%d matrix is %s", r2, r, c, threw ? "rejected" : "accepted");
        bool ok = threw || (int)got.size() == outer;
        for (int i = 0; ok && !threw && i < outer; ++i) {
            double s = 0;
            for (int k = 0; k < inner; ++k)
                s += (side ? a(k, i) : a(i, k)) * v[k];
            ok = got[i] == s;
        }
        if (!ok)
            x.Fail("dense", "product of a vector of %d and a %dx%d matrix from the %s", r2, r, c, side ? "left" : "right");
    }
    double s = 0;
    for (int i = 0; i < r2; ++i)
        for (int j = 0; j < c2; ++j)
            s += v[i] * b(i, j) * u[j];
    if (std::fabs(Matrix::WeightedInnerProduct(v, b, u) - s) > 1e-9)
        x.Fail("dense", "weighted inner product for %dx%d", r2, c2);
    Matrix_<> h = make(r, r, 3);
    const Matrix_<> h0 = h;
    Matrix::AddJSquaredToUpper(a, &h);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < r; ++j) {
            double t = h0(i, j);
            for (int k = 0; k < c && j >= i; ++k)
                t += a(i, k) * a(j, k);
            if (h(i, j) != t)
                x.Fail("dense", "squared Jacobian of %dx%d at %d %d", r, c, i, j);
        }
}

MC_SECTION("volatilities", "every covariance matrix of size 1..3 with variances 0 1 4 9 and covariances -1 0 2: volatilities and correlations", 2) {
    const int n = 1 + x.Choose(3);
    Matrix_<> cov(n, n);
    static const double vs[] = {0, 1, 4, 9}, cs[] = {-1, 0, 2};
    for (int i = 0; i < n; ++i)
        cov(i, i) = vs[x.Choose(4)];
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
            cov(i, j) = cov(j, i) = cov(i, i) * cov(j, j) == 0 ? 0.0 : cs[x.Choose(3)];
    Matrix_<> corr(1, 5);
    const Vector_<> v = Matrix::Vols(cov, &corr), v2 = Matrix::Vols(cov);
    x.Step();
    bool ok = (int)v.size() == n && (int)v2.size() == n && corr.Rows() == n && corr.Cols() == n;
    for (int i = 0; ok && i < n; ++i) {
        ok = v[i] == std::sqrt(cov(i, i)) && v2[i] == v[i];
        for (int j = 0; ok && j < n; ++j)
            ok = std::fabs(corr(i, j) * v[i] * v[j] - cov(i, j)) < 1e-12 && (v[i] * v[j] != 0 || corr(i, j) == 0);
    }
    if (!ok)
        x.Fail("volatilities", "of a %d-dimensional covariance", n);
}

MC_SECTION("iterative", "conjugate and biconjugate gradients on every tridiagonal matrix of size 1..3 with diagonal -1 1 2 4 and others -1 0 1 and every symmetric matrix of bandwidth 2 and size 4 with diagonal 2 5: right-hand sides of norm about 1 (and about 1/1024 from the first two starts), every start among zero, the exact solution, ones and a far point, three tolerances", 4) {
    const bool wide = x.Flip();
    const int n = wide ? 4 : 1 + x.Choose(3);
    A_ a = Zero(n);
    static const int dv[] = {-1, 1, 2, 4};
    for (int i = 0; i < n; ++i)
        a[i][i] = wide ? (x.Flip() ? 5 : 2) : dv[x.Choose(4)];
    for (int i = 0; i < n; ++i)
        for (int j = std::max(0, i - (wide ? 2 : 1)); j < i; ++j) {
            a[i][j] = x.Choose(3) - 1;
            a[j][i] = wide ? a[i][j] : x.Choose(3) - 1;
        }
    const int start = x.Choose(4), tol = x.Choose(3), method = x.Choose(2);
    const double scale = start < 2 && x.Flip() ? 1.0 / 1024 : 1.0;
    const bool sym = Symmetric(a);
    const int definite = sym ? Definite(a) : 0;
    if (Det(a, n) == 0)
        throw mc::Prune_();
    if (method == 0 && !sym)
        throw mc::Prune_();
    std::unique_ptr<Sparse::Square_> s(Build(x, a, wide ? 2 : 1, wide ? 2 : 1, false));
    Vector_<> sol = Rhs(n, 1), zero(n, 0.0);
    for (auto& v : sol)
        v *= scale;
    const std::vector<double> b0 = Mul(a, sol, false);
    Vector_<> b(n);
    std::copy(b0.begin(), b0.end(), b.begin());
    Vector_<> g = start == 0 ? zero : start == 1 ? sol : Vector_<>(n, start == 2 ? 1.0 : -1e3);
    const double rel = tol == 0 ? 1e-9 : tol == 1 ? 1e-3 : 0.0, ab = tol == 2 ? 1e-8 : 0.0;
    bool threw = false;
    x.Step();
    try {
        (method ? Sparse::BCGSolve : Sparse::CGSolve)(*s, b, rel, ab, 60, &g);
    } catch (const std::exception&) {
        threw = true;
    }
    if (threw && (definite == 2 || start == 1))
        x.Fail("iterative", "%s on %s from start %d with tolerances %g %g fails", method ? "BCG" : "CG", Show(a).c_str(), start, rel, ab);
    if (!threw) {
        double nb = 0, nr = 0;
        const std::vector<double> back = Mul(a, g, false);
        for (int i = 0; i < n; ++i) {
            nb += b[i] * b[i];
            nr += (back[i] - b[i]) * (back[i] - b[i]);
        }
        if (!(std::sqrt(nr) <= 1.01 * (rel * std::sqrt(nb) + ab) + 1e-10))
            x.Fail("iterative", "%s on %s from start %d with tolerances %g %g stops with residual %g", method ? "BCG" : "CG", Show(a).c_str(), start, rel, ab, std::sqrt(nr));
    }
}

MC_SECTION("band accumulator", "every sequence of up to 4 (thorough 5) additions of vectors of 1..width entries from 0 1 -2 at every offset, sizes 1..3, widths 1..3: the accumulated factor solves the sum of squares, and only when that is regular", 5) {
    const int n = 1 + x.Choose(3), below = x.Choose(std::min(n, 3)), m = x.Choose(x.thorough_ && n < 3 ? 6 : 5);
    LowerBandAccumulator_ acc(n, below);
    A_ a = Zero(n);
    static const int vs[] = {0, 1, -2};
    std::string h;
    for (int k = 0; k < m; ++k) {
        const int len = 1 + x.Choose(below + 1), off = x.Choose(n - len + 1);
        Vector_<> v(len);
        h += " +" + std::to_string(off) + ":";
        for (int i = 0; i < len; ++i) {
            v[i] = (k >= 2 && i && !x.thorough_) ? 1 : vs[x.Choose(3)];
            h += std::to_string((int)v[i]) + ",";
        }
        if (off >= 0)
            acc.Add(v, off);
        for (int i = 0; i < len; ++i)
            for (int j = 0; j < len; ++j)
                a[off + i][off + j] += int(v[i] * v[j]);
    }
    bool threw = false;
    try {
        acc.Add(Vector_<>(below + 2, 1.0), 0);
    } catch (const std::exception&) {
        threw = true;
    }
    if (!threw)
        x.Fail("accumulator", "a vector wider than the band is accepted");
    threw = false;
    try {
        acc.Add(Vector_<>(1, 1.0), n);
    } catch (const std::exception&) {
        threw = true;
    }
    if (!threw)
        x.Fail("accumulator", "a vector beyond the matrix is accepted");
    const bool singular = Det(a, n) == 0;
    for (int w = 0; w < 2; ++w) {
        const Vector_<> b = Rhs(n, w);
        Vector_<> y, s;
        threw = false;
        x.Step();
        try {
            acc.SolveRight(b, &y); // L' y = b
            acc.SolveLeft(y, &s);  // L s = y, so that L'L s = b
        } catch (const std::exception&) {
            threw = true;
        }
        if (threw != singular)
            x.Fail("accumulator", "%d: the factor of%s is %s", n, h.c_str(), threw ? "rejected" : "solved although singular");
        if (!threw && !Near(Mul(a, s, false), b, 1e-8 * Biggest(a, s)))
            x.Fail("accumulator", "%d: the factor of%s does not solve the sum of squares", n, h.c_str());
    }
}

MC_SECTION("couplings", "every pair of positions in sizes 2..5, bands 1 and 3: adding a coupling or a binomial adds exactly its quadratic form", 2) {
    const int n = 2 + x.Choose(4), i = x.Choose(n), j = x.Choose(n), band = x.Flip() ? 3 : 1;
    if (i == j || std::abs(i - j) > band)
        throw mc::Prune_();
    std::unique_ptr<Sparse::Square_> s(Sparse::NewBandDiagonal(n, band, band));
    for (int k = 0; k < n; ++k)
        s->Set(k, k, 1.0 + k);
    const bool bin = x.Flip();
    if (bin)
        Sparse::AddBinomial(s.get(), 2.0, i, j, 3.0, -0.5);
    else
        Sparse::AddCoupling(s.get(), i, j, 2.0);
    const double wi = bin ? 3.0 : 1.0, wj = bin ? -0.5 : -1.0;
    for (int p = 0; p < n; ++p)
        for (int q = 0; q < n; ++q) {
            const double fp = p == i ? wi : p == j ? wj : 0.0, fq = q == i ? wi : q == j ? wj : 0.0;
            if ((*s)(p, q) != (p == q ? 1.0 + p : 0.0) + 2.0 * fp * fq)
                x.Fail("coupling", "%d %d in size %d at %d %d", i, j, n, p, q);
        }
    x.Step();
}

MC_SECTION("larger sizes", "sizes 5..24 with every bandwidth 1..6, diagonally dominant entries by position (4 patterns), symmetric and not: band, dense and triangular solves", 3) {
    const int n = 5 + x.Choose(20), w = 1 + x.Choose(6), pattern = x.Choose(4);
    const bool sym = x.Flip();
    A_ a = Zero(n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (i != j && std::abs(i - j) <= w)
                a[i][j] = (i * j * (pattern + 1) + (sym ? i + j : 2 * i + 3 * j)) % (pattern == 3 ? 2 : 3) - 1;
    for (int i = 0; i < n; ++i) {
        a[i][i] = 1 + pattern % 2;
        for (int j = 0; j < n; ++j)
            if (i != j)
                a[i][i] += std::abs(a[i][j]) + (a[j][i] > 0);
    }
    const bool symmetric = Symmetric(a);
    std::unique_ptr<Sparse::Square_> s(Build(x, a, w, w, sym));
    CheckMultiply(x, a, *s, "band matrix");
    if (w == 1 || symmetric) {
        std::unique_ptr<SquareMatrixDecomposition_> d(s->Decompose());
        CheckMultiply(x, a, *d, "decomposed band matrix", 1e-10);
        if (!CheckSolve(x, a, *d, "band matrix"))
            x.Fail("solve", "dominant band matrix %s is rejected", Show(a).c_str());
    }
    if (symmetric) {
        std::unique_ptr<Sparse::SymmetricDecomposition_> d(s->DecomposeSymmetric());
        CheckQForm(x, a, *d, "band matrix");
        if (w > 1)
            CheckCorrelated(x, a, *d, "band matrix");
        SquareMatrix_<> m(n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                m(i, j) = a[i][j];
        std::unique_ptr<Sparse::SymmetricDecomposition_> c(CholeskyDecomposition(m));
        CheckMultiply(x, a, *c, "symmetric matrix", 1e-10);
        CheckSolve(x, a, *c, "symmetric matrix");
        CheckCorrelated(x, a, *c, "symmetric matrix");
        CheckQForm(x, a, *c, "symmetric matrix");
    }
    for (int method = symmetric ? 0 : 1; method < 2; ++method) {
        Vector_<> sol = Rhs(n, 1), g(n, 0.0), b(n);
        const std::vector<double> b0 = Mul(a, sol, false);
        std::copy(b0.begin(), b0.end(), b.begin());
        (method ? Sparse::BCGSolve : Sparse::CGSolve)(*s, b, 1e-9, 0.0, 20 * n, &g);
        if (!Near(Mul(a, g, false), b, 1e-6 * Biggest(a, b)))
            x.Fail("iterative", "%s on %s", method ? "BCG" : "CG", Show(a).c_str());
    }
    A_ t = a;
    SquareMatrix_<> m(n, -3.0);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (j > i)
                t[i][j] = 0;
            else
                m(i, j) = t[i][j];
    std::unique_ptr<SquareMatrixDecomposition_> d(LowerTriangularAsDecomposition(m));
    CheckMultiply(x, t, *d, "triangular matrix");
    CheckSolve(x, t, *d, "triangular matrix");
}

MC_SECTION("scaled and nearly singular", "sizes 2..7 with every bandwidth 1..3: dominant matrices scaled by 10^-8..10^8, matrices whose last pivot is 10^-1..10^-9 of its diagonal, and symmetric ones with one entry off by 10^-1..10^-11: band, triangular and dense solves leave no residual", 3) {
    const int n = 2 + x.Choose(6), w = 1 + x.Choose(3), kind = x.Choose(3);
    const int k = kind == 0 ? x.Choose(17) - 8 : kind == 1 ? 1 + x.Choose(9) : 1 + x.Choose(11);
    std::vector<std::vector<double>> a(n, std::vector<double>(n, 0.0));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (std::abs(i - j) <= w) {
                if (kind == 1)
                    for (int l = std::max(0, std::max(i, j) - w); l <= std::min(i, j); ++l)
                        a[i][j] += (i == l && l == n - 1 ? std::pow(10.0, -k / 2.0) : 1.0) * (j == l && l == n - 1 ? std::pow(10.0, -k / 2.0) : 1.0);
                else
                    a[i][j] = i == j ? 8.0 + i : ((i + j) % 3 - 1.0);
                if (kind == 0)
                    a[i][j] *= std::pow(10.0, k);
            }
    if (kind == 2)
        a[n - 1][n - 2] += std::pow(10.0, -k);
    double big = 0;
    for (auto& r : a)
        for (double e : r)
            big = std::max(big, std::fabs(e));
    auto check = [&](const SquareMatrixDecomposition_& d, const char* what, const std::vector<std::vector<double>>& m, bool mayReject) {
        for (int r = 0; r < n + 2; ++r)
            for (int side = 0; side < 2; ++side) {
                x.Step();
                const Vector_<> b = Rhs(n, r);
                Vector_<> s;
                try {
                    if (side)
                        d.SolveRight(b, &s);
                    else
                        d.SolveLeft(b, &s);
                } catch (const std::exception& e) {
                    if (mayReject)
                        continue;
                    x.Fail("solve", "regular %s of size %d, bandwidth %d, kind %d, exponent %d is rejected: %s", what, n, w, kind, k, e.what());
                }
                double sx = 0;
                for (double v : s)
                    sx = std::max(sx, std::fabs(v));
                for (int i = 0; i < n; ++i) {
                    double t = -b[i];
                    for (int j = 0; j < n; ++j)
                        t += (side ? m[j][i] : m[i][j]) * s[j];
                    if (!(std::fabs(t) <= 1e-13 * n * (big * sx + std::fabs(b[i]))))
                        x.Fail("solve", "%s of size %d, bandwidth %d, kind %d, exponent %d: residual %g with a solution of size %g", what, n, w, kind, k, t, sx);
                }
            }
    };
    std::unique_ptr<Sparse::Square_> s(Sparse::NewBandDiagonal(n, w, w));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j)
            if (std::abs(i - j) <= w)
                s->Set(i, j, a[i][j]);
    std::unique_ptr<SquareMatrixDecomposition_> d;
    try {
        d.reset(s->Decompose());
    } catch (const std::exception& e) {
        if (kind != 2 || w == 1)
            x.Fail("solve", "regular band matrix of size %d, bandwidth %d, kind %d, exponent %d is not decomposed: %s", n, w, kind, k, e.what());
    }
    if (d)
        check(*d, "band matrix", a, false);
    SquareMatrix_<> m(n), lower(n);
    auto t = a;
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            m(i, j) = a[i][j];
            if (j > i)
                t[i][j] = 0;
            lower(i, j) = t[i][j];
        }
    if (kind != 2) {
        std::unique_ptr<Sparse::SymmetricDecomposition_> c(CholeskyDecomposition(m));
        check(*c, "symmetric matrix", a, false);
    }
    if (kind != 1) {
        std::unique_ptr<SquareMatrixDecomposition_> l(LowerTriangularAsDecomposition(lower));
        check(*l, "triangular matrix", t, false);
    }
    x.State(((n * 4 + w) * 3 + kind) * 32 + k + 8);
}
