// C13: the band solvers solve the linear system.
#include "sym.h"
#include <algorithm>
#include <array>
#include <string>
#include <vector>
#include <stdexcept>
#include <BandLU.hpp>
using std::size_t;
static size_t pick(const char* n, size_t lo, size_t hi) { return lo >= hi ? lo : sym_concrete(sym_u64(n, lo, hi)); }
static bool inBand(size_t i, size_t j, size_t p, size_t q) { return i <= j + p && j <= i + q; }
static bool inCorner(size_t n, size_t i, size_t j, size_t p, size_t q) { return !inBand(i, j, p, q) && (j > i ? j + p >= n : i + q >= n); }
template <class T> struct IsExt { static const bool value = false; };
template <class T, class A> struct IsExt<intp::ExtendedBandMatrix<T, A>> { static const bool value = true; };
// entries: all symbolic; or concrete diagonally dominant with `few` symbolic ones
enum Mode { FULL, ROW, CONC };
static double conc(size_t n, size_t i, size_t j) {
    static const double t[] = {1, -.5, .25, .75, -1, .5, 1.25, -.25, .125, -.75, .375};
    double v = t[(i * 7 + j * 3 + n) % 11];
    return i == j ? 8 + v : v;
}
template <class M> struct Sys {
    size_t n, p, q;
    std::vector<double> a;
    Sys(size_t n_, size_t p_, size_t q_, Mode m) : n(n_), p(p_), q(q_), a(n_ * n_, 0.) {
        sym_div_nonzero(1);  // no zero pivot
        size_t k = m == ROW ? pick("row", 0, n - 1) : n;
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                if (has(i, j)) a[i * n + j] = m == FULL || k == i ? sym_real_idx("a", i * n + j) : conc(n, i, j);
    }
    bool has(size_t i, size_t j) const { return inBand(i, j, p, q) || (IsExt<M>::value && inCorner(n, i, j, p, q)); }
    M mat() const {
        M m(n, p, q);
        for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (has(i, j)) m(i, j) = static_cast<typename M::val_type>(a[i * n + j]);
        return m;
    }
    template <class X> void check(const X& x, const char* what) const {
        for (size_t i = 0; i < n; ++i) {
            double s = 0;
            for (size_t j = 0; j < n; ++j) if (has(i, j)) s += a[i * n + j] * static_cast<double>(x(j));
            sym_check_eq(s, sym_real_idx("b", i), what);
        }
    }
};
static double rhs(size_t i) { return sym_real_idx("b", i); }
template <class M> void solveAll(size_t n, size_t p, size_t q, Mode mode) {
    typedef typename M::val_type T;
    Sys<M> s(n, p, q, mode);
    const M m = s.mat();
    M m2 = m;
    typedef intp::BandLU<M> LU;
    LU lu(m), lu2;
    lu2.compute(m2);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (s.has(i, j)) {
        const M& c2 = m2;
        sym_check_eq(static_cast<double>(m(i, j)), s.a[i * n + j], "matrix unchanged");
        sym_check_eq(static_cast<double>(c2(i, j)), s.a[i * n + j], "matrix given to compute() unchanged");
    }
    const LU& c = lu;
    std::vector<T> b(n);
    for (size_t i = 0; i < n; ++i) b[i] = static_cast<T>(rhs(i));
    const std::vector<T> b0 = b;
    std::vector<T> x = c.solve(b0);
    sym_check(x.size() == n, "length");
    s.check([&](size_t i) { return x[i]; }, "solve(vector)");
    for (size_t i = 0; i < n; ++i) sym_check_eq(static_cast<double>(b0[i]), rhs(i), "right-hand side unchanged");
    auto same = [&](size_t i, double v, const char* what) { sym_check_eq(v, static_cast<double>(x[i]), what); };
    switch (pick("way", 0, 7)) {
        case 0: { std::vector<T> y = b; c.solve_in_place(y); for (size_t i = 0; i < n; ++i) same(i, y[i], "solve_in_place(vector)"); break; }
        case 1: { std::vector<T> y(n + 2, T(7)); for (size_t i = 0; i < n; ++i) y[i + 1] = b[i]; T* ptr = y.data() + 1; c.solve_in_place(ptr); for (size_t i = 0; i < n; ++i) same(i, y[i + 1], "solve_in_place(pointer)");
                  sym_check_eq(y[0], 7, "element before the vector"); sym_check_eq(y[n + 1], 7, "element after the vector"); break; }
        case 2: { std::vector<T> y(n + 2, T(7)); for (size_t i = 0; i < n; ++i) y[i + 1] = b[i]; c.solve_in_place(y.begin() + 1); for (size_t i = 0; i < n; ++i) same(i, y[i + 1], "solve_in_place(iterator)");
                  sym_check_eq(y[0], 7, "element before the vector"); sym_check_eq(y[n + 1], 7, "element after the vector"); break; }
        case 3: {  // along one dimension of a mesh
            intp::Mesh<T, 3> y(2, n, 3);
            for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < 3; ++k) y(i, j, k) = i == 1 && k == 1 ? b[j] : static_cast<T>(sym_real_idx("z", (i * n + j) * 3 + k));
            c.solve_in_place(y.begin(1, {{1, 0, 1}}));
            for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < 3; ++k) {
                if (i == 1 && k == 1) same(j, y(i, j, k), "solve_in_place(strided iterator)");
                else sym_check_eq(static_cast<double>(y(i, j, k)), sym_real_idx("z", (i * n + j) * 3 + k), "other elements");
            }
            break; }
        case 4: { std::vector<T> y = c.solve(std::vector<T>(b)); for (size_t i = 0; i < n; ++i) same(i, y[i], "solve(temporary)"); break; }
        case 5: { std::vector<T> y = b; lu2.solve_in_place(y); for (size_t i = 0; i < n; ++i) same(i, y[i], "solver made by compute()"); break; }
        case 6: {  // used twice, with other right-hand sides in between
            std::vector<T> z(n); for (size_t i = 0; i < n; ++i) z[i] = static_cast<T>(sym_real_idx("z", i));
            c.solve_in_place(z);
            std::vector<T> y = c.solve(b); for (size_t i = 0; i < n; ++i) same(i, y[i], "solver unchanged by use"); break; }
        default: {  // copies of a solver
            LU d(lu), e; e = lu;
            LU f(std::move(lu2)), g; g = std::move(d);
            std::vector<T> y = e.solve(b), z = f.solve(b), w = g.solve(b); for (size_t i = 0; i < n; ++i) { same(i, y[i], "assigned solver"); same(i, z[i], "moved solver"); same(i, w[i], "move-assigned solver"); } }
    }
    sym_reach("solve");
}
template <class T> void plain(size_t nlo, size_t nhi, size_t wlo, size_t w, Mode mode) {
    size_t n = pick("n", nlo, nhi), p = pick("p", wlo, w), q = pick("q", wlo, w);
    solveAll<intp::BandMatrix<T>>(n, p, q, mode);
}
template <class T> void ext(size_t nlo, size_t nhi, size_t wlo, size_t w, Mode mode) {
    size_t n = pick("n", nlo, nhi), p = pick("p", wlo, w), q = pick("q", wlo, w);
    if (n < p + q + 1) return;
    solveAll<intp::ExtendedBandMatrix<T>>(n, p, q, mode);
}
JOB(plain_full) { plain<double>(1, 3, 0, 2, FULL); }
JOB(plain_full4) { plain<double>(4, 4, 0, 1, FULL); }
JOB(plain_row) { plain<double>(2, 5, 0, 3, ROW); }
JOB(plain_conc) { plain<double>(1, 9, 0, 4, CONC); }
JOB(plain_n20) { plain<double>(20, 21, 1, 3, CONC); }
JOB(plain_float) { plain<float>(3, 4, 0, 2, CONC); }
JOB(ext_full) { ext<double>(1, 3, 0, 1, FULL); }
JOB(ext_row) { ext<double>(3, 6, 0, 2, ROW); }
JOB(ext_conc) { ext<double>(1, 10, 0, 4, CONC); }
JOB(ext_n20) { ext<double>(20, 21, 1, 3, CONC); }
JOB(ext_float) { ext<float>(3, 5, 0, 2, CONC); }
JOB(ext_full4) { ext<double>(4, 4, 0, 1, FULL); }
JOB(plain_full4w) { plain<double>(4, 4, 0, 2, FULL); }
JOB(T_plain_conc) { plain<double>(10, 16, 0, 6, CONC); }
JOB(T_ext_conc) { ext<double>(11, 17, 0, 6, CONC); }
JOB(T_ext_row) { ext<double>(7, 9, 0, 3, ROW); }
JOB(T_plain_full5) { plain<double>(5, 5, 0, 2, FULL); }
JOB(T_ext_full5) { ext<double>(5, 5, 0, 2, FULL); }
