// C14: band matrices store and multiply like the dense matrix they denote.
#include "sym.h"
#include <algorithm>
#include <array>
#include <string>
#include <vector>
#include <stdexcept>
#include <aligned-allocator.hpp>
#include <BandMatrix.hpp>
using std::size_t;
static size_t pick(const char* n, size_t lo, size_t hi) { return lo >= hi ? lo : sym_concrete(sym_u64(n, lo, hi)); }
static bool inBand(size_t i, size_t j, size_t p, size_t q) { return i <= j + p && j <= i + q; }
// cyclic corner: right upper corner of width p, lower left corner of width q
static bool inCorner(size_t n, size_t i, size_t j, size_t p, size_t q) { return !inBand(i, j, p, q) && (j > i ? j + p >= n : i + q >= n); }
template <class M, bool Ext> struct Dense {
    size_t n, p, q;
    std::vector<double> v;
    Dense(size_t n_, size_t p_, size_t q_) : n(n_), p(p_), q(q_), v(n_ * n_, 0.) {}
    bool has(size_t i, size_t j) const { return inBand(i, j, p, q) || (Ext && inCorner(n, i, j, p, q)); }
    double& operator()(size_t i, size_t j) { return v[i * n + j]; }
    template <class F> void each(F&& f) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (has(i, j)) f(i, j); }
};
template <class M, bool Ext> void store(size_t n, size_t p, size_t q) {
    M m(n, p, q);
    const M& c = m;
    typedef typename M::val_type V;
    sym_check(c.dim() == n && c.lower_band_width() == p && c.upper_band_width() == q, "properties");
    Dense<M, Ext> d(n, p, q);
    d.each([&](size_t i, size_t j) { sym_check_eq(static_cast<double>(c(i, j)), 0., "elements start as zero"); });
    d.each([&](size_t i, size_t j) { d(i, j) = sym_real_idx("a", i * n + j); m(i, j) = static_cast<V>(d(i, j)); });
    d.each([&](size_t i, size_t j) {
        sym_check_eq(static_cast<double>(c(i, j)), d(i, j), "element read back");
        sym_check_eq(static_cast<double>(m(i, j)), d(i, j), "element reference read back");
    });
    // product with the dense matrix
    std::vector<V> x(n);
    for (size_t i = 0; i < n; ++i) x[i] = static_cast<V>(sym_real_idx("x", i));
    std::vector<V> y = c * x;
    sym_check(y.size() == n, "product length");
    for (size_t i = 0; i < n; ++i) {
        double s = 0;
        for (size_t j = 0; j < n; ++j) if (d.has(i, j)) s += d(i, j) * sym_real_idx("x", j);
        sym_check_eq(static_cast<double>(y[i]), s, "product");
        sym_check_eq(static_cast<double>(x[i]), sym_real_idx("x", i), "operand unchanged");
    }
    // copies are independent
    M e(m);
    // overwrite one element
    size_t r = pick("i", 0, n - 1), s = pick("j", 0, n - 1);
    if (!d.has(r, s)) return;
    double w = sym_real("w");
    m(r, s) = static_cast<V>(w);
    d.each([&](size_t i, size_t j) {
        sym_check_eq(static_cast<double>(c(i, j)), i == r && j == s ? w : d(i, j), "write alters one element");
        sym_check_eq(static_cast<double>(e(i, j)), d(i, j), "write does not alter a copy");
    });
    sym_reach("store");
}
template <class T, class A> void parts(size_t n, size_t p, size_t q) {
    typedef intp::ExtendedBandMatrix<T, A> M;
    M m(n, p, q);
    const M& c = m;
    Dense<M, true> d(n, p, q);
    d.each([&](size_t i, size_t j) {
        d(i, j) = sym_real_idx("a", i * n + j);
        if (inBand(i, j, p, q)) m.main_bands_val(i, j) = static_cast<T>(d(i, j));
        else m.side_bands_val(i, j) = static_cast<T>(d(i, j));
    });
    d.each([&](size_t i, size_t j) {
        sym_check_eq(static_cast<double>(c(i, j)), d(i, j), "parts agree with the whole");
        if (inBand(i, j, p, q)) { sym_check_eq(static_cast<double>(c.main_bands_val(i, j)), d(i, j), "main part"); sym_check(&m(i, j) == &m.main_bands_val(i, j), "same element"); }
        else { sym_check_eq(static_cast<double>(c.side_bands_val(i, j)), d(i, j), "corner part"); sym_check(&m(i, j) == &m.side_bands_val(i, j), "same element"); }
    });
    sym_reach("parts");
}
typedef std::allocator<double> SA;
typedef intp::AlignedAllocator<double, intp::Alignment::AVX> AA;
template <class A> void plain(size_t nmin, size_t nmax, size_t w) {
    size_t n = pick("n", nmin, nmax), p = pick("p", 0, w), q = pick("q", 0, w);
    store<intp::BandMatrix<double, A>, false>(n, p, q);
}
template <class A> void ext(size_t nmin, size_t nmax, size_t w) {
    size_t n = pick("n", nmin, nmax), p = pick("p", 0, w), q = pick("q", 0, w);
    if (n < p + q + 1) return;
    if (pick("by_parts", 0, 1)) parts<double, A>(n, p, q);
    else store<intp::ExtendedBandMatrix<double, A>, true>(n, p, q);
}
JOB(plain) { plain<SA>(1, 7, 3); }
JOB(plain_wide) { plain<SA>(5, 6, 5); }
JOB(plain_aligned) { plain<AA>(2, 5, 2); }
JOB(plain_float) { store<intp::BandMatrix<float>, false>(pick("n", 3, 5), pick("p", 0, 2), pick("q", 0, 2)); }
JOB(ext) { ext<SA>(1, 8, 3); }
JOB(ext_wide) { ext<SA>(9, 10, 4); }
JOB(ext_aligned) { ext<AA>(3, 5, 2); }
JOB(ext_float) { size_t p = pick("p", 0, 2), q = pick("q", 0, 2); store<intp::ExtendedBandMatrix<float>, true>(pick("n", 5, 6), p, q); }
JOB(T_plain_big) { plain<SA>(8, 14, 6); }
JOB(T_ext_big) { ext<SA>(11, 15, 6); }
// assignment and default construction
JOB(assign) {
    size_t n = pick("n", 3, 5), p = pick("p", 0, 1), q = pick("q", 0, 1);
    intp::BandMatrix<double> a, b(n, p, q);
    intp::ExtendedBandMatrix<double> c, e(n, p, q);
    Dense<int, false> d(n, p, q);
    Dense<int, true> f(n, p, q);
    d.each([&](size_t i, size_t j) { b(i, j) = sym_real_idx("a", i * n + j); });
    f.each([&](size_t i, size_t j) { e(i, j) = sym_real_idx("b", i * n + j); });
    a = b; c = e;
    sym_check(a.dim() == n && c.dim() == n && a.lower_band_width() == p && c.upper_band_width() == q, "assigned properties");
    d.each([&](size_t i, size_t j) { b(i, j) = 0; sym_check_eq(a(i, j), sym_real_idx("a", i * n + j), "assigned matrix"); });
    f.each([&](size_t i, size_t j) { e(i, j) = 0; sym_check_eq(c(i, j), sym_real_idx("b", i * n + j), "assigned cyclic matrix"); });
    sym_reach("assign");
}
