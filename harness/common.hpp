// Shared parts of the harnesses: meshes, axes, construction of interpolation functions, and an
// independent reference implementation (documented knots, Cox-de Boor on polynomial coefficients,
// dense collocation solve).  C++11, compiled for the symbolic executor and natively for replays.
#pragma once
#include "sym.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <functional>
#include <memory>
#include <Interpolation.hpp>
namespace H {
#ifdef INTP_PERIODIC_NO_DUMMY_POINT
constexpr size_t DUMMY = 0;
#else
constexpr size_t DUMMY = 1;
#endif
using std::size_t;
inline size_t pick(const char* name, size_t lo, size_t hi) { return lo == hi ? lo : sym_concrete(sym_u64(name, lo, hi)); }
inline size_t pickOf(const char* name, std::initializer_list<size_t> v) { return *(v.begin() + pick(name, 0, v.size() - 1)); }

// coordinate generators
enum Kind { UNI = 0, IRR = 1, IRR2 = 2, SYMC = 3, SYMU = 4, SYM1 = 5 };  // SYMC: all symbolic, SYMU: evenly spaced with symbolic origin and spacing, SYM1: one (any) node symbolic
struct Axis {
    size_t n;       // number of distinct data points
    bool per;
    Kind kind;
    bool uni;       // handed over as (min, max) instead of a list
    std::vector<double> c;  // node coordinates; periodic: n + 1, the last one is the period end
    size_t dataLen() const { return per ? n + DUMMY : n; }
    double lo() const { return c.front(); }
    double hi() const { return c.back(); }
    double period() const { return c.back() - c.front(); }
};
inline Axis axis(size_t n, bool per, Kind kind, const char* nm = "c", bool listed = false) {
    static const double inc1[] = {1, .5, 1.25, .75, 1, 2, .625, .875, 1.5, .5, 1, .75, 1.125};
    static const double inc2[] = {.125, .25, 1.5, 3, .5, .375, 2.5, .75, .25, 1};
    Axis a;
    a.n = n; a.per = per; a.kind = kind; a.uni = !listed && (kind == UNI || kind == SYMU);
    size_t len = per ? n + 1 : n;
    static size_t tail = 10;
    if (n + 3 > tail) tail = n + 3;
    sym_round_tail(tail);
    if (kind == SYMC || kind == SYM1) sym_div_nonzero(1);
    if (kind == SYM1) {
        Axis r = axis(n, per, IRR, nm, listed);
        r.kind = SYM1;
        size_t k = pick("symnode", 0, r.c.size() - 1);
        double y = sym_real(nm);
        if (k > 0) sym_assume(y > r.c[k - 1]);
        if (k + 1 < r.c.size()) sym_assume(y < r.c[k + 1]);
        r.c[k] = y;
        return r;
    }
    if (kind == SYMU) {
        double x0 = sym_real((std::string(nm) + "_lo").c_str()), h = sym_real((std::string(nm) + "_h").c_str());
        sym_assume(h > 0);
        for (size_t i = 0; i < len; ++i) a.c.push_back(x0 + (double)i * h);
        return a;
    }
    double x = kind == UNI ? -1.5 : kind == IRR ? -2. : .75;
    for (size_t i = 0; i < len; ++i) {
        if (kind == SYMC) {
            double y = sym_real((std::string(nm) + std::to_string(i)).c_str());
            if (i) sym_assume(y > a.c.back());
            a.c.push_back(y);
            continue;
        }
        a.c.push_back(x);
        x += kind == UNI ? .5 : kind == IRR ? inc1[i % 13] : inc2[i % 10];
    }
    return a;
}
// how an axis is handed to the library
template <bool Uni> struct RangeT;
template <> struct RangeT<true> {
    using type = std::pair<double, double>;
    static type get(const Axis& a) { return {a.lo(), a.hi()}; }
};
template <> struct RangeT<false> {
    using type = std::pair<std::vector<double>::const_iterator, std::vector<double>::const_iterator>;
    static type get(const Axis& a) { return {a.c.begin(), a.c.end()}; }
};
template <size_t D> std::array<bool, D> perOf(const std::array<Axis, D>& ax) { std::array<bool, D> p{}; for (size_t d = 0; d < D; ++d) p[d] = ax[d].per; return p; }
template <size_t D> std::array<size_t, D> lens(const std::array<Axis, D>& ax) { std::array<size_t, D> p{}; for (size_t d = 0; d < D; ++d) p[d] = ax[d].dataLen(); return p; }
template <size_t D> std::array<size_t, D> nums(const std::array<Axis, D>& ax) { std::array<size_t, D> p{}; for (size_t d = 0; d < D; ++d) p[d] = ax[d].n; return p; }

// odometer over index tuples, row major
template <size_t D> struct Odo {
    std::array<size_t, D> n, i;
    bool done = false;
    size_t flat = 0;
    Odo(std::array<size_t, D> n_) : n(n_), i() { for (size_t d = 0; d < D; ++d) if (!n[d]) done = true; }
    void next() { ++flat; size_t d = D; while (d-- > 0) { if (++i[d] < n[d]) return; i[d] = 0; } done = true; }
};
// distinct data: an array of n0*n1*... values (row major over distinct points); the mesh handed to the library
// repeats nothing: the dummy points of periodic dimensions get unrelated values.
template <class T, size_t D, class F> intp::Mesh<T, D> meshOf(const std::array<Axis, D>& ax, F&& f, const char* dummyName = "dummy") {
    intp::Mesh<T, D> m{intp::MeshDimension<D>(lens(ax))};
    for (Odo<D> o(lens(ax)); !o.done; o.next()) {
        bool dm = false;
        for (size_t d = 0; d < D; ++d) if (o.i[d] >= ax[d].n) dm = true;
        m(o.i) = dm ? static_cast<T>(sym_real(dummyName)) : static_cast<T>(f(o.i));
    }
    return m;
}
template <size_t D> struct SymData {  // one symbol per distinct point
    std::array<size_t, D> n;
    const char* nm;
    SymData(const std::array<Axis, D>& ax, const char* nm_ = "f") : n(nums(ax)), nm(nm_) {}
    size_t flat(const std::array<size_t, D>& i) const { size_t r = 0; for (size_t d = 0; d < D; ++d) r = r * n[d] + i[d] % n[d]; return r; }
    double operator()(const std::array<size_t, D>& i) const { return sym_real_idx(nm, flat(i)); }
};
template <class T, size_t D, size_t O, class U, bool... Uni, size_t... I>
intp::InterpolationFunction<T, D, O, U> make_(intp::util::index_sequence<I...>, const std::array<Axis, D>& ax, const intp::Mesh<T, D>& m) {
    return intp::InterpolationFunction<T, D, O, U>(perOf(ax), m, RangeT<Uni>::get(ax[I])...);
}
template <class T, size_t D, size_t O, class U, bool... Uni>
intp::InterpolationFunction<T, D, O, U> make(const std::array<Axis, D>& ax, const intp::Mesh<T, D>& m) {
    static_assert(sizeof...(Uni) == D, "one flag per dimension");
    return make_<T, D, O, U, Uni...>(intp::util::make_index_sequence<D>{}, ax, m);
}
template <class T, size_t D, size_t O, class U, bool... Uni, size_t... I>
intp::InterpolationFunctionTemplate<T, D, O, U> makeT_(intp::util::index_sequence<I...>, const std::array<Axis, D>& ax) {
    return intp::InterpolationFunctionTemplate<T, D, O, U>(perOf(ax), intp::MeshDimension<D>(lens(ax)), RangeT<Uni>::get(ax[I])...);
}
// 1D with the uniformity decided at run time
template <class T, size_t O, class U> intp::InterpolationFunction<T, 1, O, U> make1(const Axis& a, const intp::Mesh<T, 1>& m) {
    std::array<Axis, 1> ax{{a}};
    return a.uni ? make<T, 1, O, U, true>(ax, m) : make<T, 1, O, U, false>(ax, m);
}
// 2D / 3D with uniformity at run time
template <class T, size_t O, class U> intp::InterpolationFunction<T, 2, O, U> make2(const std::array<Axis, 2>& a, const intp::Mesh<T, 2>& m) {
    if (a[0].uni) return a[1].uni ? make<T, 2, O, U, true, true>(a, m) : make<T, 2, O, U, true, false>(a, m);
    return a[1].uni ? make<T, 2, O, U, false, true>(a, m) : make<T, 2, O, U, false, false>(a, m);
}
template <class T, size_t O, class U> intp::InterpolationFunction<T, 3, O, U> make3(const std::array<Axis, 3>& a, const intp::Mesh<T, 3>& m) {
    if (a[0].uni && a[1].uni && a[2].uni) return make<T, 3, O, U, true, true, true>(a, m);
    if (a[0].uni && a[1].uni) return make<T, 3, O, U, true, true, false>(a, m);
    if (a[0].uni && a[2].uni) return make<T, 3, O, U, true, false, true>(a, m);
    if (a[1].uni && a[2].uni) return make<T, 3, O, U, false, true, true>(a, m);
    if (a[0].uni) return make<T, 3, O, U, true, false, false>(a, m);
    if (a[1].uni) return make<T, 3, O, U, false, true, false>(a, m);
    if (a[2].uni) return make<T, 3, O, U, false, false, true>(a, m);
    return make<T, 3, O, U, false, false, false>(a, m);
}
template <class T, size_t D, size_t O, class U> struct MakeD;
template <class T, size_t O, class U> struct MakeD<T, 1, O, U> { static intp::InterpolationFunction<T, 1, O, U> go(const std::array<Axis, 1>& a, const intp::Mesh<T, 1>& m) { return make1<T, O, U>(a[0], m); } };
template <class T, size_t O, class U> struct MakeD<T, 2, O, U> { static intp::InterpolationFunction<T, 2, O, U> go(const std::array<Axis, 2>& a, const intp::Mesh<T, 2>& m) { return make2<T, O, U>(a, m); } };
template <class T, size_t O, class U> struct MakeD<T, 3, O, U> { static intp::InterpolationFunction<T, 3, O, U> go(const std::array<Axis, 3>& a, const intp::Mesh<T, 3>& m) { return make3<T, O, U>(a, m); } };
template <class T, size_t O, class U> struct MakeD<T, 4, O, U> { static intp::InterpolationFunction<T, 4, O, U> go(const std::array<Axis, 4>& a, const intp::Mesh<T, 4>& m) { return make<T, 4, O, U, true, true, true, true>(a, m); } };

// documented breakpoints of an axis (the pieces of the interpolant), first and last included
inline std::vector<double> breakpoints(const Axis& a, size_t O) {
    std::vector<double> b;
    if (a.per) {
        for (size_t i = 0; i <= a.n; ++i) {
            if (O % 2) b.push_back(a.c[i]);
            else b.push_back(i == 0 ? (a.c[a.n - 1] + a.c[a.n]) / 2 - a.period() : (a.c[i - 1] + a.c[i]) / 2);
        }
        return b;
    }
    b.push_back(a.c.front());
    if (O == 0) for (size_t i = 0; i + 1 < a.n; ++i) b.push_back((a.c[i] + a.c[i + 1]) / 2);
    else
        for (size_t i = 1; i + O < a.n; ++i) {
            double s = 0;
            for (size_t k = 0; k < O; ++k) s += a.c[i + k];
            b.push_back(s / (double)O);
        }
    b.push_back(a.c.back());
    return b;
}
// polynomial through points (px, py): coefficients in powers of (x - px[0])
struct Poly {
    double x0 = 0;
    std::vector<double> c;
    double eval(double x, size_t der = 0) const {
        double r = 0, t = x - x0;
        for (size_t i = c.size(); i-- > der;) {
            double f = 1;
            for (size_t k = 0; k < der; ++k) f *= (double)(i - k);
            r = r * t + f * c[i];
        }
        return r;
    }
};
inline Poly fit(const std::vector<double>& px, std::vector<double> py) {
    size_t n = px.size();
    for (size_t k = 1; k < n; ++k)
        for (size_t i = n; i-- > k;) py[i] = (py[i] - py[i - 1]) / (px[i] - px[i - k]);
    Poly p;
    p.x0 = px[0];
    p.c.assign(n, 0);
    for (size_t k = n; k-- > 0;) {  // p = p * (x - px[k]) + py[k]
        double sh = px[k] - px[0];
        for (size_t i = n; i-- > 0;) p.c[i] = (i ? p.c[i - 1] : 0.) - sh * p.c[i];
        p.c[0] += py[k];
    }
    return p;
}
// O+1 points of piece j (proper fractions of it)
inline std::vector<double> piecePoints(const std::vector<double>& b, size_t j, size_t cnt) {
    std::vector<double> p;
    for (size_t i = 0; i < cnt; ++i) p.push_back(b[j] + (b[j + 1] - b[j]) * ((double)(2 * i + 1) / (cnt > 8 ? 64. : 16.)));
    return p;
}
// a coordinate of piece j of the axis; end pieces of aperiodic axes extend to infinity
inline double coordIn(const Axis& a, const std::vector<double>& b, size_t j, const char* nm, bool inRange = false) {
    double x = sym_real(nm);
    if (a.per || inRange || j > 0) sym_assume(x >= b[j]);
    if (a.per || j + 2 < b.size()) sym_assume(x < b[j + 1]);
    else if (inRange) sym_assume(x <= b[j + 1]);
    return x;
}

// any real coordinate: of a periodic axis, one in the base period plus any whole number of periods
inline double anyCoord(const Axis& a, const char* nm) {
    double x = sym_real(nm);
    if (a.per) {
        sym_assume(x >= a.lo());
        sym_assume(x < a.hi());
        x = x + sym_int((std::string(nm) + "_turns").c_str()) * a.period();
    }
    return x;
}
static const char* const XN[] = {"x0", "x1", "x2", "x3"};
static const char* const PN[] = {"piece0", "piece1", "piece2", "piece3"};

// coordinates of a multi-dimensional function: any real in one dimension (case split over which), within one
// piece in the others (that piece differs with the free dimension; end pieces extend beyond the mesh)
template <size_t D> std::array<double, D> anyCoords(const std::array<Axis, D>& ax, size_t O) {
    std::array<double, D> x;
    size_t free = pick("free", 0, D - 1);
    for (size_t d = 0; d < D; ++d) {
        if (d == free) { x[d] = anyCoord(ax[d], XN[d]); continue; }
        std::vector<double> b = breakpoints(ax[d], O);
        size_t K = b.size() - 1, w = (free + d) % 3;
        x[d] = coordIn(ax[d], b, w == 0 ? K / 2 : w == 1 ? K - 1 : 0, XN[d], D > 2);
    }
    return x;
}
// the same with the piece of every coordinate known: all pieces of the free dimension (periodic: base period)
template <size_t D> std::array<double, D> pieceCoords(const std::array<Axis, D>& ax, size_t O, std::array<size_t, D>& j, bool othersInside = (D > 2)) {
    std::array<double, D> x;
    size_t free = pick("free", 0, D - 1);
    for (size_t d = 0; d < D; ++d) {
        std::vector<double> b = breakpoints(ax[d], O);
        size_t K = b.size() - 1, w = (free + d) % 3;
        j[d] = d == free ? pick(PN[d], 0, K - 1) : w == 0 ? K / 2 : w == 1 ? K - 1 : 0;
        x[d] = coordIn(ax[d], b, j[d], XN[d], othersInside && d != free);
    }
    return x;
}
// Reference: cardinal splines of one axis
struct Ref1 {
    Axis a;
    size_t O;
    std::vector<double> t;    // knots, O extra on either side
    std::vector<double> b;    // breakpoints
    std::vector<std::vector<double>> inv;  // inverse collocation matrix: control point k = sum_i inv[k][i] f_i
    Ref1(const Axis& a_, size_t O_) : a(a_), O(O_) {
        b = breakpoints(a, O);
        size_t K = b.size() - 1;  // pieces
        for (size_t i = 0; i < K + 1 + 2 * O; ++i) {
            if (!a.per) t.push_back(i < O ? b[0] : i - O > K ? b[K] : b[i - O]);
            else {
                long q = (long)i - (long)O, m = q >= 0 ? q / (long)K : -((-q + (long)K - 1) / (long)K);
                t.push_back(b[(size_t)(q - m * (long)K)] + (double)m * a.period());
            }
        }
        size_t n = a.n;
        std::vector<std::vector<double>> A(n, std::vector<double>(2 * n, 0.));
        for (size_t i = 0; i < n; ++i) {
            size_t j = findConcrete(a.c[i]);
            std::vector<Poly> B = basis(j);
            for (size_t k = 0; k <= O; ++k) A[i][(j + k) % n] += B[k].eval(a.c[i]);
            A[i][n + i] = 1;
        }
        for (size_t k = 0; k < n; ++k) {
            size_t p = k;
            while (p < n && A[p][k] == 0) ++p;
            if (p != k) std::swap(A[p], A[k]);
            double d = A[k][k];
            for (size_t j = k; j < 2 * n; ++j) A[k][j] = A[k][j] / d;
            for (size_t i = 0; i < n; ++i)
                if (i != k && A[i][k] != 0) {
                    double f = A[i][k];
                    for (size_t j = k; j < 2 * n; ++j) if (A[k][j] != 0) A[i][j] -= f * A[k][j];
                }
        }
        for (size_t k = 0; k < n; ++k) inv.emplace_back(A[k].begin() + n, A[k].end());
    }
    size_t pieces() const { return b.size() - 1; }
    // piece of a concrete coordinate
    size_t findConcrete(double x) const {
        size_t j = 0;
        while (j + 2 < b.size() && x >= b[j + 1]) ++j;
        return j;
    }
    // the O+1 basis polynomials of piece j
    std::vector<Poly> basis(size_t j) const {
        const size_t s = j + O;  // t[s] <= x < t[s+1]
        std::vector<Poly> N(O + 1);
        for (auto& p : N) { p.x0 = b[j]; p.c.assign(O + 1, 0.); }
        N[O].c[0] = 1;
        for (size_t k = 1; k <= O; ++k) {
            std::vector<Poly> M = N;
            for (auto& p : M) std::fill(p.c.begin(), p.c.end(), 0.);
            // function index s-k+r (r = 0..k) lives in slot O-k+r
            for (size_t r = 0; r <= k; ++r) {
                size_t i = s - k + r, slot = O - k + r;
                if (r > 0) addLin(M[slot], N[slot], 1. / (t[i + k] - t[i]), b[j] - t[i], 1.);
                if (r < k) addLin(M[slot], N[slot + 1], 1. / (t[i + k + 1] - t[i + 1]), t[i + k + 1] - b[j], -1.);
            }
            N = M;
        }
        return N;
    }
    // out += p * w * (c0 + c1 * (x - x0))
    static void addLin(Poly& out, const Poly& p, double w, double c0, double c1) {
        for (size_t i = 0; i < p.c.size(); ++i) {
            out.c[i] += p.c[i] * (w * c0);
            if (i + 1 < p.c.size()) out.c[i + 1] += p.c[i] * (w * c1);
        }
    }
    // cardinal spline values (or derivatives) at x in piece j
    std::vector<double> cardinals(size_t j, double x, size_t der = 0) const {
        std::vector<Poly> B = basis(j);
        std::vector<double> L(a.n, 0.);
        for (size_t i = 0; i < a.n; ++i) {
            Poly p;
            p.x0 = b[j];
            p.c.assign(O + 1, 0.);
            for (size_t k = 0; k <= O; ++k)
                for (size_t q = 0; q <= O; ++q) p.c[q] += inv[(j + k) % a.n][i] * B[k].c[q];
            L[i] = p.eval(x, der);
        }
        return L;
    }
};
template <size_t D, class F> double combine(const std::array<std::vector<double>, D>& L, F&& f) {
    std::array<size_t, D> n;
    for (size_t d = 0; d < D; ++d) n[d] = L[d].size();
    double r = 0;
    for (Odo<D> o(n); !o.done; o.next()) {
        double w = 1;
        for (size_t d = 0; d < D; ++d) w *= L[d][o.i[d]];
        r += w * f(o.i);
    }
    return r;
}
}  // namespace H
namespace H {
// the polynomial of one cell, recovered from values of the function at (order+1)^D points of it
template <size_t D> struct CellPoly {
    std::array<std::vector<double>, D> p;
    std::vector<double> v;
    std::array<size_t, D> n;
    template <class F> CellPoly(const std::array<Axis, D>& ax, size_t O, const std::array<size_t, D>& j, F&& f) {
        for (size_t d = 0; d < D; ++d) { p[d] = piecePoints(breakpoints(ax[d], O), j[d], O + 1); n[d] = O + 1; }
        for (Odo<D> o(n); !o.done; o.next()) {
            std::array<double, D> x;
            for (size_t d = 0; d < D; ++d) x[d] = p[d][o.i[d]];
            v.push_back(f(x));
        }
    }
    double eval(const std::array<double, D>& x, const std::array<size_t, D>& k) const {
        std::array<std::vector<double>, D> w;
        for (size_t d = 0; d < D; ++d)
            for (size_t i = 0; i < n[d]; ++i) {
                std::vector<double> e(n[d], 0.);
                e[i] = 1;
                w[d].push_back(fit(p[d], e).eval(x[d], k[d]));
            }
        double r = 0;
        for (Odo<D> o(n); !o.done; o.next()) {
            double t = v[o.flat];
            for (size_t d = 0; d < D; ++d) t *= w[d][o.i[d]];
            r += t;
        }
        return r;
    }
};
template <class U, size_t D> std::array<U, D> castTo(const std::array<double, D>& x) { std::array<U, D> r; for (size_t d = 0; d < D; ++d) r[d] = static_cast<U>(x[d]); return r; }
template <class A, class B> bool throwsRange(A&& f, B&& out) {
    try { out = f(); } catch (const std::domain_error&) { return true; }
    return false;
}
}  // namespace H
