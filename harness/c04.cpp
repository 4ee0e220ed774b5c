// C04: derivatives are the derivatives of the function that is evaluated.
#include "common.hpp"
using namespace H;
template <class T, class U, size_t D, size_t O> struct Setup {
    std::array<Axis, D> ax;
    intp::InterpolationFunction<T, D, O, U> fn;
    Setup(const std::array<Axis, D>& a) : ax(a), fn(MakeD<T, D, O, U>::go(a, meshOf<T, D>(a, SymData<D>(a)))) {}
    double val(const std::array<double, D>& x) const { return static_cast<double>(fn(castTo<U>(x))); }
};
template <class F, class U> double byPairs(const F& f, const std::array<U, 1>& x, const std::array<size_t, 1>& k) { return f.derivative(std::make_pair(x[0], k[0])); }
template <class F, class U> double byPairs(const F& f, const std::array<U, 2>& x, const std::array<size_t, 2>& k) { return f.derivative(std::make_pair(x[0], k[0]), std::make_pair(x[1], k[1])); }
template <class F, class U> double byPairs(const F& f, const std::array<U, 3>& x, const std::array<size_t, 3>& k) { return f.derivative(std::make_pair(x[0], k[0]), std::make_pair(x[1], k[1]), std::make_pair(x[2], k[2])); }
template <class F, class U> double byArgs(const F& f, const std::array<U, 1>& x, const std::array<size_t, 1>& k) { return f.derivative(x, k[0]); }
template <class F, class U> double byArgs(const F& f, const std::array<U, 2>& x, const std::array<size_t, 2>& k) { return f.derivative(x, k[0], static_cast<int>(k[1])); }
template <class F, class U> double byArgs(const F& f, const std::array<U, 3>& x, const std::array<size_t, 3>& k) { return f.derivative(x, static_cast<int>(k[0]), k[1], k[2]); }
// every derivative order per dimension 0..O+2 (a case split), any coordinate of every piece, outside included
template <class T, class U, size_t D, size_t O> void der(const std::array<Axis, D>& ax, size_t kmax = O + 2) {
    Setup<T, U, D, O> s(ax);
    std::array<size_t, D> j, k;
    std::array<double, D> x = pieceCoords<D>(ax, O, j, true);
    CellPoly<D> P(ax, O, j, [&](const std::array<double, D>& q) { return s.val(q); });
    static const char* const KN[] = {"k0", "k1", "k2"};
    for (size_t d = 0; d < D; ++d) k[d] = pick(KN[d], 0, kmax);
    std::array<U, D> xu = castTo<U>(x);
    double want = P.eval(x, k);
    sym_check_eq(static_cast<double>(s.fn.derivative(xu, k)), want, "derivative");
    sym_check_eq(byPairs(s.fn, xu, k), want, "derivative(pairs)");
    sym_check_eq(byArgs(s.fn, xu, k), want, "derivative(coord, orders...)");
    std::array<std::pair<U, size_t>, D> xk;
    for (size_t d = 0; d < D; ++d) xk[d] = std::make_pair(xu[d], k[d]);
    sym_check_eq(static_cast<double>(s.fn.spline().derivative_at(xk)), want, "spline derivative");
    for (size_t d = 0; d < D; ++d) if (k[d] > O) sym_check_eq(static_cast<double>(s.fn.derivative(xu, k)), 0., "beyond the order");
    sym_reach("der");
}
// range-checked overloads inside the range
template <size_t D, size_t O> void derAt(const std::array<Axis, D>& ax) {
    Setup<double, double, D, O> s(ax);
    std::array<double, D> x;
    std::array<size_t, D> k;
    static const char* const KN[] = {"k0", "k1", "k2"};
    for (size_t d = 0; d < D; ++d) {
        x[d] = sym_real(XN[d]);
        sym_assume(x[d] >= ax[d].lo() && x[d] <= ax[d].hi());
        k[d] = pick(KN[d], 0, O);
    }
    double want = s.fn.derivative(x, k);
    sym_check_eq(s.fn.derivative_at(x, k), want, "derivative_at");
    sym_check_eq(D == 1 ? s.fn.derivative_at(std::make_pair(x[0], k[0])) : want, want, "derivative_at(pairs)");
    sym_check_eq(s.fn.derivative(x, std::array<size_t, D>{}), s.fn(x), "zeroth derivative is the value");
    sym_reach("derAt");
}
template <size_t O, class T = double, class U = double> void d1(size_t lo, size_t hi, Kind k, bool listed = false) {
    bool per = pick("periodic", 0, 1);
    der<T, U, 1, O>({{axis(pick("n", lo, hi), per, k, "c", listed)}});
}
template <size_t O> void d2(Kind k0, Kind k1, size_t add0, size_t add1, size_t kmax) {
    bool p0 = pick("periodic0", 0, 1), p1 = pick("periodic1", 0, 1);
    der<double, double, 2, O>({{axis(O + 1 + add0, p0, k0), axis(O + 1 + add1, p1, k1)}}, kmax);
}
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 1, o + 5, UNI); } JOB(d1_o##o##_irr) { d1<o>(o + 1, o + 5, IRR); } \
    JOB(T_d1_o##o##_irr2) { d1<o>(o + 1, 2 * o + 5, IRR2); } JOB(T_d1_o##o##_list) { d1<o>(o + 1, o + 4, UNI, true); } \
    JOB(T_d1_o##o##_big) { d1<o>(16, 18, UNI); }
#if !defined(SLICE) || SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(d1_o3_n13) { d1<3>(13, 13, UNI); }
JOB(d1_o3_n34) { d1<3>(34, 34, UNI); }
JOB(d1_o2_n34) { d1<2>(34, 34, IRR); }
JOB(d1_o1_n35) { d1<1>(35, 35, UNI); }
JOB(d1_o2_symu) { d1<2>(3, 5, SYMU); }
JOB(d1_o3_symu) { d1<3>(4, 6, SYMU); }
JOB(d1_o1_sym) { d1<1>(2, 4, SYMC); }
JOB(d1_o2_sym1) { d1<2>(3, 4, SYM1); }
JOB(T_d1_o3_sym1) { d1<3>(4, 6, SYM1); }
JOB(d1_o3_at) { derAt<1, 3>({{axis(6, pick("periodic", 0, 1), UNI)}}); }
JOB(d1_o2_at) { derAt<1, 2>({{axis(5, pick("periodic", 0, 1), IRR)}}); }
#endif
#if !defined(SLICE) || SLICE == 1
D1(4) D1(5)
JOB(d1_o6_uni) { d1<6>(7, 8, UNI); }
JOB(d1_o5_n17) { d1<5>(17, 17, UNI); }
JOB(d1_o7_two) { d1<7>(8, 9, UNI); }
JOB(T_d1_o6_irr) { d1<6>(7, 11, IRR); }
JOB(T_d1_o7_uni) { d1<7>(8, 12, UNI); }
JOB(d1_o3_float) { d1<3, float, float>(4, 7, UNI); }
JOB(d1_o2_floatval) { d1<2, float, double>(3, 6, IRR); }
#endif
#if !defined(SLICE) || SLICE == 2
JOB(d2_o3_ui) { der<double, double, 2, 3>({{axis(5, false, UNI), axis(4, pick("periodic1", 0, 1), IRR)}}, 3); }
JOB(d2_o2_iu) { d2<2>(IRR, UNI, 1, 0, 3); }
JOB(d2_o1_uu) { d2<1>(UNI, UNI, 1, 0, 2); }
JOB(d2_o1_at) { derAt<2, 1>({{axis(3, false, UNI), axis(3, true, IRR)}}); }
JOB(T_d2_o3_uu) { d2<3>(UNI, UNI, 1, 0, 3); }
JOB(T_d2_o2_uu) { d2<2>(UNI, UNI, 3, 2, 3); }
JOB(T_d2_o4_ui) { d2<4>(UNI, IRR, 0, 1, 4); }
JOB(d3_o1_uiu) { der<double, double, 3, 1>({{axis(3, false, UNI), axis(2, true, IRR), axis(3, pick("periodic2", 0, 1), UNI)}}, 1); }
JOB(d3_o2_uui) { der<double, double, 3, 2>({{axis(3, false, UNI), axis(3, true, UNI), axis(4, false, IRR)}}, 1); }
JOB(T_d3_o2_full) { der<double, double, 3, 2>({{axis(3, false, UNI), axis(3, true, UNI), axis(4, false, IRR)}}, 2); }
JOB(T_d3_o3_uui) { der<double, double, 3, 3>({{axis(4, true, UNI), axis(4, false, UNI), axis(4, false, IRR)}}, 1); }
#endif
