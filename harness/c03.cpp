// C03: the function is the unique spline through the data on the documented breakpoints.
#include "common.hpp"
using namespace H;
// equality with the reference implementation for every coordinate (aperiodic: also outside the range)
template <class T, class U, size_t D, size_t O> void same(const std::array<Axis, D>& ax) {
    SymData<D> f(ax);
    auto fn = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, f));
    std::array<size_t, D> j;
    std::array<double, D> xd = pieceCoords<D>(ax, O, j);
    std::array<std::vector<double>, D> L;
    std::array<U, D> x;
    for (size_t d = 0; d < D; ++d) {
        x[d] = static_cast<U>(xd[d]);
        L[d] = Ref1(ax[d], O).cardinals(j[d], xd[d]);
    }
    sym_check_eq(static_cast<double>(fn(x)), combine<D>(L, f), "reference");
    sym_reach("same");
}
// characterisation without a reference solve: one polynomial of degree <= O between breakpoints,
// O-1 continuous derivatives across them, passes through the data
template <size_t O> void charac(const Axis& a) {
    std::array<Axis, 1> ax{{a}};
    SymData<1> f(ax);
    auto fn = make1<double, O, double>(a, meshOf<double, 1>(ax, f));
    std::vector<double> b = breakpoints(a, O);
    size_t j = pick("piece0", 0, b.size() - 2);
    auto pol = [&](size_t k) {
        std::vector<double> p = piecePoints(b, k, O + 1), y;
        for (double q : p) y.push_back(fn(q));
        return fit(p, y);
    };
    Poly P = pol(j);
    double x = coordIn(a, b, j, "x0");
    sym_check_eq(fn(x), P.eval(x), "one polynomial per piece");
    if (O > 0 && (j + 2 < b.size() || a.per)) {
        Poly Q;
        double shift = 0;
        if (j + 2 < b.size()) Q = pol(j + 1);
        else { Q = pol(0); shift = a.period(); }
        for (size_t k = 0; k < O; ++k) sym_check_eq(P.eval(b[j + 1], k), Q.eval(b[j + 1] - shift, k), "smooth across breakpoints");
    }
    size_t i = pick("node", 0, a.c.size() - 1);
    sym_check_eq(fn(a.c[i]), f({{i}}), "passes through data");
    sym_reach("charac");
}
template <size_t O, class T = double, class U = double> void d1(size_t lo, size_t hi, Kind k, bool listed = false) {
    bool per = pick("periodic", 0, 1);
    same<T, U, 1, O>({{axis(pick("n", lo, hi), per, k, "c", listed)}});
}
template <size_t O> void d1c(size_t lo, size_t hi, Kind k) {
    bool per = pick("periodic", 0, 1);
    charac<O>(axis(pick("n", lo, hi), per, k));
}
template <size_t O, class T = double, class U = double> void d2(Kind k0, Kind k1, size_t add0, size_t add1) {
    bool p0 = pick("periodic0", 0, 1), p1 = pick("periodic1", 0, 1);
    same<T, U, 2, O>({{axis(O + 1 + add0, p0, k0), axis(O + 1 + add1, p1, k1)}});
}
template <size_t O> void d3(Kind k0, Kind k1, Kind k2, size_t a0, size_t a1, size_t a2) {
    bool p0 = pick("periodic0", 0, 1), p1 = pick("periodic1", 0, 1), p2 = pick("periodic2", 0, 1);
    same<double, double, 3, O>({{axis(O + 1 + a0, p0, k0), axis(O + 1 + a1, p1, k1), axis(O + 1 + a2, p2, k2)}});
}
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 1, 2 * o + 7, UNI); } JOB(d1_o##o##_irr) { d1<o>(o + 1, 2 * o + 6, IRR); } \
    JOB(d1_o##o##_irr2) { d1<o>(o + 1, o + 4, IRR2); } JOB(d1_o##o##_list) { d1<o>(o + 1, o + 4, UNI, true); } \
    JOB(T_d1_o##o##_big) { d1<o>(26, 28, UNI); } JOB(T_d1_o##o##_bigirr) { d1<o>(26, 28, IRR); }
#if !defined(SLICE) || SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(d1_o3_n24) { d1<3>(24, 24, UNI); }
JOB(d1_o1_n40) { d1<1>(40, 40, UNI); }
JOB(d1_o2_n20) { d1<2>(20, 20, IRR); }
JOB(d1_o0_n40) { d1<0>(40, 40, IRR); }
JOB(d1_o1_sym) { d1c<1>(2, 4, SYMC); }
JOB(d1_o2_sym1) { d1c<2>(3, 5, SYM1); }
JOB(d1_o3_sym1) { d1c<3>(4, 5, SYM1); }
JOB(T_d1_o2_sym1) { d1c<2>(6, 7, SYM1); }
JOB(T_d1_o3_sym1) { d1c<3>(6, 7, SYM1); }
JOB(T_d1_o4_sym1) { d1c<4>(5, 6, SYM1); }
JOB(d1_o2_symu) { d1c<2>(3, 6, SYMU); }
JOB(d1_o3_symu) { d1c<3>(4, 7, SYMU); }
JOB(d1_o4_symu) { d1c<4>(5, 7, SYMU); }
JOB(d1_o0_symu) { d1c<0>(1, 4, SYMU); }
#endif
#if !defined(SLICE) || SLICE == 1
D1(4) D1(5) D1(6)
JOB(d1_o4_n19) { d1<4>(19, 19, UNI); }
JOB(d1_o7_uni) { d1<7>(8, 10, UNI); }
JOB(d1_o7_irr) { d1<7>(8, 9, IRR); }
JOB(d1_o3_float) { d1<3, float, float>(4, 9, UNI); }
JOB(d1_o2_floatval) { d1<2, float, double>(3, 8, IRR); }
JOB(d1_o4_floatco) { d1<4, double, float>(5, 8, IRR); }
#endif
#if !defined(SLICE) || SLICE == 2
JOB(d2_o3_uu) { d2<3>(UNI, UNI, 1, 2); }
JOB(d2_o3_ui) { d2<3>(UNI, IRR, 3, 0); }
JOB(d2_o2_iu) { d2<2>(IRR, UNI, 1, 2); }
JOB(d2_o1_ui) { d2<1>(UNI, IRR, 2, 2); }
JOB(d2_o0_ui) { d2<0>(UNI, IRR, 2, 2); }
JOB(T_d2_o4_uu) { d2<4>(UNI, UNI, 1, 1); }
JOB(T_d2_o3_ii) { d2<3>(IRR, IRR2, 3, 3); }
JOB(d3_o1_iuu) { d3<1>(IRR, UNI, UNI, 1, 1, 0); }
JOB(d3_o2_uiu) { same<double, double, 3, 2>({{axis(4, false, UNI), axis(3, true, UNI), axis(3, false, IRR)}}); }
JOB(T_d3_o2_uiu) { d3<2>(UNI, IRR, UNI, 1, 0, 1); }
#endif
