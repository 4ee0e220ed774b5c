// C05: periodic dimensions repeat with their period everywhere.
#include "common.hpp"
using namespace H;
static const char* const KN[] = {"k0", "k1", "k2"};
template <class T, class U, size_t D, size_t O> void shift(const std::array<Axis, D>& ax, size_t kmax) {
    SymData<D> f(ax);
    auto fn = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, f));
    std::array<U, D> x, y;
    std::array<size_t, D> k;
    size_t s = pick("shifted", 0, D - 1);
    if (!ax[s].per) return;
    std::array<size_t, D> j;
    std::array<double, D> xd = pieceCoords<D>(ax, O, j, true);
    double m = sym_int("turns");
    for (size_t d = 0; d < D; ++d) {
        if (!ax[d].per) { sym_assume(xd[d] >= ax[d].lo()); sym_assume(xd[d] <= ax[d].hi()); }
        x[d] = static_cast<U>(xd[d]);
        y[d] = static_cast<U>(d == s ? xd[d] + m * ax[d].period() : xd[d]);
        k[d] = kmax ? pick(KN[d], 0, kmax) : 0;
    }
    double v = static_cast<double>(fn(x)), w = kmax ? static_cast<double>(fn.derivative(x, k)) : 0;
    std::array<double, D> yd;
    std::array<std::pair<U, size_t>, D> yk;
    for (size_t d = 0; d < D; ++d) { yd[d] = static_cast<double>(y[d]); yk[d] = std::make_pair(y[d], k[d]); }
    if (!kmax || k == std::array<size_t, D>{}) {
        sym_check_eq(static_cast<double>(fn(y)), v, "value");
        sym_check_eq(static_cast<double>(fn.at(y)), v, "checked value");
        sym_check_eq(static_cast<double>(fn.spline()(yd)), v, "spline value");
    }
    if (kmax) {
        sym_check_eq(static_cast<double>(fn.derivative(y, k)), w, "derivative");
        sym_check_eq(static_cast<double>(fn.derivative_at(y, k)), w, "checked derivative");
        sym_check_eq(static_cast<double>(fn.spline().derivative_at(yk)), w, "spline derivative");
    }
    sym_reach("shift");
}
// the two ends of the range, and any two coordinates a fixed number of periods apart around the seam
template <size_t O> void ends(const Axis& a) {
    std::array<Axis, 1> ax{{a}};
    SymData<1> f(ax);
    auto fn = make1<double, O, double>(a, meshOf<double, 1>(ax, f));
    for (size_t k = 0; k <= O; ++k) {
        sym_check_eq(fn.derivative(std::make_pair(a.lo(), k)), fn.derivative(std::make_pair(a.hi(), k)), "ends of the mesh");
        sym_check_eq(fn.derivative(std::make_pair(fn.range(0).first, k)), fn.derivative(std::make_pair(fn.range(0).second, k)), "ends of the range");
    }
    sym_check_eq(fn(a.lo()), fn(a.hi()), "end values");
    sym_check_eq(fn.range(0).second - fn.range(0).first, a.period(), "the range is one period");
    for (int m = -3; m <= 3; ++m)
        for (size_t i = 0; i < a.n; ++i) sym_check_eq(fn(a.c[i] + m * a.period()), f({{i}}), "nodes in other periods");
    sym_reach("ends");
}
template <size_t O, class T = double, class U = double> void d1(size_t lo, size_t hi, Kind k, size_t kmax) { shift<T, U, 1, O>({{axis(pick("n", lo, hi), true, k)}}, kmax); }
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 1, o + 3, UNI, o); } JOB(d1_o##o##_irr) { d1<o>(o + 1, o + 4, IRR, o); } \
    JOB(d1_o##o##_irr2) { d1<o>(o + 2, o + 3, IRR2, 0); } JOB(d1_o##o##_ends) { ends<o>(axis(pick("n", o + 1, o + 8), true, pick("irregular", 0, 1) ? IRR : UNI)); } \
    JOB(T_d1_o##o##_big) { d1<o>(o + 4, 18, UNI, o); } JOB(T_d1_o##o##_bigirr) { d1<o>(16, 20, IRR2, o); }
#if !defined(SLICE) || SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(d1_o1_symu) { d1<1>(2, 4, SYMU, 1); }
JOB(d1_o2_symu) { d1<2>(3, 5, SYMU, 2); }
JOB(d1_o3_symu) { d1<3>(4, 6, SYMU, 1); }
JOB(d1_o1_sym) { d1<1>(2, 4, SYMC, 1); }
JOB(d1_o2_sym1) { d1<2>(3, 4, SYM1, 0); }
JOB(d1_o3_sym1) { d1<3>(4, 4, SYM1, 0); }
JOB(d1_o1_n66) { d1<1>(66, 66, UNI, 0); }
JOB(d1_o2_n33) { d1<2>(33, 33, IRR, 1); }
JOB(d1_o3_n40) { d1<3>(40, 40, UNI, 1); }
JOB(d1_o3_n24) { d1<3>(24, 24, UNI, 0); }
#endif
#if !defined(SLICE) || SLICE == 1
D1(4) D1(5) D1(6)
JOB(d1_o7_uni) { d1<7>(8, 9, UNI, 0); }
JOB(d1_o5_n20) { d1<5>(20, 20, UNI, 0); }
JOB(d1_o3_float) { d1<3, float, float>(4, 7, UNI, 2); }
JOB(d1_o2_floatco) { d1<2, double, float>(3, 6, IRR, 1); }
JOB(d2_o3_uu) { shift<double, double, 2, 3>({{axis(4, true, UNI), axis(4, pick("periodic1", 0, 1), IRR)}}, 1); }
JOB(d2_o2_iu) { shift<double, double, 2, 2>({{axis(4, true, IRR), axis(3, true, UNI)}}, 1); }
JOB(d2_o2_ui) { shift<double, double, 2, 2>({{axis(5, false, UNI), axis(3, true, IRR)}}, 1); }
JOB(d3_o1_uiu) { shift<double, double, 3, 1>({{axis(3, true, UNI), axis(3, true, IRR), axis(2, false, UNI)}}, 1); }
JOB(T_d3_o2_uiu) { shift<double, double, 3, 2>({{axis(3, true, UNI), axis(4, true, IRR), axis(3, true, UNI)}}, 1); }
#endif
