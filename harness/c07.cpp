// C07: outside the range the end polynomial pieces are continued.
#include "common.hpp"
using namespace H;
static const char* const KN[] = {"k0", "k1", "k2"};
// dimension `out` beyond its range on either side (or anywhere in an end piece), the others inside
template <class T, class U, size_t D, size_t O> void beyond(const std::array<Axis, D>& ax, size_t kmax, bool bothOut = false) {
    SymData<D> f(ax);
    auto fn = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, f));
    size_t out = pick("out", 0, D - 1);
    if (ax[out].per) return;
    std::array<size_t, D> j, k;
    std::array<double, D> x;
    for (size_t d = 0; d < D; ++d) {
        std::vector<double> b = breakpoints(ax[d], O);
        size_t K = b.size() - 1;
        bool above = d == out || bothOut ? pick(d == out ? "above" : "above2", 0, 1) : false;
        bool isOut = !ax[d].per && (d == out || bothOut);
        j[d] = isOut ? (above ? K - 1 : 0) : K / 2;
        x[d] = sym_real(XN[d]);
        if (isOut) { if (above) sym_assume(x[d] >= b[K - 1]); else sym_assume(x[d] < b[1]); }
        else { sym_assume(x[d] >= b[j[d]]); sym_assume(x[d] < b[j[d] + 1]); }
        k[d] = kmax ? pick(KN[d], 0, kmax) : 0;
    }
    CellPoly<D> P(ax, O, j, [&](const std::array<double, D>& q) { return static_cast<double>(fn(castTo<U>(q))); });
    std::array<U, D> xu = castTo<U>(x);
    std::array<double, D> xd;
    std::array<std::pair<U, size_t>, D> xk;
    for (size_t d = 0; d < D; ++d) { xd[d] = static_cast<double>(xu[d]); xk[d] = std::make_pair(xu[d], k[d]); }
    double v = P.eval(x, std::array<size_t, D>{}), w = P.eval(x, k);
    sym_check_eq(static_cast<double>(fn(xu)), v, "value");
    sym_check_eq(static_cast<double>(fn.spline()(xd)), v, "spline value");
    sym_check_eq(static_cast<double>(fn.derivative(xu, k)), w, "derivative");
    sym_check_eq(static_cast<double>(fn.spline().derivative_at(xk)), w, "spline derivative");
    sym_reach("beyond");
}
template <size_t O, class T = double, class U = double> void d1(size_t lo, size_t hi, Kind k, size_t kmax, bool listed = false) { beyond<T, U, 1, O>({{axis(pick("n", lo, hi), false, k, "c", listed)}}, kmax); }
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 1, o + 6, UNI, o); } JOB(d1_o##o##_irr) { d1<o>(o + 1, o + 6, IRR, o); } \
    JOB(d1_o##o##_list) { d1<o>(o + 1, o + 3, UNI, o, true); } JOB(d1_o##o##_irr2) { d1<o>(o + 2, o + 4, IRR2, 0); } \
    JOB(T_d1_o##o##_big) { d1<o>(20, 30, UNI, o); } JOB(T_d1_o##o##_bigirr) { d1<o>(20, 30, IRR, o); }
#if !defined(SLICE) || SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(d1_o2_symu) { d1<2>(3, 6, SYMU, 2); }
JOB(d1_o3_symu) { d1<3>(4, 7, SYMU, 3); }
JOB(d1_o4_symu) { d1<4>(5, 6, SYMU, 0); }
JOB(d1_o1_sym) { d1<1>(2, 5, SYMC, 1); }
JOB(d1_o2_sym1) { d1<2>(3, 5, SYM1, 2); }
JOB(d1_o3_sym1) { d1<3>(4, 5, SYM1, 0); }
JOB(d1_o3_n130) { d1<3>(130, 130, UNI, 3); }
JOB(d1_o2_n70) { d1<2>(70, 70, IRR, 2); }
JOB(d1_o1_n300) { d1<1>(300, 300, UNI, 1); }
JOB(d1_o3_n33) { d1<3>(33, 33, UNI, 0); }
#endif
#if !defined(SLICE) || SLICE == 1
D1(4) D1(5) D1(6)
JOB(d1_o4_n67) { d1<4>(67, 67, UNI, 1); }
JOB(d1_o5_n34) { d1<5>(34, 34, IRR, 1); }
JOB(d1_o8_uni) { d1<8>(9, 11, UNI, 1); }
JOB(d1_o7_uni) { d1<7>(8, 10, UNI, 0); }
JOB(d1_o3_float) { d1<3, float, float>(4, 7, UNI, 3); }
JOB(d1_o2_floatval) { d1<2, float, double>(3, 6, IRR, 2); }
JOB(d2_o3_ui) { beyond<double, double, 2, 3>({{axis(5, false, UNI), axis(4, pick("periodic1", 0, 1), IRR)}}, 1); }
JOB(d2_o2_iu) { beyond<double, double, 2, 2>({{axis(4, false, IRR), axis(5, pick("periodic1", 0, 1), UNI)}}, 1); }
JOB(d2_o2_corner) { beyond<double, double, 2, 2>({{axis(4, false, UNI), axis(4, false, IRR)}}, 0, true); }
JOB(d2_o1_corner) { beyond<double, double, 2, 1>({{axis(3, false, UNI), axis(4, false, UNI)}}, 1, true); }
JOB(d3_o1_uiu) { beyond<double, double, 3, 1>({{axis(3, false, UNI), axis(3, pick("periodic1", 0, 1), IRR), axis(2, false, UNI)}}, 1); }
JOB(d3_o2_uiu) { beyond<double, double, 3, 2>({{axis(3, false, UNI), axis(3, true, IRR), axis(4, false, UNI)}}, 0); }
JOB(T_d3_o2_corner) { beyond<double, double, 3, 2>({{axis(4, false, IRR), axis(3, true, IRR), axis(4, false, UNI)}}, 1, true); }
#endif
