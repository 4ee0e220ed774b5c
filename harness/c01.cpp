// C01: the interpolant passes through every data point.
#include "common.hpp"
using namespace H;
template <class T, class U, size_t D, size_t O> void nodes(const std::array<Axis, D>& ax) {
    SymData<D> f(ax);
    auto fn = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, f));
    std::array<size_t, D> ext;
    for (size_t d = 0; d < D; ++d) ext[d] = ax[d].c.size();
    for (Odo<D> o(ext); !o.done; o.next()) {
        std::array<U, D> x;
        for (size_t d = 0; d < D; ++d) x[d] = static_cast<U>(ax[d].c[o.i[d]]);
        double want = f(o.i);
        sym_check_eq(static_cast<double>(fn(x)), want, "node");
        if (D == 1) sym_check_eq(static_cast<double>(fn.spline()(std::array<double, D>{{ax[0].c[o.i[0]]}})), want, "node-spline");
    }
    sym_reach("nodes");
}
template <size_t O, class T = double, class U = double> void d1(size_t lo, size_t hi, Kind k, bool listed = false) {
    bool per = pick("periodic", 0, 1);
    size_t n = pick("n", lo, hi);
    nodes<T, U, 1, O>({{axis(n, per, k, "c", listed)}});
}
template <size_t O, class T = double, class U = double> void d2(Kind k0, Kind k1, size_t add0, size_t add1) {
    bool p0 = pick("periodic0", 0, 1), p1 = pick("periodic1", 0, 1);
    nodes<T, U, 2, O>({{axis(O + 1 + add0, p0, k0), axis(O + 1 + add1, p1, k1)}});
}
template <size_t O, class T = double, class U = double> void d3(Kind k0, Kind k1, Kind k2, size_t a0, size_t a1, size_t a2) {
    bool p0 = pick("periodic0", 0, 1), p1 = pick("periodic1", 0, 1), p2 = pick("periodic2", 0, 1);
    nodes<T, U, 3, O>({{axis(O + 1 + a0, p0, k0), axis(O + 1 + a1, p1, k1), axis(O + 1 + a2, p2, k2)}});
}
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 1, 2 * o + 8, UNI); } JOB(d1_o##o##_irr) { d1<o>(o + 1, 2 * o + 8, IRR); } \
    JOB(d1_o##o##_irr2) { d1<o>(o + 1, 2 * o + 6, IRR2); } JOB(d1_o##o##_list) { d1<o>(o + 1, o + 6, UNI, true); } \
    JOB(T_d1_o##o##_big) { d1<o>(40, 60, UNI); } JOB(T_d1_o##o##_bigirr) { d1<o>(40, 60, IRR); }
#if !defined(SLICE) || SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(d1_o3_n40) { d1<3>(33, 36, UNI); }
JOB(d1_o2_n40) { d1<2>(31, 33, IRR); }
JOB(d1_o3_n130) { d1<3>(130, 130, UNI); }
JOB(d1_o2_n140) { d1<2>(140, 140, UNI); }
JOB(d1_o1_n300) { d1<1>(300, 300, UNI); }
JOB(d1_o0_n300) { d1<0>(300, 300, IRR); }
JOB(d1_o3_n70) { d1<3>(70, 70, IRR); }
JOB(d1_o3_n65) { d1<3>(64, 66, UNI, true); }
JOB(d1_o1_sym) { d1<1>(2, 6, SYMC); }
JOB(d1_o2_sym) { nodes<double, double, 1, 2>({{axis(pick("n", 3, 4), false, SYMC)}}); }
JOB(d1_o2_sym1) { d1<2>(3, 7, SYM1); }
JOB(d1_o3_sym1) { d1<3>(4, 7, SYM1); }
JOB(T_d1_o4_sym1) { d1<4>(5, 8, SYM1); }
JOB(T_d1_o5_sym1) { d1<5>(6, 8, SYM1); }
JOB(d1_o3_symu) { d1<3>(4, 9, SYMU); }
JOB(d1_o2_symu) { d1<2>(3, 8, SYMU); }
JOB(d1_o5_symu) { d1<5>(6, 8, SYMU); }
#endif
#if !defined(SLICE) || SLICE == 1
D1(4) D1(5) D1(6) D1(7)
JOB(d1_o3_float) { d1<3, float, float>(4, 10, UNI); }
JOB(d1_o2_floatval) { d1<2, float, double>(3, 9, IRR); }
JOB(d1_o3_floatco) { d1<3, double, float>(4, 10, IRR); }
JOB(d1_o4_n67) { d1<4>(67, 67, UNI); }
JOB(d1_o5_n40) { d1<5>(40, 40, UNI); }
JOB(d1_o8) { d1<8>(9, 19, UNI); }
JOB(d1_o9) { d1<9>(10, 14, IRR); }
JOB(T_d1_o3_n100) { d1<3>(100, 100, UNI); }
JOB(T_d1_o5_n100) { d1<5>(100, 100, IRR); }
#endif
#if !defined(SLICE) || SLICE == 2
JOB(d2_o3_uu) { d2<3>(UNI, UNI, 1, 3); }
JOB(d2_o3_ui) { d2<3>(UNI, IRR, 4, 0); }
JOB(d2_o3_iu) { d2<3>(IRR, UNI, 2, 2); }
JOB(d2_o3_ii) { d2<3>(IRR2, IRR, 0, 2); }
JOB(d2_o2_uu) { d2<2>(UNI, UNI, 3, 1); }
JOB(d2_o2_iu) { d2<2>(IRR, UNI, 1, 3); }
JOB(d2_o1_ui) { d2<1>(UNI, IRR, 3, 2); }
JOB(d2_o0_ui) { d2<0>(UNI, IRR, 3, 4); }
JOB(d2_o4_uu) { d2<4>(UNI, UNI, 2, 1); }
JOB(d2_o5_uu) { d2<5>(UNI, IRR, 0, 1); }
JOB(d2_o1_long) { d2<1>(UNI, IRR, 32, 1); }
JOB(d2_o2_wide) { d2<2>(IRR, UNI, 0, 30); }
JOB(T_d2_o3_big) { d2<3>(UNI, UNI, 8, 6); }
JOB(T_d2_o2_big) { d2<2>(UNI, IRR, 9, 7); }
JOB(d3_o3_uuu) { d3<3>(UNI, UNI, UNI, 0, 1, 0); }
JOB(d3_o2_uiu) { d3<2>(UNI, IRR, UNI, 1, 0, 2); }
JOB(d3_o1_iuu) { d3<1>(IRR, UNI, UNI, 1, 2, 0); }
JOB(T_d3_o3_mix) { d3<3>(IRR, UNI, IRR2, 1, 0, 2); }
#endif
#if !defined(SLICE) || SLICE == 3
template <size_t O> void d4() {
    bool p0 = pick("periodic0", 0, 1), p3 = pick("periodic3", 0, 1);
    nodes<double, double, 4, O>({{axis(O + 2, p0, UNI), axis(O + 1, true, UNI), axis(O + 2, false, UNI), axis(O + 1, p3, UNI)}});
}
JOB(d4_o1) { d4<1>(); }
JOB(T_d4_o2) { d4<2>(); }
#endif
