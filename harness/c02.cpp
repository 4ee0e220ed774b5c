// C02: polynomials up to the spline order are reproduced; periodic dimensions reproduce constants.
#include "common.hpp"
using namespace H;
// data: polynomial with symbolic coefficients, of degree <= order in aperiodic and 0 in periodic variables
template <size_t D> struct PolyData {
    std::array<size_t, D> deg;
    PolyData(const std::array<Axis, D>& ax, size_t O) { for (size_t d = 0; d < D; ++d) deg[d] = ax[d].per ? 1 : O + 1; }
    double operator()(const std::array<double, D>& x) const {
        double r = 0;
        std::array<std::vector<double>, D> pw;
        for (size_t d = 0; d < D; ++d) { double p = 1; for (size_t k = 0; k < deg[d]; ++k) { pw[d].push_back(p); p *= x[d]; } }
        for (Odo<D> o(deg); !o.done; o.next()) {
            double w = sym_real_idx("a", o.flat);
            for (size_t d = 0; d < D; ++d) w *= pw[d][o.i[d]];
            r += w;
        }
        return r;
    }
};
template <class T, class U, size_t D, size_t O> void repro(const std::array<Axis, D>& ax) {
    PolyData<D> P(ax, O);
    auto fn = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, [&](const std::array<size_t, D>& i) {
        std::array<double, D> x;
        for (size_t d = 0; d < D; ++d) x[d] = ax[d].c[i[d]];
        return P(x);
    }));
    std::array<double, D> x = anyCoords<D>(ax, O);
    std::array<U, D> xu;
    for (size_t d = 0; d < D; ++d) xu[d] = static_cast<U>(x[d]);
    sym_check_eq(static_cast<double>(fn(xu)), P(x), "value");
    sym_reach("repro");
}
template <size_t O, class T = double, class U = double> void d1(size_t lo, size_t hi, Kind k, bool listed = false) {
    bool per = pick("periodic", 0, 1);
    repro<T, U, 1, O>({{axis(pick("n", lo, hi), per, k, "c", listed)}});
}
template <size_t O, class T = double, class U = double> void d2(Kind k0, Kind k1, size_t add0, size_t add1) {
    bool p0 = pick("periodic0", 0, 1), p1 = pick("periodic1", 0, 1);
    repro<T, U, 2, O>({{axis(O + 1 + add0, p0, k0), axis(O + 1 + add1, p1, k1)}});
}
template <size_t O> void d3(Kind k0, Kind k1, Kind k2, size_t a0, size_t a1, size_t a2) {
    bool p0 = pick("periodic0", 0, 1), p1 = pick("periodic1", 0, 1), p2 = pick("periodic2", 0, 1);
    repro<double, double, 3, O>({{axis(O + 1 + a0, p0, k0), axis(O + 1 + a1, p1, k1), axis(O + 1 + a2, p2, k2)}});
}
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 1, 2 * o + 8, UNI); } JOB(d1_o##o##_irr) { d1<o>(o + 1, 2 * o + 8, IRR); } \
    JOB(d1_o##o##_irr2) { d1<o>(o + 1, 2 * o + 6, IRR2); } JOB(d1_o##o##_list) { d1<o>(o + 1, o + 6, UNI, true); } \
    JOB(T_d1_o##o##_big) { d1<o>(40, 44, UNI); } JOB(T_d1_o##o##_bigirr) { d1<o>(40, 44, IRR); }
#if !defined(SLICE) || SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(d1_o3_n33) { d1<3>(32, 34, UNI); }
JOB(d1_o2_n33) { d1<2>(31, 33, IRR); }
JOB(d1_o3_n70) { d1<3>(70, 70, UNI); }
JOB(d1_o1_n130) { d1<1>(130, 130, UNI); }
JOB(d1_o2_n66) { d1<2>(66, 66, IRR); }
JOB(d1_o1_sym) { d1<1>(2, 5, SYMC); }
JOB(d1_o2_sym1) { d1<2>(3, 6, SYM1); }
JOB(d1_o3_sym1) { d1<3>(4, 6, SYM1); }
JOB(d1_o2_symu) { d1<2>(3, 7, SYMU); }
JOB(d1_o3_symu) { d1<3>(4, 8, SYMU); }
#endif
#if !defined(SLICE) || SLICE == 1
D1(4) D1(5) D1(6) D1(7)
JOB(d1_o4_n40) { d1<4>(40, 40, UNI); }
JOB(d1_o5_n33) { d1<5>(33, 33, UNI); }
JOB(d1_o8_uni) { d1<8>(9, 12, UNI); }
JOB(d1_o3_float) { d1<3, float, float>(4, 10, UNI); }
JOB(d1_o2_floatval) { d1<2, float, double>(3, 9, IRR); }
JOB(d1_o4_floatco) { d1<4, double, float>(5, 10, IRR); }
#endif
#if !defined(SLICE) || SLICE == 2
JOB(d2_o3_uu) { d2<3>(UNI, UNI, 1, 3); }
JOB(d2_o3_ui) { d2<3>(UNI, IRR, 4, 0); }
JOB(d2_o3_iu) { d2<3>(IRR, UNI, 2, 2); }
JOB(d2_o2_uu) { d2<2>(UNI, UNI, 3, 1); }
JOB(d2_o2_iu) { d2<2>(IRR, UNI, 1, 3); }
JOB(d2_o1_ui) { d2<1>(UNI, IRR, 3, 2); }
JOB(d2_o0_ui) { d2<0>(UNI, IRR, 3, 4); }
JOB(d2_o4_uu) { repro<double, double, 2, 4>({{axis(7, false, UNI), axis(6, pick("periodic1", 0, 1), UNI)}}); }
JOB(T_d2_o5_ui) { d2<5>(UNI, IRR, 1, 1); }
JOB(d3_o2_uiu) { d3<2>(UNI, IRR, UNI, 1, 0, 2); }
JOB(d3_o1_iuu) { d3<1>(IRR, UNI, UNI, 1, 2, 0); }
JOB(d3_o3_uuu) { repro<double, double, 3, 3>({{axis(4, false, UNI), axis(5, false, UNI), axis(4, true, UNI)}}); }
JOB(T_d3_o3_uuu) { d3<3>(UNI, UNI, UNI, 1, 0, 1); }
#endif
