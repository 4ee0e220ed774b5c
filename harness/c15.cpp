// C15: end points or listed coordinates give the same function; shifting and scaling coordinates shifts and scales
// the argument.
#include "common.hpp"
using namespace H;
template <class T, class U, size_t D, size_t O> void compare(const std::array<Axis, D>& ax, const std::array<Axis, D>& bx, const std::array<double, D>& sc, const std::array<double, D>& off, size_t kmax) {
    SymData<D> f(ax);
    auto fn = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, f));
    auto gn = MakeD<T, D, O, U>::go(bx, meshOf<T, D>(bx, f, "dummy2"));
    for (size_t d = 0; d < D; ++d) {
        sym_check_eq(gn.range(d).first, fn.range(d).first * sc[d] + off[d], "range begin");
        sym_check_eq(gn.range(d).second, fn.range(d).second * sc[d] + off[d], "range end");
    }
    std::array<size_t, D> j, k;
    std::array<double, D> x = pieceCoords<D>(ax, O, j), y;
    if (D == 1 && pick("turn", 0, 1)) {  // some periods away
        bool any = false;
        for (size_t d = 0; d < D; ++d) if (ax[d].per) { x[d] = x[d] + sym_int("turns") * ax[d].period(); any = true; }
        if (!any) return;
        kmax = 0;
    }
    size_t m = pick("order", 0, D == 1 ? kmax : kmax ? 2 : 0);
    double s = 1;
    for (size_t d = 0; d < D; ++d) {
        y[d] = x[d] * sc[d] + off[d];
        k[d] = D == 1 ? m : m == 0 ? 0 : m == 1 ? (d == 0 ? kmax : 0) : 1;
        for (size_t i = 0; i < k[d]; ++i) s *= sc[d];
    }
    std::array<U, D> xu = castTo<U>(x), yu = castTo<U>(y);
    if (m == 0) {
        sym_check_eq(gn(yu), fn(xu), "value");
        sym_check_eq(gn.spline()(y), fn(xu), "value through the spline");
    } else sym_check_eq(gn.derivative(yu, k) * s, fn.derivative(xu, k), "derivative");
    sym_reach("compare");
}
// evenly spaced: end points against list
template <class T, class U, size_t O> void listed(size_t n, bool per, Kind kd, size_t kmax) {
    Axis a = axis(n, per, kd), b = a;
    b.uni = false;
    compare<T, U, 1, O>({{a}}, {{b}}, {{1.}}, {{0.}}, kmax);
}
inline Axis moved(Axis a, double s, double o) { for (auto& c : a.c) c = c * s + o; return a; }
template <class T, class U, size_t O> void affine(size_t n, bool per, Kind kd, bool list, size_t kmax) {
    Axis a = axis(n, per, kd, "c", list);
    double s = sym_real("scale"), o = sym_real("offset");
    sym_assume(s > 0);
    compare<T, U, 1, O>({{a}}, {{moved(a, s, o)}}, {{s}}, {{o}}, kmax);
}
#define PER pick("periodic", 0, 1)
#define D1(o) JOB(list_o##o) { listed<double, double, o>(pick("n", o + 1, o + 5), PER, UNI, o); } \
    JOB(listsym_o##o) { listed<double, double, o>(pick("n", o + 1, o + 2), PER, SYMU, 1); } \
    JOB(scale_o##o##_uni) { affine<double, double, o>(pick("n", o + 1, o + 3), PER, UNI, false, o); } \
    JOB(scale_o##o##_irr) { affine<double, double, o>(pick("n", o + 1, o + 3), PER, IRR, true, o); } \
    JOB(T_list_o##o) { listed<double, double, o>(pick("n", o + 6, 2 * o + 9), PER, UNI, o + 1); } \
    JOB(T_listsym_o##o) { listed<double, double, o>(pick("n", o + 3, o + 5), PER, SYMU, o + 1); } \
    JOB(T_scale_o##o##_irr) { affine<double, double, o>(pick("n", o + 4, 2 * o + 6), PER, pick("kind", 0, 1) ? IRR : IRR2, true, o + 1); }
#if SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(float_o2) { listed<float, float, 2>(4, PER, UNI, 2); }
JOB(floatc_o3) { listed<double, float, 3>(6, PER, UNI, 1); }
JOB(list_long_o1) { listed<double, double, 1>(66, PER, UNI, 0); }
JOB(list_long_o2) { listed<double, double, 2>(40, PER, UNI, 0); }
JOB(scale_long_o3) { affine<double, double, 3>(21, PER, UNI, false, 1); }
JOB(scale_long_o2) { affine<double, double, 2>(24, PER, IRR, true, 0); }
JOB(list_long_o3) { listed<double, double, 3>(33, PER, UNI, 0); }
#else
D1(4) D1(5)
JOB(list_long_o4) { listed<double, double, 4>(24, PER, UNI, 0); }
JOB(list_long_o5) { listed<double, double, 5>(24, PER, UNI, 0); }
JOB(list_long_o6) { listed<double, double, 6>(24, PER, UNI, 0); }
JOB(list_o6) { listed<double, double, 6>(pick("n", 7, 9), PER, UNI, 1); }
template <size_t O> void both2(size_t n0, size_t n1) {
    Axis a = axis(n0, pick("periodic0", 0, 1), UNI), b = axis(n1, pick("periodic1", 0, 1), UNI);
    size_t w = pick("listed", 1, 3);
    Axis a2 = a, b2 = b;
    if (w & 1) a2.uni = false;
    if (w & 2) b2.uni = false;
    compare<double, double, 2, O>({{a, b}}, {{a2, b2}}, {{1., 1.}}, {{0., 0.}}, O);
}
JOB(d2_list_o1) { both2<1>(2, 3); }
JOB(d2_list_o2) { both2<2>(4, 3); }
JOB(T_d2_list_o3) { both2<3>(4, 6); }
template <size_t O> void scale2(size_t n0, size_t n1) {
    bool p = PER;
    Axis a = axis(n0, p, UNI), b = axis(n1, !p, IRR);
    double s = sym_real("scale"), o = sym_real("offset");
    sym_assume(s > 0);
    compare<double, double, 2, O>({{a, b}}, {{moved(a, s, o), moved(b, 3., -.25)}}, {{s, 3.}}, {{o, -.25}}, O);
}
JOB(d2_scale_o1) { scale2<1>(3, 2); }
JOB(d2_scale_o2) { scale2<2>(3, 4); }
JOB(T_d2_scale_o3) { scale2<3>(4, 5); }
#endif
