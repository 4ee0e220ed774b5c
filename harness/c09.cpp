// C09: the function built in this configuration equals the one built in the default configuration.
#include "common.hpp"
#include "ref.hpp"
using namespace H;
template <size_t D, size_t O> void same(const std::array<Axis, D>& ax, size_t kmax) {
    SymData<D> f(ax);
    auto fn = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, f));
    size_t n[D], tot = 1;
    bool per[D], uni[D];
    const double* c[D];
    for (size_t d = 0; d < D; ++d) { n[d] = ax[d].n; per[d] = ax[d].per; uni[d] = ax[d].uni; c[d] = ax[d].c.data(); tot *= n[d]; }
    std::vector<double> data;
    for (size_t i = 0; i < tot; ++i) data.push_back(sym_real_idx("f", i));
    std::unique_ptr<RefFn> ref(ref_make(D, O, n, per, uni, c, data.data()));
    for (size_t d = 0; d < D; ++d) {
        double lo, hi;
        ref->range(d, &lo, &hi);
        sym_check_eq(fn.range(d).first, lo, "range begin");
        sym_check_eq(fn.range(d).second, hi, "range end");
        sym_check(fn.periodicity(d) == ax[d].per && fn.uniform(d) == ax[d].uni, "boundary and spacing kind");
    }
    std::array<size_t, D> j, k;
    std::array<double, D> x = pieceCoords<D>(ax, O, j);
    // 0: value, 1: value some periods away, then derivatives (1-D: every order; else one dimension at a time and all mixed)
    size_t m = pick("mode", 0, D == 1 ? 2 + kmax : 2 + D);
    if (m == 1) {
        bool any = false;
        for (size_t d = 0; d < D; ++d) if (ax[d].per) { x[d] = x[d] + sym_int("turns") * ax[d].period(); any = true; }
        if (!any) return;
    }
    if (m < 2) {
        sym_check_eq(fn(x), ref->value(x.data()), "value");
        sym_check_eq(fn.spline()(x), ref->value(x.data()), "spline value");
    } else {
        for (size_t d = 0; d < D; ++d) k[d] = D == 1 ? m - 2 : m - 2 == D ? 1 : m - 2 == d ? kmax : 0;
        sym_check_eq(fn.derivative(x, k), ref->derivative(x.data(), k.data()), "derivative");
    }
    sym_reach("same");
}
template <size_t O> void d1(size_t hi, Kind kd) { same<1, O>({{axis(pick("n", O + 1, hi), pick("periodic", 0, 1), kd)}}, O + 1); }
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 4, UNI); } JOB(d1_o##o##_irr) { d1<o>(o + 3, IRR); } JOB(T_d1_o##o##_big) { d1<o>(2 * o + 6, UNI); } JOB(T_d1_o##o##_bigirr) { d1<o>(2 * o + 6, IRR2); }
#if SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(d1_o3_symu) { same<1, 3>({{axis(5, pick("periodic", 0, 1), SYMU)}}, 1); }
JOB(d1_o3_n21) { same<1, 3>({{axis(21, pick("periodic", 0, 1), UNI)}}, 0); }
JOB(d1_o2_n40) { same<1, 2>({{axis(40, pick("periodic", 0, 1), IRR)}}, 0); }
JOB(d1_o1_n34) { same<1, 1>({{axis(34, pick("periodic", 0, 1), UNI)}}, 0); }
JOB(d2_o1) { same<2, 1>({{axis(3, pick("periodic0", 0, 1), UNI), axis(2, pick("periodic1", 0, 1), IRR)}}, 2); }
JOB(d2_o3) { same<2, 3>({{axis(4, pick("periodic0", 0, 1), IRR), axis(5, pick("periodic1", 0, 1), UNI)}}, 1); }
#else
D1(4) D1(5)
JOB(d1_o4_n21) { same<1, 4>({{axis(21, pick("periodic", 0, 1), UNI)}}, 0); }
JOB(d1_o5_n21) { same<1, 5>({{axis(21, pick("periodic", 0, 1), UNI)}}, 0); }
JOB(d2_o2) { same<2, 2>({{axis(4, pick("periodic0", 0, 1), UNI), axis(3, pick("periodic1", 0, 1), UNI)}}, 2); }
JOB(d3_o1) { same<3, 1>({{axis(2, pick("periodic0", 0, 1), UNI), axis(3, pick("periodic1", 0, 1), IRR), axis(2, pick("periodic2", 0, 1), UNI)}}, 1); }
JOB(T_d3_o2) { same<3, 2>({{axis(3, pick("periodic0", 0, 1), UNI), axis(4, pick("periodic1", 0, 1), UNI), axis(3, pick("periodic2", 0, 1), IRR)}}, 1); }
#endif
