// C08: memory safety for every double coordinate and every hint within the interior knots.
// Run in IEEE mode; the executor checks every access, initialisation, allocation and free; the job's own
// assertions only consume the results.
#include "common.hpp"
using namespace H;
template <class U> U anyCo(const char* nm) { return static_cast<U>(sym_fp(nm)); }
template <class T, class U, size_t D, size_t O> struct Fn {
    std::array<Axis, D> ax;
    intp::InterpolationFunction<T, D, O, U> fn;
    Fn(const std::array<Axis, D>& a) : ax(a), fn(MakeD<T, D, O, U>::go(a, mesh(a))) {}
    static intp::Mesh<T, D> mesh(const std::array<Axis, D>& a) {
        intp::Mesh<T, D> m{intp::MeshDimension<D>(lens(a))};
        double v = 1;
        for (Odo<D> o(lens(a)); !o.done; o.next()) { m(o.i) = static_cast<T>(v); v = -v * .75 + 1; }
        return m;
    }
};
enum What { VALUE, DERIV, SPLINE, SDERIV };
template <class T, class U, size_t D, size_t O> void any(const std::array<Axis, D>& ax, What w) {
    Fn<T, U, D, O> s(ax);
    std::array<U, D> x;
    std::array<double, D> xd;
    std::array<size_t, D> k;
    size_t free = D > 1 ? pick("free", 0, D - 1) : 0;
    static const char* const KN[] = {"k0", "k1", "k2"};
    static const char* const HN[] = {"hint0", "hint1", "hint2"};
    for (size_t d = 0; d < D; ++d) {
        x[d] = d == free ? anyCo<U>(XN[d]) : static_cast<U>(ax[d].c[ax[d].n / 2]);
        xd[d] = x[d];
        k[d] = w == DERIV || w == SDERIV ? (d == free ? pick(KN[d], 0, O + 1) : 1) : 0;
    }
    if (w == VALUE) {
        if (pick("unchecked", 0, 1)) sym_use(static_cast<double>(s.fn(x)));
        else try { sym_use(static_cast<double>(s.fn.at(x))); } catch (const std::domain_error&) {}
    } else if (w == DERIV) {
        sym_use(static_cast<double>(s.fn.derivative(x, k)));
    } else {
        std::array<std::pair<U, size_t>, D> xh;
        std::array<std::tuple<U, size_t, size_t>, D> xkh;
        for (size_t d = 0; d < D; ++d) {
            // interior knots: indices order .. knots_num - order - 2
            size_t last = s.fn.spline().knots_num(d) - O - 2;
            size_t h = sym_u64(HN[d], O, last);
            xh[d] = std::make_pair(x[d], h);
            xkh[d] = std::make_tuple(x[d], h, k[d]);
        }
        if (w == SPLINE) { if (pick("hinted", 0, 1)) sym_use(static_cast<double>(s.fn.spline()(xh))); else sym_use(static_cast<double>(s.fn.spline()(xd))); }
        else sym_use(static_cast<double>(s.fn.spline().derivative_at(xkh)));
    }
    sym_reach("any");
}
#ifdef INTP_CELL_LAYOUT
template <class U, size_t D, size_t O> void proxy(const std::array<Axis, D>& ax) {
    Fn<double, U, D, O> s(ax);
    auto t = makeT_<double, D, O, U, false>(intp::util::make_index_sequence<D>{}, ax);
    std::array<U, D> x;
    for (size_t d = 0; d < D; ++d) x[d] = d == 0 ? anyCo<U>(XN[d]) : static_cast<U>(ax[d].c[ax[d].n / 2]);
    auto f = t.interpolate(Fn<double, U, D, O>::mesh(ax));
    auto p = t.eval_proxy(x);
    sym_use(p(f));
    sym_reach("proxy");
}
#endif
// construction: symbolic extents, all kinds, no coordinate
template <size_t O> void build1(size_t lo, size_t hi, Kind k) {
    bool per = pick("periodic", 0, 1);
    Axis a = axis(pick("n", lo, hi), per, k);
    Fn<double, double, 1, O> s(std::array<Axis, 1>{{a}});
    sym_use(s.fn(a.c[0]));
    sym_reach("build");
}
template <size_t O, class T = double, class U = double> void d1(size_t lo, size_t hi, Kind k, What w) {
    bool per = pick("periodic", 0, 1);
    any<T, U, 1, O>({{axis(pick("n", lo, hi), per, k)}}, w);
}
#define D1(o) JOB(val_o##o) { d1<o>(o + 1, o + 3, pick("irregular", 0, 1) ? IRR : UNI, VALUE); } JOB(der_o##o) { d1<o>(o + 1, o + 2, pick("irregular", 0, 1) ? IRR : UNI, DERIV); } \
    JOB(spl_o##o) { d1<o>(o + 1, o + 3, IRR, SPLINE); } JOB(sder_o##o) { d1<o>(o + 1, o + 2, UNI, SDERIV); } \
    JOB(build_o##o) { build1<o>(o + 1, 2 * o + 10, pick("irregular", 0, 1) ? IRR : UNI); } \
    JOB(T_val_o##o) { d1<o>(o + 4, o + 9, pick("irregular", 0, 1) ? IRR : UNI, VALUE); } JOB(T_spl_o##o) { d1<o>(o + 4, o + 8, IRR, SPLINE); } \
    JOB(T_der_o##o) { d1<o>(o + 3, o + 6, pick("irregular", 0, 1) ? IRR2 : UNI, DERIV); } JOB(T_build_o##o) { build1<o>(20, 70, pick("irregular", 0, 1) ? IRR : UNI); }
#if !defined(SLICE) || SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(val_o3f) { d1<3, float, float>(4, 6, UNI, VALUE); }
JOB(der_o2f) { d1<2, float, float>(3, 5, UNI, DERIV); }
#endif
#if !defined(SLICE) || SLICE == 1
D1(4) D1(5)
#ifdef INTP_CELL_LAYOUT
JOB(proxy_o3) { proxy<double, 1, 3>({{axis(pick("n", 4, 6), pick("periodic", 0, 1), IRR)}}); }
JOB(proxy_o2) { proxy<double, 1, 2>({{axis(pick("n", 3, 5), pick("periodic", 0, 1), IRR)}}); }
#endif
#endif
#if !defined(SLICE) || SLICE == 2
JOB(d2_val_o2) { any<double, double, 2, 2>({{axis(4, pick("periodic0", 0, 1), UNI), axis(3, pick("periodic1", 0, 1), IRR)}}, VALUE); }
JOB(d2_der_o1) { any<double, double, 2, 1>({{axis(3, pick("periodic0", 0, 1), UNI), axis(4, pick("periodic1", 0, 1), UNI)}}, DERIV); }
JOB(d2_spl_o1) { any<double, double, 2, 1>({{axis(3, pick("periodic0", 0, 1), UNI), axis(3, pick("periodic1", 0, 1), IRR)}}, SPLINE); }
JOB(d3_val_o1) { any<double, double, 3, 1>({{axis(3, pick("periodic0", 0, 1), UNI), axis(2, true, UNI), axis(3, pick("periodic2", 0, 1), IRR)}}, VALUE); }
JOB(d3_der_o1) { any<double, double, 3, 1>({{axis(2, false, UNI), axis(3, true, UNI), axis(3, pick("periodic2", 0, 1), IRR)}}, DERIV); }
JOB(T_d3_val_o2) { any<double, double, 3, 2>({{axis(3, false, UNI), axis(3, true, UNI), axis(3, false, UNI)}}, VALUE); }
template <size_t D, size_t O> void buildN(const std::array<Axis, D>& ax) {
    Fn<double, double, D, O> s(ax);
    std::array<double, D> x;
    for (size_t d = 0; d < D; ++d) x[d] = ax[d].c[0];
    sym_use(s.fn(x));
    sym_reach("buildN");
}
JOB(build2_o3) { size_t n = pick("n", 4, 8); buildN<2, 3>({{axis(n, pick("periodic0", 0, 1), UNI), axis(12 - n, pick("periodic1", 0, 1), IRR)}}); }
JOB(build3_o2) { size_t n = pick("n", 3, 6); buildN<3, 2>({{axis(n, pick("periodic0", 0, 1), UNI), axis(9 - n, pick("periodic1", 0, 1), UNI), axis(4, pick("periodic2", 0, 1), UNI)}}); }
#endif
