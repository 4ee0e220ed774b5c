// C06: range-checked access throws exactly outside the range.
#include "common.hpp"
using namespace H;
static const char* const KN[] = {"k0", "k1", "k2"};
template <class T, class U, size_t D, size_t O> void rc(const std::array<Axis, D>& ax) {
    SymData<D> f(ax);
    auto fn = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, f));
    bool outside = false;
    std::array<U, D> x;
    std::array<size_t, D> k;
    size_t free = pick("free", 0, D - 1);
    for (size_t d = 0; d < D; ++d) {
        if (!ax[d].per) {
            sym_check_eq(static_cast<double>(fn.range(d).first), ax[d].lo(), "range begin");
            sym_check_eq(static_cast<double>(fn.range(d).second), ax[d].hi(), "range end");
            sym_check_eq(static_cast<double>(fn.spline().range(d).first), ax[d].lo(), "spline range begin");
            sym_check_eq(static_cast<double>(fn.spline().range(d).second), ax[d].hi(), "spline range end");
        }
        sym_check(fn.periodicity(d) == ax[d].per, "periodicity");
        double xd = anyCoord(ax[d], XN[d]);
        if (D > 1 && d != free && !ax[d].per && pick("hold", 0, 1)) { sym_assume(xd >= ax[d].lo()); sym_assume(xd <= ax[d].c[1]); }
        x[d] = static_cast<U>(xd);
        if (!ax[d].per && (xd < ax[d].lo() || xd > ax[d].hi())) outside = true;
        k[d] = D > 1 ? (d + free) % 2 : pick(KN[d], 0, 1);
    }
    double v = 0, w = 0;
    auto call = [&](double& r, std::function<double()> g) {
        try { r = g(); } catch (const std::domain_error&) { return true; }
        return false;
    };
    // checked first, so that throwing paths end early
    bool tv = call(v, [&]() { return static_cast<double>(fn.at(x)); });
    sym_check(tv == outside, "at throws iff outside");
    if (!tv) sym_check_eq(v, static_cast<double>(fn(x)), "at returns the value");
    bool td = call(w, [&]() { return static_cast<double>(fn.derivative_at(x, k)); });
    sym_check(td == outside, "derivative_at throws iff outside");
    if (!td) sym_check_eq(w, static_cast<double>(fn.derivative(x, k)), "derivative_at returns the derivative");
    sym_reach(outside ? "outside" : "inside");
}
template <class F> double atArgs(const F& f, const std::array<double, 1>& x) { return f.at(x[0]); }
template <class F> double atArgs(const F& f, const std::array<double, 2>& x) { return f.at(x[0], x[1]); }
template <class F> double dAtPairs(const F& f, const std::array<double, 1>& x) { return f.derivative_at(std::make_pair(x[0], 1)); }
template <class F> double dAtPairs(const F& f, const std::array<double, 2>& x) { return f.derivative_at(std::make_pair(x[0], 1), std::make_pair(x[1], 0)); }
template <class F> double dAtArgs(const F& f, const std::array<double, 1>& x) { return f.derivative_at(x, 1); }
template <class F> double dAtArgs(const F& f, const std::array<double, 2>& x) { return f.derivative_at(x, 1, 0); }
template <class F> double dRef(const F& f, const std::array<double, 1>& x) { return f.derivative(x, std::array<size_t, 1>{{1}}); }
template <class F> double dRef(const F& f, const std::array<double, 2>& x) { return f.derivative(x, std::array<size_t, 2>{{1, 0}}); }
// the other overloads
template <size_t D, size_t O> void over(const std::array<Axis, D>& ax) {
    SymData<D> f(ax);
    auto fn = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, f));
    bool outside = false;
    std::array<double, D> x;
    for (size_t d = 0; d < D; ++d) {
        x[d] = anyCoord(ax[d], XN[d]);
        if (!ax[d].per && (x[d] < ax[d].lo() || x[d] > ax[d].hi())) outside = true;
    }
    int which = static_cast<int>(pick("overload", 0, 2));
    double v = 0;
    bool thrown = false;
    try { v = which == 0 ? atArgs(fn, x) : which == 1 ? dAtPairs(fn, x) : dAtArgs(fn, x); } catch (const std::domain_error&) { thrown = true; }
    sym_check(thrown == outside, "overload throws iff outside");
    if (!thrown) sym_check_eq(v, which == 0 ? fn(x) : dRef(fn, x), "overload returns the value");
    sym_reach("over");
}
// IEEE doubles: the same decision for every double (NaN aside), for ranges whose ends are not representable sums
template <class U, size_t O> void ieee(const std::vector<double>& data, double lo, double hi, const std::vector<double>& listed) {
    intp::Mesh<double, 1> m(data.size());
    for (size_t i = 0; i < data.size(); ++i) m(i) = data[i];
    bool list = pick("listed", 0, 1);
    using F = intp::InterpolationFunction<double, 1, O, U>;
    F fn = list ? F({{false}}, m, std::make_pair(listed.begin(), listed.end())) : F({{false}}, m, std::make_pair(lo, hi));
    U a = static_cast<U>(list ? listed.front() : lo), b = static_cast<U>(list ? listed.back() : hi);
    U x = static_cast<U>(sym_fp("x"));
    sym_assume(!(x != x));
    sym_check(fn.range(0).first == a && fn.range(0).second == b, "range, IEEE");
    bool t1 = false, t2 = false;
    try { sym_use(fn.at(x)); } catch (const std::domain_error&) { t1 = true; }
    bool out = x < a || x > b;
    sym_check(t1 == out, "at throws iff outside, IEEE");
    try { sym_use(fn.derivative_at(std::make_pair(x, 1))); } catch (const std::domain_error&) { t2 = true; }
    sym_check(t2 == out, "derivative_at throws iff outside, IEEE");
    sym_reach("ieee");
}
template <class U, size_t O> void ieees() {
    size_t n = pick("n", O + 1, O + 4);
    static const double lo[] = {.1, -1. / 3, 1e10, -.7, 2.5e-300}, hi[] = {.7, 1e-3, 1e10 + 7.3, -.1, 1e300};
    size_t r = pick("ends", 0, 4);
    if (sizeof(U) == 4 && r > 1) r = 3;
    std::vector<double> d, c;
    for (size_t i = 0; i < n; ++i) { d.push_back(1. / (double)(i + 3)); c.push_back(lo[r] + (hi[r] - lo[r]) * ((double)i * (double)(i + 3)) / 17.); }
    ieee<U, O>(d, lo[r], hi[r], c);
}
// IEEE: symbolic range ends
template <size_t O> void ieeeRange() {
    double lo = sym_fp("lo"), hi = sym_fp("hi");
    sym_assume(lo < hi && lo > -1e100 && hi < 1e100);
    size_t n = O + 2;
    intp::Mesh<double, 1> m(n);
    for (size_t i = 0; i < n; ++i) m(i) = 0.;
    intp::InterpolationFunction<double, 1, O> fn({{false}}, m, std::make_pair(lo, hi));
    sym_check(fn.range(0).first == lo, "range begin, IEEE, any ends");
    sym_check(fn.range(0).second == hi, "range end, IEEE, any ends");
    sym_reach("ieeeRange");
}
template <size_t O, class T = double, class U = double> void d1(size_t lo, size_t hi, Kind k, bool listed = false) {
    bool per = pick("periodic", 0, 1);
    rc<T, U, 1, O>({{axis(pick("n", lo, hi), per, k, "c", listed)}});
}
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 1, o + 6, UNI); } JOB(d1_o##o##_irr) { d1<o>(o + 1, o + 6, IRR); } JOB(T_d1_o##o##_big) { d1<o>(16, 24, UNI); } JOB(T_d1_o##o##_list) { d1<o>(o + 1, o + 9, IRR2, true); }
#if !defined(SLICE) || SLICE == 0
D1(0) D1(1) D1(2) D1(3) D1(4) D1(5) D1(6)
JOB(d1_o3_n40) { d1<3>(40, 40, UNI); }
JOB(d1_o1_n66) { d1<1>(66, 66, IRR); }
JOB(d1_o2_n34) { d1<2>(34, 34, UNI); }
JOB(d1_o7_uni) { d1<7>(8, 10, UNI); }
JOB(d1_o1_sym) { d1<1>(2, 5, SYMC); }
JOB(d1_o2_sym1) { d1<2>(3, 5, SYM1); }
JOB(d1_o2_symu) { d1<2>(3, 5, SYMU); }
JOB(d1_o3_symu) { d1<3>(4, 6, SYMU); }
JOB(d1_o4_symu) { d1<4>(5, 7, SYMU); }
JOB(d1_o3_float) { d1<3, float, float>(4, 7, UNI); }
JOB(d1_o2_float) { d1<2, float, float>(3, 6, IRR); }
JOB(over1_o3) { over<1, 3>({{axis(6, pick("periodic", 0, 1), UNI)}}); }
JOB(over1_o2) { over<1, 2>({{axis(4, pick("periodic", 0, 1), IRR)}}); }
#endif
#if !defined(SLICE) || SLICE == 1
JOB(over2_o1) { over<2, 1>({{axis(3, pick("periodic0", 0, 1), UNI), axis(3, pick("periodic1", 0, 1), IRR)}}); }
JOB(d2_o2_ui) { rc<double, double, 2, 2>({{axis(3, pick("periodic0", 0, 1), UNI), axis(3, pick("periodic1", 0, 1), IRR)}}); }
JOB(d2_o3_iu) { rc<double, double, 2, 3>({{axis(4, pick("periodic0", 0, 1), IRR), axis(4, pick("periodic1", 0, 1), IRR2)}}); }
JOB(d3_o1_uii) { rc<double, double, 3, 1>({{axis(2, false, UNI), axis(3, pick("periodic1", 0, 1), IRR), axis(3, false, IRR)}}); }
JOB(d3_o2_iii) { rc<double, double, 3, 2>({{axis(3, true, IRR), axis(3, false, IRR), axis(4, false, IRR)}}); }
#endif
#if defined(SLICE) && SLICE == 9
JOB(ieee_o0) { ieees<double, 0>(); }
JOB(ieee_o1) { ieees<double, 1>(); }
JOB(ieee_o2) { ieees<double, 2>(); }
JOB(ieee_o3) { ieees<double, 3>(); }
JOB(ieee_o4) { ieees<double, 4>(); }
JOB(T_ieee_o5) { ieees<double, 5>(); }
JOB(ieee_o2f) { ieees<float, 2>(); }
JOB(ieee_o3f) { ieees<float, 3>(); }
JOB(ieee_range_o1) { ieeeRange<1>(); }
JOB(ieee_range_o2) { ieeeRange<2>(); }
JOB(ieee_range_o3) { ieeeRange<3>(); }
#endif
