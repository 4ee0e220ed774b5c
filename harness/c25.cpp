// C25: constant objects may be used by several threads at once: no conflicting accesses, and every thread gets the
// value it would get alone.
#include "sym.h"
#include <thread>
#include <vector>
#include "common.hpp"
#include <BandLU.hpp>
using namespace H;
template <size_t D, size_t O> using Fun = intp::InterpolationFunction<double, D, O>;
// coordinates of thread w: a symbolic coordinate within one piece (another piece, and outside the range, for the other thread)
template <size_t D, size_t O> std::array<double, D> at(const std::array<Axis, D>& ax, size_t w) {
    std::array<double, D> x;
    for (size_t d = 0; d < D; ++d) {
        auto b = breakpoints(ax[d], O);
        size_t K = b.size() - 1;
        static const char* const nm[2][3] = {{"x0", "x1", "x2"}, {"y0", "y1", "y2"}};
        size_t j = w == d % 2 ? 0 : K - 1;
        if (d == 0 || D == 1) x[d] = coordIn(ax[d], b, j, nm[w][d]);
        else x[d] = b[j] + (b[j + 1] - b[j]) * (w ? .375 : .625);
        if (w && ax[d].per) x[d] = x[d] + ax[d].period() * 2;
    }
    return x;
}
template <size_t D> std::array<size_t, D> ks(size_t v) { std::array<size_t, D> k; k.fill(0); k[0] = v; return k; }
template <size_t D> bool inside(const std::array<Axis, D>& ax, const std::array<double, D>& x) { for (size_t d = 0; d < D; ++d) if (!ax[d].per && (x[d] < ax[d].lo() || x[d] > ax[d].hi())) return false; return true; }
// what one thread does with a function; out[]: results
constexpr size_t R = 5;
template <size_t D, size_t O> void use(const Fun<D, O>& f, const std::array<double, D>& x, double* out) {
    out[0] = f(x);
    out[1] = f.derivative(x, ks<D>(1));
    out[4] = f(x);
    try { out[2] = f.at(x); out[3] = f.derivative_at(x, ks<D>(O)); } catch (const std::domain_error&) { out[2] = out[3] = 0; }
}
template <size_t D, size_t O> void compare(const std::array<Axis, D>& ax, const Fun<D, O>& ref, const std::array<double, D>& x, const double* out) {
    sym_check_eq(out[0], ref(x), "value");
    sym_check_eq(out[4], ref(x), "value-again");
    sym_check_eq(out[1], ref.derivative(x, ks<D>(1)), "derivative");
    bool in = inside<D>(ax, x);
    sym_check_eq(out[2], in ? ref(x) : 0., "checked-value");
    sym_check_eq(out[3], in ? ref.derivative(x, ks<D>(O)) : 0., "checked-derivative");
}
// one function, or two unrelated ones, used by two threads
template <size_t D, size_t O> void shared(const std::array<Axis, D>& ax, bool same) {
    SymData<D> sf(ax, "f"), sg(ax, "g");
    auto mf = meshOf<double, D>(ax, sf), mg = meshOf<double, D>(ax, sg);
    const Fun<D, O> f = MakeD<double, D, O, double>::go(ax, mf), g = MakeD<double, D, O, double>::go(ax, mg);
    const Fun<D, O>& second = same ? f : g;
    std::array<double, D> x = at<D, O>(ax, 0), y = at<D, O>(ax, 1);
    double a[R], b[R];
    std::thread t([&] { use<D, O>(second, y, b); });
    use<D, O>(f, x, a);
    t.join();
    const Fun<D, O> rf = MakeD<double, D, O, double>::go(ax, mf), rs = MakeD<double, D, O, double>::go(ax, same ? mf : mg);
    compare<D, O>(ax, rf, x, a);
    compare<D, O>(ax, rs, y, b);
    sym_reach("compared");
}
// one template, two threads interpolate; the template's functions and coordinates are read at the same time
template <size_t O> void templ(const Axis& a0) {
    std::array<Axis, 1> ax{{a0}};
    SymData<1> sf(ax, "f"), sg(ax, "g");
    auto mf = meshOf<double, 1>(ax, sf), mg = meshOf<double, 1>(ax, sg);
    const intp::InterpolationFunctionTemplate<double, 1, O> tp(a0.per, a0.dataLen(), std::make_pair(a0.lo(), a0.hi()));
    std::array<double, 1> x = at<1, O>(ax, 0), y = at<1, O>(ax, 1);
    double a = 0, b = 0;
    std::thread t([&] { Fun<1, O> g; tp.interpolate(g, mg); b = g(y); });
    Fun<1, O> f = tp.interpolate(mf);
    a = f(x);
    t.join();
    sym_check_eq(a, MakeD<double, 1, O, double>::go(ax, mf)(x), "value");
    sym_check_eq(b, MakeD<double, 1, O, double>::go(ax, mg)(y), "value");
    sym_reach("compared");
}
#ifdef INTP_CELL_LAYOUT
template <size_t O> void proxy(const Axis& a0) {  // one proxy applied by two threads to two functions
    std::array<Axis, 1> ax{{a0}};
    SymData<1> sf(ax, "f"), sg(ax, "g");
    auto mf = meshOf<double, 1>(ax, sf), mg = meshOf<double, 1>(ax, sg);
    const intp::InterpolationFunctionTemplate<double, 1, O> tp(a0.per, a0.dataLen(), std::make_pair(a0.lo(), a0.hi()));
    const Fun<1, O> f = tp.interpolate(mf), g = tp.interpolate(mg);
    std::array<double, 1> x = at<1, O>(ax, 0);
    auto p = tp.eval_proxy(x);
    double a = 0, b = 0;
    std::thread t([&] { b = p(g); });
    a = p(f);
    t.join();
    sym_check_eq(a, MakeD<double, 1, O, double>::go(ax, mf)(x), "value");
    sym_check_eq(b, MakeD<double, 1, O, double>::go(ax, mg)(x), "value");
    sym_reach("compared");
}
JOB(proxy_o3) { proxy<3>(axis(5, false, UNI)); }
JOB(proxy_periodic_o2) { proxy<2>(axis(4, true, UNI)); }
#endif
// one solver, two right-hand sides
template <class Mat> void solver(size_t n, size_t lo, size_t up) {
    Mat m(n, lo, up);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            size_t d = j > i ? j - i : i - j;
            if (j > i ? d <= up : d <= lo) m(i, j) = d ? .25 : 2.;
        }
    const intp::BandLU<Mat> s(m);
    std::vector<double> u, v;
    for (size_t i = 0; i < n; ++i) { u.push_back(sym_real_idx("u", i)); v.push_back(sym_real_idx("v", i)); }
    std::vector<double> a = u, b = v;
    std::thread t([&] { s.solve_in_place(b); });
    s.solve_in_place(a);
    t.join();
    std::vector<double> ma = m * a, mb = m * b;
    for (size_t i = 0; i < n; ++i) { sym_check_eq(ma[i], u[i], "solution"); sym_check_eq(mb[i], v[i], "solution"); }
    sym_reach("compared");
}
// mesh and spline
void mesh() {
    intp::Mesh<double, 2> m({3, 4});
    for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 4; ++j) m(i, j) = sym_real_idx("m", i * 4 + j);
    const intp::Mesh<double, 2>& c = m;
    auto sum = [&] {
        double s = 0;
        for (auto it = c.begin(); it != c.end(); ++it) { auto k = c.iter_indices(it); s += *it - c(k) + c(k[0], k[1]); }
        for (auto it = c.begin(1, {1, 0}); it != c.end(1, {1, 0}); ++it) s += *it;
        return s;
    };
    double a = 0, b = 0;
    std::thread t([&] { b = sum(); });
    a = sum();
    t.join();
    sym_check_eq(a, b, "sum");
    sym_check_eq(a, sum(), "sum");
    sym_reach("compared");
}
template <size_t O> void spline() {
    std::vector<double> kn;
    for (size_t i = 0; i <= O; ++i) kn.push_back(0);
    kn.push_back(1); kn.push_back(2.5);
    for (size_t i = 0; i <= O; ++i) kn.push_back(3);
    std::vector<double> cp;
    for (size_t i = 0; i < O + 3; ++i) cp.push_back(sym_real_idx("p", i));
    intp::Mesh<double, 1> cm(std::make_pair(cp.begin(), cp.end()));
    const intp::BSpline<double, 1, O> s(cm, std::make_pair(kn.begin(), kn.end()));
    double x = sym_real("x"), y = sym_real("y"), a = 0, b = 0;
    sym_assume(x > 0 && x < 1); sym_assume(y > 1 && y < 2.5);
    std::thread t([&] { b = s(std::array<double, 1>{{y}}); });
    a = s(std::array<double, 1>{{x}});
    t.join();
    const intp::BSpline<double, 1, O> r(cm, std::make_pair(kn.begin(), kn.end()));
    sym_check_eq(a, r(std::array<double, 1>{{x}}), "value");
    sym_check_eq(b, r(std::array<double, 1>{{y}}), "value");
    sym_reach("compared");
}
JOB(same_o0) { shared<1, 0>({{axis(3, false, UNI)}}, true); }
JOB(same_o1) { shared<1, 1>({{axis(4, pick("periodic", 0, 1), UNI)}}, true); }
JOB(same_o2) { shared<1, 2>({{axis(5, pick("periodic", 0, 1), IRR)}}, true); }
JOB(same_o3) { shared<1, 3>({{axis(6, pick("periodic", 0, 1), UNI)}}, true); }
JOB(same_o4) { shared<1, 4>({{axis(7, pick("periodic", 0, 1), IRR)}}, true); }
JOB(same_o5) { shared<1, 5>({{axis(8, pick("periodic", 0, 1), UNI)}}, true); }
JOB(same_2d_o1) { shared<2, 1>({{axis(3, pick("periodic0", 0, 1), UNI), axis(4, pick("periodic1", 0, 1), IRR)}}, true); }
JOB(same_2d_o2) { shared<2, 2>({{axis(4, false, UNI), axis(3, pick("periodic1", 0, 1), UNI)}}, true); }
JOB(same_2d_o3) { shared<2, 3>({{axis(4, false, IRR), axis(5, true, UNI)}}, true); }
JOB(same_3d_o1) { shared<3, 1>({{axis(3, false, UNI), axis(2, true, UNI), axis(2, false, IRR)}}, true); }
JOB(different_o1) { shared<1, 1>({{axis(4, pick("periodic", 0, 1), UNI)}}, false); }
JOB(different_o3) { shared<1, 3>({{axis(6, pick("periodic", 0, 1), UNI)}}, false); }
JOB(different_2d_o2) { shared<2, 2>({{axis(4, false, UNI), axis(3, pick("periodic1", 0, 1), UNI)}}, false); }
#ifndef INTP_MULTITHREAD
JOB(template_o1) { templ<1>(axis(4, pick("periodic", 0, 1), UNI)); }
JOB(template_o2) { templ<2>(axis(4, pick("periodic", 0, 1), UNI)); }
JOB(template_o3) { templ<3>(axis(6, pick("periodic", 0, 1), UNI)); }
#endif
JOB(solver_band) { solver<intp::BandMatrix<double>>(5, pick("lower", 0, 2), pick("upper", 0, 2)); }
JOB(solver_cyclic) { solver<intp::ExtendedBandMatrix<double>>(5, 1, 1); }
JOB(mesh) { mesh(); }
JOB(spline_o1) { spline<1>(); }
JOB(spline_o3) { spline<3>(); }
