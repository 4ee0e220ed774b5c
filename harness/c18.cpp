// C18 (assertions enabled): invalid input is rejected with an exception, valid input never is.
#include "sym.h"
#include <string>
// the text of an error message is irrelevant here: do not split cases over the digits of a symbolic index
namespace std { inline string sym_to_string(unsigned long v) { return sym_is_symbolic(v) ? string("?") : to_string(v); } }
#define to_string sym_to_string
#include "common.hpp"
#include <BandLU.hpp>
#include <BandMatrix.hpp>
#include <BSpline.hpp>
#include <Mesh.hpp>
#include <limits>
using namespace H;
template <class F> bool rejected(F&& f) {
    try { f(); } catch (const std::runtime_error&) { return true; } catch (const std::logic_error&) { return true; } catch (const std::bad_alloc&) { return true; }
    return false;
}
template <size_t O> using Tm = intp::InterpolationFunctionTemplate<double, 1, O>;
template <size_t O> using Fn = intp::InterpolationFunction<double, 1, O>;
using It = std::vector<double>::const_iterator;
// a list with one arbitrary coordinate, at any place
template <size_t O> void order1(size_t n, bool per) {
    Axis a = axis(n, per, IRR, "c", true);
    size_t k = pick("place", 0, a.c.size() - 1);
    double y = sym_real("y");
    sym_div_nonzero(1);
    bool good = (k == 0 || y > a.c[k - 1]) && (k + 1 == a.c.size() || y < a.c[k + 1]);
    a.c[k] = y;
    std::array<Axis, 1> ax{{a}};
    intp::Mesh<double, 1> m = meshOf<double, 1>(ax, SymData<1>(ax));
    size_t way = pick("way", 0, 1);
    bool r = way ? rejected([&] { Fn<O> f({{per}}, m, std::make_pair(a.c.cbegin(), a.c.cend())); })
                 : rejected([&] { Tm<O> t({{per}}, intp::MeshDimension<1>(lens(ax)), std::make_pair(a.c.cbegin(), a.c.cend())); });
    sym_check(r == !good, "not increasing iff rejected");
    sym_reach("order1");
}
// all coordinates arbitrary
template <size_t O> void orderAll(size_t n, bool per) {
    std::vector<double> c;
    bool good = true;
    sym_div_nonzero(1);
    size_t len = per ? n + 1 : n;
    for (size_t i = 0; i < len; ++i) c.push_back(sym_real_idx("c", i));
    for (size_t i = 0; i + 1 < len; ++i) good = good && c[i] < c[i + 1];
    bool r = rejected([&] { Tm<O> t({{per}}, intp::MeshDimension<1>(n + (per ? DUMMY : 0)), std::make_pair(c.cbegin(), c.cend())); });
    sym_check(r == !good, "not increasing iff rejected");
    sym_reach("orderAll");
}
// second or third dimension
template <size_t O> void orderD() {
    Axis a = axis(O + 2, pick("periodic0", 0, 1), UNI), b = axis(O + 1, pick("periodic1", 0, 1), IRR, "c", true), c = axis(O + 1, false, IRR2, "c", true);
    size_t w = pick("dimension", 0, 1);
    Axis& bad = w ? c : b;
    size_t k = pick("place", 0, bad.c.size() - 1);
    double y = sym_real("y");
    sym_div_nonzero(1);
    bool good = (k == 0 || y > bad.c[k - 1]) && (k + 1 == bad.c.size() || y < bad.c[k + 1]);
    bad.c[k] = y;
    std::array<Axis, 3> ax{{a, b, c}};
    bool r = rejected([&] { intp::InterpolationFunctionTemplate<double, 3, O> t(perOf(ax), intp::MeshDimension<3>(lens(ax)), std::make_pair(a.lo(), a.hi()), std::make_pair(b.c.cbegin(), b.c.cend()), std::make_pair(c.c.cbegin(), c.c.cend())); });
    sym_check(r == !good, "not increasing iff rejected");
    sym_reach("orderD");
}
// list length against mesh extent
template <size_t O> void length() {
    bool per = pick("periodic", 0, 1);
    size_t want = pick("n", O + 1, O + 3), got = pick("got", 0, O + 6);
    size_t need = per ? want + 1 : want;
    std::vector<double> c;
    for (size_t i = 0; i < got; ++i) c.push_back((double)(i * i) * .25 + (double)i);
    bool r = rejected([&] { Tm<O> t({{per}}, intp::MeshDimension<1>(want + (per ? DUMMY : 0)), std::make_pair(c.cbegin(), c.cend())); });
    sym_check(r == (got != need), "wrong length iff rejected");
    Axis a = axis(O + 1, !per, UNI);
    r = rejected([&] { intp::InterpolationFunctionTemplate<double, 2, O> t({{!per, per}}, intp::MeshDimension<2>(a.dataLen(), want + (per ? DUMMY : 0)), std::make_pair(a.lo(), a.hi()), std::make_pair(c.cbegin(), c.cend())); });
    sym_check(r == (got != need), "wrong length iff rejected");
    sym_reach("length");
}
// knots against control points
template <size_t O> void knotCount() {
    bool per = pick("periodic", 0, 1);
    size_t n = pick("n", O + 1, O + 3), K = pick("knots", 0, 3 * O + 6);
    std::vector<double> t;
    for (size_t i = 0; i < K; ++i) t.push_back((double)i);
    using S1 = intp::BSpline<double, 1, O>;
    using S2 = intp::BSpline<double, 2, O>;
    typename S1::ControlPointContainer c{intp::MeshDimension<1>(n)};
    bool good = K == n + (per ? 2 * O + 1 : O + 1);
    bool r = rejected([&] { S1 s({{per}}, c, std::make_pair(t.cbegin(), t.cend())); });
    sym_check(r == !good, "knot count");
    std::vector<double> u;
    for (size_t i = 0; i < 2 * O + 3; ++i) u.push_back((double)i);
    typename S2::ControlPointContainer c2{intp::MeshDimension<2>(O + 2, n)}, c3{intp::MeshDimension<2>(n, O + 2)};
    r = rejected([&] { S2 s({{false, per}}, c2, std::make_pair(u.cbegin(), u.cend()), std::make_pair(t.cbegin(), t.cend())); });
    sym_check(r == !good, "knot count, second dimension");
    r = rejected([&] { S2 s({{per, false}}, c3, std::make_pair(t.cbegin(), t.cend()), std::make_pair(u.cbegin(), u.cend())); });
    sym_check(r == !good, "knot count, first dimension");
    sym_reach("knots");
}
static const char* const IN[] = {"i0", "i1", "i2", "i3"};
template <size_t D, size_t... I> void meshIndex(intp::util::index_sequence<I...>, std::array<size_t, D> n) {
    intp::Mesh<double, D> m{intp::MeshDimension<D>(n)};
    const intp::Mesh<double, D>& cm = m;
    std::array<size_t, D> i;
    bool in = true;
    for (size_t d = 0; d < D; ++d) i[d] = sym_u64(IN[d], 0, ~0ull);
    for (size_t d = 0; d < D; ++d) in = in & (i[d] < n[d]);
    size_t w = pick("way", 0, 5);
    bool r = false;
    size_t dir = w >= 3 ? pick("direction", 0, D - 1) : 0;
    if (w >= 3) { in = true; for (size_t d = 0; d < D; ++d) if (d != dir) in = in & (i[d] < n[d]); }
    if (w == 0) r = rejected([&] { m(i[I]...) = 1; });
    if (w == 1) r = rejected([&] { sym_use(cm(i[I]...)); });
    if (w == 2) r = rejected([&] { (void)m.dimension().indexing_safe(i[I]...); });
    if (w == 3) r = rejected([&] { *m.begin(dir, i) = 1; });
    if (w == 4) r = rejected([&] { sym_use(*cm.begin(dir, i)); });
    if (w == 5) { r = rejected([&] { (void)m.dimension().indexing_safe(i); }); in = true; for (size_t d = 0; d < D; ++d) in = in & (i[d] < n[d]); }
    sym_check(r == !in, "index outside the extents iff rejected");
    sym_reach("index");
}
template <size_t D> void mesh(std::array<size_t, D> n) { meshIndex<D>(intp::util::make_index_sequence<D>{}, n); }
// elements of the matrix outside its bands
inline void band(size_t nmax, size_t wmax) {
    size_t n = pick("n", 1, nmax), p = pick("lower", 0, std::min(n - 1, wmax)), q = pick("upper", 0, std::min(n - 1, wmax));
    intp::BandMatrix<double> m(n, p, q);
    const intp::BandMatrix<double>& cm = m;
    size_t i = pick("i", 0, n - 1), j = pick("j", 0, n - 1);
    bool in = i <= j + p && j <= i + q;
    sym_check(rejected([&] { m(i, j) = 1; }) == !in, "band matrix element");
    sym_check(rejected([&] { sym_use(cm(i, j)); }) == !in, "band matrix element");
    if (n >= p + q + 1) {
        intp::ExtendedBandMatrix<double> e(n, p, q);
        const intp::ExtendedBandMatrix<double>& ce = e;
        bool right = j >= n - p && j > i + q, bottom = i >= n - q && i > j + p;
        sym_check(rejected([&] { e.main_bands_val(i, j) = 1; }) == !in, "main band element");
        sym_check(rejected([&] { sym_use(ce.main_bands_val(i, j)); }) == !in, "main band element");
        sym_check(rejected([&] { e.side_bands_val(i, j) = 1; }) == !(right || bottom), "side band element");
        sym_check(rejected([&] { sym_use(ce.side_bands_val(i, j)); }) == !(right || bottom), "side band element");
        sym_check(rejected([&] { e(i, j) = 1; }) == !(in || right || bottom), "extended matrix element");
        sym_check(rejected([&] { sym_use(ce(i, j)); }) == !(in || right || bottom), "extended matrix element");
    }
    sym_reach("band");
}
// valid use: nothing is rejected
template <size_t D, size_t O> void valid(const std::array<Axis, D>& ax) {
    SymData<D> f(ax);
    bool r = rejected([&] {
        auto fn = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, f));
        std::array<double, D> x = anyCoords<D>(ax, O);
        std::array<size_t, D> k;
        k.fill(1);
        sym_use(fn(x));
        sym_use(fn.derivative(x, k));
        sym_use(fn.spline()(x));
        try { sym_use(fn.at(x)); } catch (const std::domain_error&) {}
        auto g = fn;
        g = fn;
    });
    sym_check(!r, "valid input accepted");
    sym_reach("valid");
}
#define PER pick("periodic", 0, 1)
#define D1(o) JOB(valid_o##o##_uni) { valid<1, o>({{axis(pick("n", o + 1, o + 6), PER, UNI)}}); } JOB(valid_o##o##_irr) { valid<1, o>({{axis(pick("n", o + 1, o + 6), PER, IRR)}}); } \
    JOB(length_o##o) { length<o>(); } JOB(knots_o##o) { knotCount<o>(); } JOB(order_o##o) { order1<o>(pick("n", o + 1, o + 3), PER); }
#if SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(order_long_o3) { order1<3>(9, PER); }
JOB(order_long_o1) { order1<1>(20, PER); }
JOB(order_long_o2) { order1<2>(11, PER); }
JOB(valid_long_o3) { valid<1, 3>({{axis(33, PER, UNI)}}); }
JOB(valid_long_o2) { valid<1, 2>({{axis(40, PER, IRR)}}); }
JOB(order_all_o0) { orderAll<0>(pick("n", 1, 4), PER); }
JOB(order_all_o1) { orderAll<1>(pick("n", 2, 4), PER); }
JOB(order_all_o2) { orderAll<2>(3, PER); }
JOB(order_d3_o1) { orderD<1>(); }
JOB(T_order_d3_o2) { orderD<2>(); }
JOB(mesh1) { mesh<1>({{pick("n", 1, 5)}}); }
JOB(mesh2) { mesh<2>({{pick("n0", 1, 3), pick("n1", 1, 3)}}); }
JOB(mesh3) { mesh<3>({{2, 3, pick("n2", 1, 3)}}); }
JOB(mesh4) { mesh<4>({{2, 1, 3, 2}}); }
JOB(bands) { band(6, 3); }
JOB(T_bands) { band(10, 5); }
#else
D1(4) D1(5)
JOB(valid2_o2) { bool p = PER; valid<2, 2>({{axis(3, p, UNI), axis(4, !p, IRR)}}); }
JOB(valid3_o1) { bool p = PER; valid<3, 1>({{axis(2, p, UNI), axis(3, !p, IRR), axis(2, p, UNI)}}); }
JOB(T_valid2_o3) { valid<2, 3>({{axis(4, pick("periodic0", 0, 1), UNI), axis(5, pick("periodic1", 0, 1), IRR)}}); }
#endif
