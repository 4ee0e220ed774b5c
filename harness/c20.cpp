// C20: linearity in the data, component-wise interpolation of vector data, other arithmetic types.
#include "common.hpp"
using namespace H;
// vector values with component-wise arithmetic
struct V {
    double a, b;
    V(double s = 0) : a(s), b(s) {}
    V(double x, double y) : a(x), b(y) {}
    V& operator+=(const V& o) { a += o.a; b += o.b; return *this; }
    V& operator-=(const V& o) { a -= o.a; b -= o.b; return *this; }
    V& operator*=(const V& o) { a *= o.a; b *= o.b; return *this; }
    V& operator/=(const V& o) { a /= o.a; b /= o.b; return *this; }
    V& operator*=(double s) { a *= s; b *= s; return *this; }
    V& operator/=(double s) { a /= s; b /= s; return *this; }
    friend V operator+(V l, const V& r) { return l += r; }
    friend V operator-(V l, const V& r) { return l -= r; }
    friend V operator*(V l, const V& r) { return l *= r; }
    friend V operator/(V l, const V& r) { return l /= r; }
    friend V operator*(V l, double r) { return l *= r; }
    friend V operator*(double l, V r) { return r *= l; }
    friend V operator/(V l, double r) { return l /= r; }
    friend V operator-(const V& v) { return V(-v.a, -v.b); }
    friend bool operator==(const V& l, const V& r) { return l.a == r.a && l.b == r.b; }
    friend bool operator!=(const V& l, const V& r) { return !(l == r); }
};
// vector values with scalar multiplication only (as in the repository's examples): no derivatives
struct W {
    double a, b;
    W() : a(0), b(0) {}
    W(double x, double y) : a(x), b(y) {}
    W& operator+=(const W& o) { a += o.a; b += o.b; return *this; }
    W& operator-=(const W& o) { a -= o.a; b -= o.b; return *this; }
    W& operator*=(double s) { a *= s; b *= s; return *this; }
    W& operator/=(double s) { a /= s; b /= s; return *this; }
    friend W operator+(W l, const W& r) { return l += r; }
    friend W operator-(W l, const W& r) { return l -= r; }
    friend W operator*(W l, double r) { return l *= r; }
    friend W operator*(double l, W r) { return r *= l; }
    friend W operator/(W l, double r) { return l /= r; }
    friend W operator-(const W& v) { return W(-v.a, -v.b); }
    friend bool operator==(const W& l, const W& r) { return l.a == r.a && l.b == r.b; }
    friend bool operator!=(const W& l, const W& r) { return !(l == r); }
};
template <size_t D> std::array<size_t, D> orders(size_t O) {
    std::array<size_t, D> k;
    size_t m = pick("orders", 0, D == 1 ? O : 2);
    for (size_t d = 0; d < D; ++d) k[d] = D == 1 ? m : O == 0 || m == 0 ? 0 : m == 1 ? (d == 0 ? O : 0) : 1;
    return k;
}
template <size_t D> bool allZero(const std::array<size_t, D>& k) { for (auto v : k) if (v) return false; return true; }
template <class F, size_t D> double at(const F& f, const std::array<double, D>& x, const std::array<size_t, D>& k) { return allZero(k) ? f(x) : f.derivative(x, k); }
template <size_t D, size_t O> void linear(const std::array<Axis, D>& ax) {
    SymData<D> f(ax, "f"), g(ax, "g");
    double al = sym_real("alpha"), be = sym_real("beta");
    auto F = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, f)), G = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, g, "dummy1"));
    auto Hn = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, [&](const std::array<size_t, D>& i) { return al * f(i) + be * g(i); }, "dummy2"));
    std::array<size_t, D> j, k = orders<D>(O);
    std::array<double, D> x = pieceCoords<D>(ax, O, j);
    sym_check_eq(at(Hn, x, k), al * at(F, x, k) + be * at(G, x, k), "linear combination");
    // the zero function, and no dependence on anything but the data
    if (allZero(k)) {
        auto Z = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, [&](const std::array<size_t, D>&) { return 0.; }, "dummy3"));
        sym_check_eq(Z(x), 0, "zero data");
    }
    sym_reach("linear");
}
template <class VT, size_t D> intp::Mesh<VT, D> vmesh(const std::array<Axis, D>& ax, const SymData<D>& f, const SymData<D>& g) {
    intp::Mesh<VT, D> m{intp::MeshDimension<D>(lens(ax))};
    for (Odo<D> o(lens(ax)); !o.done; o.next()) {
        bool dm = false;
        for (size_t d = 0; d < D; ++d) if (o.i[d] >= ax[d].n) dm = true;
        m(o.i) = dm ? VT(sym_real("dummya"), sym_real("dummyb")) : VT(f(o.i), g(o.i));
    }
    return m;
}
template <size_t D, size_t O> void comps(const std::array<Axis, D>& ax) {
    SymData<D> f(ax, "f"), g(ax, "g");
    auto F = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, f)), G = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, g, "dummy1"));
    std::array<size_t, D> j, k = orders<D>(O);
    std::array<double, D> x = pieceCoords<D>(ax, O, j);
#ifndef FALLBACK  // value types that are not numbers
    {
        auto VF = MakeD<V, D, O, double>::go(ax, vmesh<V, D>(ax, f, g));
        V v = allZero(k) ? VF(x) : VF.derivative(x, k);
        sym_check_eq(v.a, at(F, x, k), "first component");
        sym_check_eq(v.b, at(G, x, k), "second component");
    }
    if (allZero(k)) {
        auto WF = MakeD<W, D, O, double>::go(ax, vmesh<W, D>(ax, f, g));
        W w = WF(x);
        sym_check_eq(w.a, F(x), "first component");
        sym_check_eq(w.b, G(x), "second component");
    }
#endif
    sym_reach("comps");
}
template <class T, class U, size_t D, size_t O> void types(const std::array<Axis, D>& ax) {
    SymData<D> f(ax, "f");
    auto F = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, f));
    auto G = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, f, "dummy1"));
    std::array<size_t, D> j, k = orders<D>(O);
    std::array<double, D> x = pieceCoords<D>(ax, O, j);
    std::array<U, D> xu = castTo<U>(x);
    sym_check_eq(allZero(k) ? G(xu) : G.derivative(xu, k), at(F, x, k), "same formula");
    sym_reach("types");
}
#define PER(s) pick("periodic" s, 0, 1)
#define A1(o, hi) {{axis(pick("n", o + 1, hi), PER(""), pick("kind", 0, 1) ? IRR : UNI)}}
#define D1(o) JOB(lin_o##o) { linear<1, o>(A1(o, o + 4)); } JOB(vec_o##o) { comps<1, o>(A1(o, o + 3)); } \
    JOB(float_o##o) { types<float, float, 1, o>(A1(o, o + 2)); } JOB(floatv_o##o) { types<float, double, 1, o>(A1(o, o + 2)); } JOB(floatc_o##o) { types<double, float, 1, o>(A1(o, o + 2)); } \
    JOB(T_lin_o##o) { linear<1, o>({{axis(pick("n", o + 5, 2 * o + 8), PER(""), pick("kind", 0, 1) ? IRR2 : UNI)}}); }
#if SLICE == 0
D1(0) D1(1) D1(2)
JOB(lin2_o1) { linear<2, 1>({{axis(2, PER("0"), IRR), axis(3, PER("1"), UNI)}}); }
JOB(lin2_o2) { linear<2, 2>({{axis(4, PER("0"), UNI), axis(3, PER("1"), UNI)}}); }
JOB(lin2_o3) { bool p = PER("0"); linear<2, 3>({{axis(4, p, UNI), axis(5, !p, IRR)}}); }
JOB(lin3_o1) { bool p = PER("0"); linear<3, 1>({{axis(2, p, UNI), axis(3, !p, UNI), axis(2, false, UNI)}}); }
JOB(T_lin3_o2) { bool p = PER("0"); linear<3, 2>({{axis(3, p, UNI), axis(4, !p, UNI), axis(3, false, UNI)}}); }
JOB(lin_long_o3) { linear<1, 3>({{axis(33, PER(""), UNI)}}); }
JOB(lin_long_o1) { linear<1, 1>({{axis(66, PER(""), UNI)}}); }
JOB(lin_long_o2) { linear<1, 2>({{axis(33, PER(""), IRR)}}); }
JOB(lin_long_o4) { linear<1, 4>({{axis(20, PER(""), UNI)}}); }
JOB(lin_long_o5) { linear<1, 5>({{axis(20, PER(""), UNI)}}); }
JOB(lin_symu_o3) { linear<1, 3>({{axis(5, PER(""), SYMU)}}); }
#else
D1(3) D1(4) D1(5)
JOB(vec2_o1) { comps<2, 1>({{axis(2, PER("0"), IRR), axis(3, PER("1"), UNI)}}); }
JOB(vec2_o2) { bool p = PER("0"); comps<2, 2>({{axis(4, p, UNI), axis(3, !p, UNI)}}); }
JOB(vec3_o1) { bool p = PER("0"); comps<3, 1>({{axis(2, p, UNI), axis(3, !p, UNI), axis(2, false, UNI)}}); }
JOB(float2_o2) { bool p = PER("0"); types<float, float, 2, 2>({{axis(4, p, UNI), axis(3, !p, IRR)}}); }
JOB(floatv2_o1) { types<float, double, 2, 1>({{axis(2, PER("0"), UNI), axis(3, PER("1"), IRR)}}); }
JOB(floatc2_o1) { types<double, float, 2, 1>({{axis(2, PER("0"), UNI), axis(3, PER("1"), IRR)}}); }
#endif
