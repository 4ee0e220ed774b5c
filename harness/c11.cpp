// C11: tensor product structure: permuting the axes permutes the arguments; product data give the product of
// one-dimensional interpolants.
#include "common.hpp"
using namespace H;
template <class T, size_t D> std::array<T, D> perm(const std::array<T, D>& a, const std::array<size_t, D>& p) { std::array<T, D> r; for (size_t d = 0; d < D; ++d) r[d] = a[p[d]]; return r; }
inline std::array<size_t, 2> permutation(std::array<size_t, 2>) { return {{1, 0}}; }
inline std::array<size_t, 3> permutation(std::array<size_t, 3>) {
    static const size_t P[5][3] = {{1, 0, 2}, {2, 1, 0}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}};
    size_t w = pick("permutation", 0, 4);
    return {{P[w][0], P[w][1], P[w][2]}};
}
inline std::array<size_t, 4> permutation(std::array<size_t, 4>) { return pick("permutation", 0, 1) ? std::array<size_t, 4>{{3, 0, 1, 2}} : std::array<size_t, 4>{{0, 3, 2, 1}}; }
// derivative orders: none, one dimension, or all
template <size_t D> std::array<size_t, D> orders(size_t O) {
    std::array<size_t, D> k;
    size_t m = pick("orders", 0, 2);
    for (size_t d = 0; d < D; ++d) k[d] = O == 0 || m == 0 ? 0 : m == 1 ? (d == 0 ? O : 0) : (d == D - 1 && O > 1 ? 2 : 1);
    return k;
}
template <class T, class U, size_t D, size_t O> void swapAxes(const std::array<Axis, D>& ax) {
    SymData<D> f(ax);
    std::array<size_t, D> p = permutation(std::array<size_t, D>{}), q;
    for (size_t d = 0; d < D; ++d) q[p[d]] = d;
    std::array<Axis, D> bx = perm(ax, p);
    auto fn = MakeD<T, D, O, U>::go(ax, meshOf<T, D>(ax, f));
    auto gn = MakeD<T, D, O, U>::go(bx, meshOf<T, D>(bx, [&](const std::array<size_t, D>& i) { return f(perm(i, q)); }, "dummy2"));
    std::array<size_t, D> j, k = orders<D>(O);
    std::array<double, D> x = pieceCoords<D>(ax, O, j);
    for (size_t d = 0; d < D; ++d) {
        sym_check_eq(gn.range(d).first, fn.range(p[d]).first, "range");
        sym_check_eq(gn.range(d).second, fn.range(p[d]).second, "range");
        sym_check(gn.periodicity(d) == ax[p[d]].per && gn.uniform(d) == ax[p[d]].uni, "kind of boundary");
    }
    std::array<U, D> xu = castTo<U>(x), xp = perm(xu, p);
    bool zero = true;
    for (size_t d = 0; d < D; ++d) zero = zero && !k[d];
    if (zero) { sym_check_eq(gn(xp), fn(xu), "permuted value"); }
    else sym_check_eq(gn.derivative(xp, perm(k, p)), fn.derivative(xu, k), "permuted derivative");
    sym_reach("swap");
}
template <size_t D, size_t O> void product(const std::array<Axis, D>& ax) {
    static const char* const NM[] = {"u", "v", "w", "z"};
    auto fn = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, [&](const std::array<size_t, D>& i) { double r = 1; for (size_t d = 0; d < D; ++d) r *= sym_real_idx(NM[d], i[d]); return r; }));
    std::array<size_t, D> j, k = orders<D>(O);
    std::array<double, D> x = pieceCoords<D>(ax, O, j);
    double r = 1;
    for (size_t d = 0; d < D; ++d) {
        std::array<Axis, 1> a{{ax[d]}};
        auto f1 = make1<double, O, double>(ax[d], meshOf<double, 1>(a, SymData<1>(a, NM[d]), "dummy1"));
        r *= f1.derivative(std::array<double, 1>{{x[d]}}, std::array<size_t, 1>{{k[d]}});
    }
    bool zero = true;
    for (size_t d = 0; d < D; ++d) zero = zero && !k[d];
    sym_check_eq(zero ? fn(x) : fn.derivative(x, k), r, "product");
    sym_reach("product");
}
#define PER(s) pick("periodic" s, 0, 1)
#if SLICE == 0
JOB(p2_o0) { swapAxes<double, double, 2, 0>({{axis(2, PER("0"), UNI), axis(3, PER("1"), IRR)}}); }
JOB(p2_o1) { swapAxes<double, double, 2, 1>({{axis(2, PER("0"), IRR), axis(4, PER("1"), UNI)}}); }
JOB(p2_o2) { swapAxes<double, double, 2, 2>({{axis(3, PER("0"), UNI), axis(5, PER("1"), IRR)}}); }
JOB(p2_o3) { bool p = PER("0"); swapAxes<double, double, 2, 3>({{axis(4, p, IRR), axis(6, !p, UNI)}}); }
JOB(p2_o4) { bool p = PER("0"); swapAxes<double, double, 2, 4>({{axis(6, p, UNI), axis(5, !p, UNI)}}); }
JOB(p2_o2float) { swapAxes<float, float, 2, 2>({{axis(3, PER("0"), UNI), axis(4, PER("1"), UNI)}}); }
JOB(p2_o2_long) { bool p = PER("0"); swapAxes<double, double, 2, 2>({{axis(3, !p, UNI), axis(10, p, UNI)}}); }
JOB(T_p2_o1_long) { bool p = PER("0"); swapAxes<double, double, 2, 1>({{axis(34, p, UNI), axis(2, false, UNI)}}); }
JOB(T_p2_o5) { swapAxes<double, double, 2, 5>({{axis(7, PER("0"), IRR), axis(6, PER("1"), UNI)}}); }
JOB(T_p2_o3) { swapAxes<double, double, 2, 3>({{axis(4, PER("0"), IRR), axis(7, PER("1"), UNI)}}); }
#elif SLICE == 1
JOB(p3_o1) { bool p = PER("0"); swapAxes<double, double, 3, 1>({{axis(2, p, UNI), axis(3, !p, IRR), axis(4, false, UNI)}}); }
JOB(p3_o1b) { swapAxes<double, double, 3, 1>({{axis(3, true, UNI), axis(2, true, UNI), axis(2, false, UNI)}}); }
JOB(p3_o2) { swapAxes<double, double, 3, 2>({{axis(3, false, UNI), axis(4, true, UNI), axis(3, false, IRR)}}); }
JOB(T_p3_o2) { swapAxes<double, double, 3, 2>({{axis(3, PER("0"), UNI), axis(4, PER("1"), UNI), axis(5, PER("2"), IRR)}}); }
JOB(p4_o1) { bool p = PER("0"); swapAxes<double, double, 4, 1>({{axis(2, p, UNI), axis(3, !p, UNI), axis(2, !p, UNI), axis(2, false, UNI)}}); }
JOB(T_p4_o1) { swapAxes<double, double, 4, 1>({{axis(2, PER("0"), UNI), axis(3, PER("1"), UNI), axis(2, PER("2"), UNI), axis(4, PER("3"), UNI)}}); }
#else
JOB(t2_o1) { product<2, 1>({{axis(2, PER("0"), UNI), axis(4, PER("1"), IRR)}}); }
JOB(t2_o2) { product<2, 2>({{axis(3, PER("0"), IRR), axis(5, PER("1"), UNI)}}); }
JOB(t2_o3) { product<2, 3>({{axis(5, PER("0"), UNI), axis(4, PER("1"), UNI)}}); }
JOB(t2_o4) { bool p = PER("0"); product<2, 4>({{axis(5, p, UNI), axis(7, !p, IRR)}}); }
JOB(T_t2_o3_long) { bool p = PER("0"); product<2, 3>({{axis(4, p, UNI), axis(17, !p, UNI)}}); }
JOB(t2_o1_long) { bool p = PER("0"); product<2, 1>({{axis(12, p, UNI), axis(2, !p, UNI)}}); }
JOB(t2_o2_long) { bool p = PER("0"); product<2, 2>({{axis(10, p, UNI), axis(3, p, UNI)}}); }
JOB(t3_o1) { product<3, 1>({{axis(2, PER("0"), UNI), axis(3, PER("1"), IRR), axis(4, PER("2"), UNI)}}); }
JOB(t3_o2) { bool p = PER("0"); product<3, 2>({{axis(3, p, UNI), axis(4, !p, UNI), axis(3, true, IRR)}}); }
JOB(T_t3_o3) { bool p = PER("0"); product<3, 3>({{axis(4, p, UNI), axis(5, !p, UNI), axis(4, true, IRR)}}); }
JOB(T_t4_o1) { product<4, 1>({{axis(2, PER("0"), UNI), axis(3, PER("1"), UNI), axis(2, PER("2"), UNI), axis(4, PER("3"), UNI)}}); }
#endif
