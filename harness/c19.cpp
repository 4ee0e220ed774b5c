// C19: B-splines built from control points and knots: values and derivatives against the textbook basis, whatever
// the position hint; the basis values are non-negative, sum to one and vanish outside the support.
#include "common.hpp"
using namespace H;
// knots with the textbook basis
struct Kn {
    std::vector<double> t;
    size_t O;
    bool per;
    size_t n() const { return per ? t.size() - 2 * O - 1 : t.size() - O - 1; }
    size_t last() const { return t.size() - O - 2; }
    // basis functions of order m that do not vanish on [t[s], t[s+1]): functions s-m .. s, powers of x - t[s]
    std::vector<Poly> basis(size_t s, size_t m) const {
        std::vector<Poly> N(m + 1);
        for (auto& p : N) { p.x0 = t[s]; p.c.assign(m + 1, 0.); }
        N[m].c[0] = 1;
        for (size_t k = 1; k <= m; ++k) {
            std::vector<Poly> M = N;
            for (auto& p : M) std::fill(p.c.begin(), p.c.end(), 0.);
            for (size_t r = 0; r <= k; ++r) {
                size_t i = s - k + r, slot = m - k + r;
                if (r > 0) Ref1::addLin(M[slot], N[slot], 1. / (t[i + k] - t[i]), t[s] - t[i], 1.);
                if (r < k) Ref1::addLin(M[slot], N[slot + 1], 1. / (t[i + k + 1] - t[i + 1]), t[i + k + 1] - t[s], -1.);
            }
            N = M;
        }
        return N;
    }
};
enum KK { CLAMPED, FREE, DOUBLED, SYMK, EVEN };
inline Kn knots(size_t O, size_t pieces, KK kd, bool per, size_t salt = 0) {
    static const double inc[] = {1, .5, 1.25, .75, 2, .625, 1.5, .375};
    Kn k;
    k.O = O; k.per = per;
    double x = -.5;
    size_t len = pieces + 1 + 2 * O;
    for (size_t i = 0; i < len; ++i) {
        if (kd == SYMK) {
            double y = sym_real_idx("t", i);
            if (i) sym_assume(y > k.t.back());
            k.t.push_back(y);
            continue;
        }
        k.t.push_back(x);
        bool step = kd == FREE || kd == EVEN || (i >= O && i + 1 + O < len);
        if (kd == DOUBLED && i == O + 1 && O > 0 && pieces > 2) step = false;  // a double interior knot
        if (step) x += kd == EVEN ? .5 : inc[(i + salt) % 8];
    }
    if (kd == SYMK) sym_div_nonzero(1);
    return k;
}
// a coordinate of a non-empty piece
inline double inPiece(const Kn& k, const char* nm, const char* pn, size_t& s) {
    s = pick(pn, k.O, k.last());
    while (!(k.t[s] < k.t[s + 1])) --s;
    double x = sym_real(nm);
    sym_assume(x >= k.t[s]);
    if (s == k.last() && !k.per) sym_assume(x <= k.t[s + 1]); else sym_assume(x < k.t[s + 1]);
    return x;
}
template <size_t D> using CP = intp::Mesh<double, D, intp::util::default_init_allocator<double, intp::AlignedAllocator<double, intp::Alignment::AVX>>>;
using It = std::vector<double>::const_iterator;
template <size_t O> intp::BSpline<double, 1, O> build(const std::array<Kn, 1>& k, const CP<1>& c) { return intp::BSpline<double, 1, O>({{k[0].per}}, c, std::make_pair(k[0].t.begin(), k[0].t.end())); }
template <size_t O> intp::BSpline<double, 2, O> build(const std::array<Kn, 2>& k, const CP<2>& c) { return intp::BSpline<double, 2, O>({{k[0].per, k[1].per}}, c, std::make_pair(k[0].t.begin(), k[0].t.end()), std::make_pair(k[1].t.begin(), k[1].t.end())); }
template <size_t O> intp::BSpline<double, 3, O> build(const std::array<Kn, 3>& k, const CP<3>& c) { return intp::BSpline<double, 3, O>({{k[0].per, k[1].per, k[2].per}}, c, std::make_pair(k[0].t.begin(), k[0].t.end()), std::make_pair(k[1].t.begin(), k[1].t.end()), std::make_pair(k[2].t.begin(), k[2].t.end())); }
template <size_t D> size_t SymFlat(const std::array<size_t, D>& n, const std::array<size_t, D>& i) { size_t r = 0; for (size_t d = 0; d < D; ++d) r = r * n[d] + i[d]; return r; }
static const char* const HN[] = {"hint0", "hint1", "hint2"};
template <size_t D, size_t O> void direct(const std::array<Kn, D>& k, size_t kmax) {
    std::array<size_t, D> n;
    for (size_t d = 0; d < D; ++d) n[d] = k[d].n();
    CP<D> cp{intp::MeshDimension<D>(n)};
    for (Odo<D> o(n); !o.done; o.next()) cp(o.i) = sym_real_idx("cp", o.flat);
    intp::BSpline<double, D, O> sp = build<O>(k, cp);
    size_t loaded = pick("loaded", 0, 1);
    if (loaded) {  // the two-step way
        std::array<bool, D> per;
        for (size_t d = 0; d < D; ++d) per[d] = k[d].per;
        intp::BSpline<double, D, O> s2(per);
        for (size_t d = D; d-- > 0;) { std::vector<double> t = k[d].t; s2.load_knots(d, std::move(t)); }
        s2.load_ctrlPts(cp);
        sp = s2;
    }
    std::array<size_t, D> s, q;
    std::array<double, D> x;
    std::array<std::pair<double, size_t>, D> xh, xk;
    std::array<std::tuple<double, size_t, size_t>, D> xhk;
    size_t m = loaded ? pick("order", 0, 1) : pick("order", 0, D == 1 ? kmax : kmax ? 2 : 0);
    size_t free = pick("free", 0, D - 1);
    for (size_t d = 0; d < D; ++d) {
        if (d == free) x[d] = inPiece(k[d], XN[d], PN[d], s[d]);
        else { s[d] = O + (k[d].last() - O) / 2; while (!(k[d].t[s[d]] < k[d].t[s[d] + 1])) --s[d]; x[d] = sym_real(XN[d]); sym_assume(x[d] >= k[d].t[s[d]] && x[d] < k[d].t[s[d] + 1]); }
        q[d] = D == 1 ? m : m == 0 ? 0 : m == 1 ? (d == free ? kmax : 0) : 1;
        size_t h = loaded ? O : D == 1 ? pick(HN[d], O, k[d].last()) : d == free ? (pick(HN[d], 0, 1) ? k[d].last() : O) : k[d].last();
        xh[d] = std::make_pair(x[d], h);
        xk[d] = std::make_pair(x[d], q[d]);
        xhk[d] = std::make_tuple(x[d], h, q[d]);
        sym_check_eq(sp.range(d).first, k[d].t[O], "range begin");
        sym_check_eq(sp.range(d).second, k[d].t[k[d].last() + 1], "range end");
        sym_check(sp.knots_num(d) == k[d].t.size() && sp.periodicity(d) == k[d].per, "knots");
    }
    std::array<std::vector<double>, D> w;
    std::array<size_t, D> loc;
    for (size_t d = 0; d < D; ++d) {
        loc[d] = O + 1;
        for (auto& p : k[d].basis(s[d], O)) w[d].push_back(p.eval(x[d], q[d]));
    }
    double r = 0;
    for (Odo<D> o(loc); !o.done; o.next()) {
        double v = 1;
        std::array<size_t, D> i;
        for (size_t d = 0; d < D; ++d) { v *= w[d][o.i[d]]; i[d] = (s[d] - O + o.i[d]) % n[d]; }
        r += v * sym_real_idx("cp", SymFlat(n, i));
    }
    if (m == 0) {
        sym_check_eq(sp(xh), r, "value with hint");
        sym_check_eq(sp(x), r, "value");
    }
    sym_check_eq(sp.derivative_at(xhk), r, "derivative with hint");
    sym_check_eq(sp.derivative_at(xk), r, "derivative");
    sym_reach("direct");
}
template <size_t O> void basisOf(size_t pieces, KK kd) {
    Kn k = knots(O, pieces, kd, false);
    CP<1> cp{intp::MeshDimension<1>(k.n())};
    for (size_t i = 0; i < k.n(); ++i) cp(i) = 0;
    intp::BSpline<double, 1, O> sp = build<O>(std::array<Kn, 1>{{k}}, cp);
    size_t s, m = pick("order", 0, O);
    double x = inPiece(k, "x", "piece", s), xx = x;
    auto it = sp.get_knot_iter(0, xx, pick("hint", O, k.last()));
    sym_check((size_t)(it - sp.knots_begin(0)) == s, "knot interval found");
    auto b = sp.base_spline_value(0, it, x, m);
    std::vector<Poly> ref = k.basis(s, m);
    double sum = 0;
    for (size_t i = 0; i <= O; ++i) {
        if (i + m < O) { sym_check_eq(b[i], 0, "unused entries are zero"); continue; }
        sum += b[i];
        sym_check_eq(b[i], ref[i - (O - m)].eval(x), "basis function");
        sym_check(b[i] >= 0, "non-negative");
    }
    sym_check_eq(sum, 1, "sum to one");
    // support: a single control point of weight one contributes nothing outside its order+1 pieces
    size_t c = pick("function", 0, k.n() - 1);
    cp(c) = 1;
    sp.load_ctrlPts(cp);
    double v = sp(std::array<double, 1>{{x}});
    if (s < c || s > c + O) sym_check_eq(v, 0, "zero outside the support");
    else sym_check(v >= 0 && v <= 1, "basis function between zero and one");
    sym_reach("basis");
}
#define K1(o, p, kd, pe) std::array<Kn, 1>{{knots(o, p, kd, pe)}}
#define D1(o) JOB(d1_o##o##_clamped) { direct<1, o>(K1(o, pick("pieces", 1, 4), CLAMPED, false), o + 1); } \
    JOB(d1_o##o##_free) { direct<1, o>(K1(o, pick("pieces", 1, 4), FREE, false), o); } \
    JOB(d1_o##o##_per) { direct<1, o>(K1(o, pick("pieces", 1, 4), pick("even", 0, 1) ? EVEN : FREE, true), o); } \
    JOB(d1_o##o##_dbl) { direct<1, o>(K1(o, 4, DOUBLED, false), o); } \
    JOB(basis_o##o) { basisOf<o>(3, pick("kind", 0, 1) ? FREE : CLAMPED); } \
    JOB(T_d1_o##o) { direct<1, o>(K1(o, pick("pieces", 5, 9), pick("free", 0, 1) ? FREE : CLAMPED, false), o); } \
    JOB(T_basis_o##o) { basisOf<o>(5, pick("kind", 0, 1) ? DOUBLED : EVEN); }
#define K2(o, a, b) std::array<Kn, 2>{{a, b}}
#if SLICE == 0
D1(0) D1(1) D1(2) D1(3)
JOB(d1_o3_many) { direct<1, 3>(K1(3, 12, pick("free", 0, 1) ? FREE : CLAMPED, false), 1); }
JOB(d1_o2_many) { direct<1, 2>(K1(2, 17, pick("free", 0, 1) ? EVEN : CLAMPED, false), 1); }
JOB(d1_o1_many) { direct<1, 1>(K1(1, 20, FREE, true), 1); }
JOB(sym_o1) { direct<1, 1>(K1(1, pick("pieces", 1, 2), SYMK, pick("periodic", 0, 1)), 1); }
JOB(sym_o2) { direct<1, 2>(K1(2, pick("pieces", 1, 2), SYMK, pick("periodic", 0, 1)), 2); }
JOB(sym_o3) { direct<1, 3>(K1(3, 1, SYMK, false), 1); }
JOB(symbasis_o2) { basisOf<2>(1, SYMK); }
#else
D1(4) D1(5)
JOB(d2_o1) { direct<2, 1>({{knots(1, 3, CLAMPED, pick("periodic", 0, 1)), knots(1, 2, FREE, pick("periodic1", 0, 1), 3)}}, 1); }
JOB(d2_o2) { bool p = pick("periodic", 0, 1); direct<2, 2>({{knots(2, 3, FREE, p), knots(2, 2, p ? CLAMPED : FREE, !p, 3)}}, 2); }
JOB(d2_o3) { bool p = pick("periodic", 0, 1); direct<2, 3>({{knots(3, 2, p ? FREE : CLAMPED, p), knots(3, 3, DOUBLED, false, 3)}}, 2); }
JOB(d3_o1) { bool p = pick("periodic", 0, 1); direct<3, 1>({{knots(1, 2, CLAMPED, false), knots(1, 3, FREE, p, 2), knots(1, 2, FREE, !p, 4)}}, 1); }
JOB(T_d3_o2) { bool p = pick("periodic", 0, 1); direct<3, 2>({{knots(2, 2, CLAMPED, false), knots(2, 3, FREE, p, 2), knots(2, 2, FREE, !p, 4)}}, 2); }
#endif
