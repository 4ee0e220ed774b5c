// C21: functions, splines and meshes are values.
#include "common.hpp"
using namespace H;
template <size_t D, size_t O> using Fun = intp::InterpolationFunction<double, D, O>;
template <size_t D, size_t O> struct Pt {
    std::array<double, D> x;
    std::array<size_t, D> k;
    Pt(const std::array<Axis, D>& ax, const char* nm) {
        for (size_t d = 0; d < D; ++d) {
            auto b = breakpoints(ax[d], O);
            size_t j = (b.size() - 1) / 2;
            double y = sym_real((std::string(nm) + std::to_string(d)).c_str());
            sym_assume(y >= b[j] && y < b[j + 1]);
            x[d] = y;
            k[d] = O ? 1 : 0;
        }
    }
};
// what a function returns at a point: value, derivative, range
template <size_t D, size_t O> struct Obs {
    double v, dv, lo, hi;
    bool per, uni;
    Obs(const Fun<D, O>& f, const Pt<D, O>& p) : v(f(p.x)), dv(f.derivative(p.x, p.k)), lo(f.range(D - 1).first), hi(f.range(D - 1).second), per(f.periodicity(D - 1)), uni(f.uniform(D - 1)) {}
    void same(const Obs& o, const char* id) const {
        sym_check_eq(v, o.v, id); sym_check_eq(dv, o.dv, id); sym_check_eq(lo, o.lo, id); sym_check_eq(hi, o.hi, id);
        sym_check(per == o.per && uni == o.uni, id);
    }
};
template <size_t D, size_t O> void values(const std::array<Axis, D>& ax, const std::array<Axis, D>& bx) {
    using F = Fun<D, O>;
    std::unique_ptr<intp::Mesh<double, D>> mf(new intp::Mesh<double, D>(meshOf<double, D>(ax, SymData<D>(ax, "f"))));
    std::unique_ptr<F> f(new F(MakeD<double, D, O, double>::go(ax, *mf)));
    std::unique_ptr<F> g(new F(MakeD<double, D, O, double>::go(bx, meshOf<double, D>(bx, SymData<D>(bx, "g")))));
    Pt<D, O> p(ax, "x"), q(bx, "y");
    size_t m = pick("mode", 0, 9);
    Obs<D, O> of(*f, p), og(*g, q);
    if (m == 0) {  // the data it was built from
        for (Odo<D> o(lens(ax)); !o.done; o.next()) (*mf)(o.i) = sym_real("overwritten");
        Obs<D, O>(*f, p).same(of, "data overwritten");
        mf.reset();
        Obs<D, O>(*f, p).same(of, "data destroyed");
    } else if (m == 1) {
        F c(*f);
        Obs<D, O>(c, p).same(of, "copy");
        f.reset();
        Obs<D, O>(c, p).same(of, "copy of a destroyed function");
        F c2(c);
        c = *g;
        Obs<D, O>(c2, p).same(of, "copy of an overwritten function");
        Obs<D, O>(c, q).same(og, "overwritten function");
        Obs<D, O>(*g, q).same(og, "source of an assignment");
    } else if (m == 2) {
        *f = *g;
        Obs<D, O>(*f, q).same(og, "assigned");
        g.reset();
        Obs<D, O>(*f, q).same(og, "assigned from a destroyed function");
    } else if (m == 3) {
        F c(std::move(*f));
        f.reset();
        Obs<D, O>(c, p).same(of, "moved");
        F e;
        e = std::move(c);
        Obs<D, O>(e, p).same(of, "move assigned to an empty function");
        c = *g;
        Obs<D, O>(c, q).same(og, "reused after a move");
        Obs<D, O>(e, p).same(of, "after the source is reused");
    } else if (m == 4) {
        *g = std::move(*f);
        f.reset();
        Obs<D, O>(*g, p).same(of, "move assigned over another function");
    } else if (m == 5) {
        F& alias = *f;
        *f = alias;
        Obs<D, O>(*f, p).same(of, "self assignment");
    } else if (m == 6) {
        std::swap(*f, *g);
        Obs<D, O>(*f, q).same(og, "swapped");
        Obs<D, O>(*g, p).same(of, "swapped");
    } else if (m == 7) {  // container of functions, reallocated and shuffled
        std::vector<F> v;
        v.push_back(*f); v.push_back(*g); v.push_back(std::move(*f));
        f.reset();
        v.insert(v.begin(), v[1]);
        v.erase(v.begin() + 1);
        Obs<D, O>(v[0], q).same(og, "in a container");
        Obs<D, O>(v[1], q).same(og, "in a container");
        Obs<D, O>(v[2], p).same(of, "in a container");
    } else if (m == 8) {  // evaluation leaves everything as it was
        Obs<D, O>(*f, p).same(of, "evaluated again");
        Obs<D, O> t(*g, q);
        t.same(og, "evaluated again");
        Obs<D, O>(*f, p).same(of, "evaluated after another function");
        const F c(*f);
        g.reset();
        Obs<D, O>(*f, p).same(of, "another function destroyed");
        Obs<D, O>(c, p).same(of, "constant copy");
    } else {  // the spline inside
        typename F::spline_type s(f->spline()), e;
        e = s;
        typename F::spline_type w(std::move(s));
        s = g->spline();
        f.reset();
        std::array<std::pair<double, size_t>, D> xp;
        for (size_t d = 0; d < D; ++d) xp[d] = std::make_pair(p.x[d], p.k[d]);
        sym_check_eq(e(p.x), of.v, "spline copy"); sym_check_eq(w(p.x), of.v, "spline moved");
        sym_check_eq(e.derivative_at(xp), of.dv, "spline copy"); sym_check_eq(w.derivative_at(xp), of.dv, "spline moved");
        g.reset();
        sym_check_eq(s(q.x), og.v, "spline overwritten");
    }
    sym_reach("values");
}
template <size_t D> void meshes(std::array<size_t, D> na, std::array<size_t, D> nb) {
    using M = intp::Mesh<double, D>;
    struct L {
        static void fill(M& m, const std::array<size_t, D>& n, const char* nm) { for (Odo<D> o(n); !o.done; o.next()) m(o.i) = sym_real_idx(nm, o.flat); }
        static void is(const M& m, const std::array<size_t, D>& n, const char* nm, const char* id) {
            size_t t = 1;
            for (size_t d = 0; d < D; ++d) { sym_check(m.dim_size(d) == n[d], id); t *= n[d]; }
            sym_check(m.size() == t, id);
            for (Odo<D> o(n); !o.done; o.next()) sym_check_eq(m(o.i), sym_real_idx(nm, o.flat), id);
        }
    };
    M a{intp::MeshDimension<D>(na)}, b{intp::MeshDimension<D>(nb)};
    L::fill(a, na, "a"); L::fill(b, nb, "b");
    M c(a), d(b), e(std::move(a));
    L::is(c, na, "a", "copy"); L::is(e, na, "a", "moved");
    d = c;
    L::is(d, na, "a", "assigned");
    L::fill(c, na, "z");
    L::is(d, na, "a", "after the source changed"); L::is(e, na, "a", "after another copy changed"); L::is(b, nb, "b", "after a copy was assigned");
    a = b;
    L::is(a, nb, "b", "reused after a move");
    d = std::move(b);
    L::is(d, nb, "b", "move assigned");
    a.resize(na);
    L::fill(a, na, "y");
    L::is(d, nb, "b", "another mesh resized"); L::is(a, na, "y", "resized");
    e = e;
    L::is(e, na, "a", "self assigned");
    intp::Mesh<double, D, intp::AlignedAllocator<double>> al(e);
    M back(al);
    L::fill(e, na, "w");
    L::is(back, na, "a", "converted");
    sym_reach("meshes");
}
#define PER(s) pick("periodic" s, 0, 1)
#define D1(o) JOB(d1_o##o) { values<1, o>({{axis(pick("n", o + 1, o + 3), PER("0"), pick("kind", 0, 1) ? IRR : UNI)}}, {{axis(o + 2, PER("1"), UNI)}}); }
D1(0) D1(1) D1(2) D1(3) D1(4) D1(5)
JOB(d1_o3_long) { values<1, 3>({{axis(20, PER("0"), UNI)}}, {{axis(33, PER("1"), UNI)}}); }
JOB(d2_o1) { values<2, 1>({{axis(2, PER("0"), IRR), axis(3, PER("1"), UNI)}}, {{axis(4, false, UNI), axis(2, true, UNI)}}); }
JOB(d2_o2) { values<2, 2>({{axis(4, PER("0"), UNI), axis(3, PER("1"), UNI)}}, {{axis(3, false, UNI), axis(3, true, IRR)}}); }
JOB(d2_o3) { values<2, 3>({{axis(4, PER("0"), UNI), axis(5, PER("1"), UNI)}}, {{axis(4, true, IRR), axis(4, false, UNI)}}); }
JOB(d3_o1) { values<3, 1>({{axis(2, PER("0"), UNI), axis(3, PER("1"), UNI), axis(2, false, IRR)}}, {{axis(2, true, UNI), axis(2, false, UNI), axis(4, true, UNI)}}); }
JOB(T_d3_o2) { values<3, 2>({{axis(3, PER("0"), UNI), axis(4, PER("1"), UNI), axis(3, false, IRR)}}, {{axis(3, true, UNI), axis(3, false, UNI), axis(4, true, UNI)}}); }
JOB(mesh1) { meshes<1>({{4}}, {{7}}); meshes<1>({{5}}, {{1}}); }
JOB(mesh2) { meshes<2>({{2, 3}}, {{3, 2}}); meshes<2>({{4, 3}}, {{1, 5}}); }
JOB(mesh3) { meshes<3>({{2, 3, 2}}, {{3, 1, 4}}); }
JOB(mesh4) { meshes<4>({{2, 3, 1, 2}}, {{2, 2, 2, 2}}); }
