// C10: functions made through a template equal directly constructed ones, however often and by whichever overload;
// evaluation proxies return the value of the function they are applied to.
#include "common.hpp"
#include <list>
using namespace H;
template <size_t D, size_t O> using Tmpl = intp::InterpolationFunctionTemplate<double, D, O>;
template <size_t D, size_t O> using Fun = intp::InterpolationFunction<double, D, O>;
// template objects are built in place: they are not claimed to be copyable
template <size_t D, size_t O, bool... Uni, size_t... I> Tmpl<D, O>* newT_(intp::util::index_sequence<I...>, const std::array<Axis, D>& ax) { return new Tmpl<D, O>(perOf(ax), intp::MeshDimension<D>(lens(ax)), RangeT<Uni>::get(ax[I])...); }
template <size_t D, size_t O, bool... Uni> Tmpl<D, O>* newU(const std::array<Axis, D>& ax) { return newT_<D, O, Uni...>(intp::util::make_index_sequence<D>{}, ax); }
template <size_t O> Tmpl<1, O>* newT(const std::array<Axis, 1>& a) { return a[0].uni ? newU<1, O, true>(a) : newU<1, O, false>(a); }
template <size_t O> Tmpl<2, O>* newT(const std::array<Axis, 2>& a) {
    if (a[0].uni) return a[1].uni ? newU<2, O, true, true>(a) : newU<2, O, true, false>(a);
    return a[1].uni ? newU<2, O, false, true>(a) : newU<2, O, false, false>(a);
}
template <size_t O> Tmpl<3, O>* newT(const std::array<Axis, 3>& a) { return a[1].uni ? newU<3, O, true, true, true>(a) : newU<3, O, true, false, true>(a); }

template <size_t D, size_t O> struct Cmp {
    const std::array<Axis, D>& ax;
    std::array<double, D> x;
    std::array<size_t, D> k;
    Cmp(const std::array<Axis, D>& a) : ax(a) {
        std::array<size_t, D> j;
        x = pieceCoords<D>(ax, O, j);
        k.fill(0);
        k[O % D] = O ? 1 : 0;
    }
    void operator()(const Fun<D, O>& f, const Fun<D, O>& g, const char* id) const {
        for (size_t d = 0; d < D; ++d) {
            sym_check_eq(f.range(d).first, g.range(d).first, id);
            sym_check_eq(f.range(d).second, g.range(d).second, id);
            sym_check(f.periodicity(d) == g.periodicity(d) && f.uniform(d) == g.uniform(d), id);
        }
        sym_check_eq(f(x), g(x), id);
        if (O) sym_check_eq(f.derivative(x, k), g.derivative(x, k), id);
    }
};
template <size_t D, size_t O> void modes(const std::array<Axis, D>& ax, const std::array<Axis, D>& other) {
    SymData<D> sf(ax, "f"), sg(ax, "g");
    intp::Mesh<double, D> mf = meshOf<double, D>(ax, sf), mg = meshOf<double, D>(ax, sg);
    std::unique_ptr<Tmpl<D, O>> t(newT<O>(ax));
    size_t m = pick("mode", 0, 5);
    if (m == 0) {  // several functions alive, the template used in between
        Fun<D, O> a = t->interpolate(mf), b = t->interpolate(mg), c = t->interpolate(mf);
        const Tmpl<D, O>& ct = *t;
        Fun<D, O> d = ct.interpolate(mg);
        Fun<D, O> df = MakeD<double, D, O, double>::go(ax, mf), dg = MakeD<double, D, O, double>::go(ax, mg);
        t.reset();
        Cmp<D, O> cmp(ax);
        cmp(a, df, "first function"); cmp(b, dg, "second function"); cmp(c, df, "same data again"); cmp(d, dg, "through a const template");
    } else if (m == 1) {  // into an empty function, then refilled
        Fun<D, O> a;
        t->interpolate(a, mf);
        Fun<D, O> keep = a;
        t->interpolate(a, mg);
        Fun<D, O> df = MakeD<double, D, O, double>::go(ax, mf), dg = MakeD<double, D, O, double>::go(ax, mg);
        Cmp<D, O> cmp(ax);
        cmp(a, dg, "refilled function"); cmp(keep, df, "copy taken before refilling");
    } else if (m == 2) {  // into a function made from another template
        SymData<D> so(other, "h");
        std::unique_ptr<Tmpl<D, O>> u(newT<O>(other));
        intp::Mesh<double, D> mo = meshOf<double, D>(other, so);
        Fun<D, O> a = u->interpolate(mo);
        t->interpolate(a, mf);
        Fun<D, O> b = t->interpolate(mg);
        u->interpolate(b, mo);
        Fun<D, O> df = MakeD<double, D, O, double>::go(ax, mf), dob = MakeD<double, D, O, double>::go(other, mo);
        if (pick("which", 0, 1)) { Cmp<D, O> cmp(ax); cmp(a, df, "function of another template refilled"); }
        else { Cmp<D, O> cmp(other); cmp(b, dob, "refilled by another template"); }
    } else if (m == 3) {  // rvalue template, and after lvalue uses
        Fun<D, O> a = t->interpolate(mg);
        Fun<D, O> b = std::move(*t).interpolate(mf);
        Fun<D, O> df = MakeD<double, D, O, double>::go(ax, mf), dg = MakeD<double, D, O, double>::go(ax, mg);
        t.reset();
        Cmp<D, O> cmp(ax);
        cmp(a, dg, "made before the template was used up"); cmp(b, df, "from an expiring template");
    } else if (m == 4) {  // data handed over as an expiring mesh; data changed afterwards
        intp::Mesh<double, D> tmp = mf, src = mg;
        Fun<D, O> a = t->interpolate(std::move(tmp)), b = t->interpolate(src), c;
        intp::Mesh<double, D> tmp2 = mg;
        t->interpolate(c, std::move(tmp2));
        Fun<D, O> df = MakeD<double, D, O, double>::go(ax, mf), dg = MakeD<double, D, O, double>::go(ax, mg);
        for (Odo<D> o(lens(ax)); !o.done; o.next()) src(o.i) = sym_real("overwritten");
        Cmp<D, O> cmp(ax);
        cmp(a, df, "from an expiring mesh"); cmp(b, dg, "data overwritten afterwards"); cmp(c, dg, "into, from an expiring mesh");
    } else {
#ifdef INTP_CELL_LAYOUT
        Fun<D, O> a = t->interpolate(mf), dg = MakeD<double, D, O, double>::go(ax, mg);
        std::array<double, D> x = anyCoords<D>(ax, O);
        auto p = t->eval_proxy(x);
        Fun<D, O> b = t->interpolate(mg);
        t.reset();
        sym_check_eq(p(a), a(x), "proxy"); sym_check_eq(p(b), b(x), "proxy made earlier"); sym_check_eq(p(dg), dg(x), "proxy on a directly built function");
        sym_check_eq(p(a), a(x), "proxy again");
#else
        return;
#endif
    }
    sym_reach("modes");
}
template <size_t O> void d1(size_t n, Kind kd) {
    bool p = pick("periodic", 0, 1);
    modes<1, O>({{axis(n, p, kd)}}, {{axis(n + (O > 1 ? 2 : 3), !p, kd == UNI ? IRR : UNI)}});
}
// one-dimensional conveniences: iterator pairs, default ranges, explicit ranges
template <size_t O> void conv() {
    size_t n = pick("n", O + 1, O + 3);
    bool per = pick("periodic", 0, 1);
    Axis a = axis(n, per, UNI);
    for (size_t i = 0; i < a.c.size(); ++i) a.c[i] = (double)i;
    std::array<Axis, 1> ax{{a}};
    SymData<1> sf(ax);
    intp::Mesh<double, 1> mf = meshOf<double, 1>(ax, sf);
    std::vector<double> v(mf.begin(), mf.end());
    Fun<1, O> ref = make1<double, O, double>(a, mf);
    Cmp<1, O> cmp(ax);
    size_t m = pick("mode", 0, 6);
    auto it = std::make_pair(v.begin(), v.end());
    size_t len = a.dataLen();
    if (m == 0) { intp::InterpolationFunctionTemplate1D<O> t(len, per); cmp(t.interpolate(it), ref, "default range template"); }
    if (m == 1) { intp::InterpolationFunctionTemplate1D<O> t(std::make_pair(a.lo(), a.hi()), len, per); cmp(t.interpolate(it), ref, "explicit range template"); }
    if (m == 2) { intp::InterpolationFunction1D<O> f(it, per); cmp(f, ref, "default range function"); }
    if (m == 3) { intp::InterpolationFunction1D<O> f(std::make_pair((int)a.lo(), (int)a.hi()), it, per); cmp(f, ref, "integer range"); }
    if (m == 4) { Fun<1, O> f(per, it, std::make_pair(a.lo(), (float)a.hi())); cmp(f, ref, "mixed range types"); }
    if (m == 5) { Tmpl<1, O> t(per, len, std::make_pair(a.lo(), a.hi())); Fun<1, O> f; t.interpolate(f, it); cmp(f, ref, "iterator pair into"); cmp(t.interpolate(it), ref, "iterator pair"); }
    if (m == 6 && !per) {
        Tmpl<1, O> t(len, std::make_pair(a.lo(), a.hi()));
        cmp(t.interpolate(it), ref, "aperiodic by default");
        intp::InterpolationFunctionTemplate1D<O> t2(len);
        cmp(t2.interpolate(it), ref, "aperiodic by default");
        cmp(intp::InterpolationFunction1D<O>(it), ref, "aperiodic by default");
        cmp(Fun<1, O>(it, std::make_pair(a.lo(), a.hi())), ref, "aperiodic by default");
        cmp(Fun<1, O>(mf, std::make_pair(a.lo(), a.hi())), ref, "aperiodic by default");
    }
    sym_reach("conv");
}
#define D1(o) JOB(d1_o##o##_uni) { d1<o>(o + 2, UNI); } JOB(d1_o##o##_irr) { d1<o>(o + 3, IRR); } JOB(conv_o##o) { conv<o>(); } JOB(T_d1_o##o) { d1<o>(pick("n", o + 1, 2 * o + 5), pick("kind", 0, 1) ? IRR : UNI); }
#if SLICE == 0
D1(0) D1(1) D1(2)
JOB(d1_o3_n13) { d1<3>(13, UNI); }
JOB(T_d1_o3_n20) { d1<3>(20, UNI); }
JOB(d1_o1_n18) { d1<1>(18, IRR); }
JOB(d2_o1) { modes<2, 1>({{axis(3, pick("periodic0", 0, 1), UNI), axis(2, pick("periodic1", 0, 1), IRR)}}, {{axis(2, true, IRR), axis(4, false, UNI)}}); }
JOB(d2_o3) { bool p = pick("periodic", 0, 1); modes<2, 3>({{axis(4, p, IRR), axis(5, !p, UNI)}}, {{axis(6, p, UNI), axis(4, !p, IRR)}}); }
#else
D1(3) D1(4) D1(5)
JOB(T_d1_o4_n19) { d1<4>(19, UNI); }
JOB(d2_o2) { bool p = pick("periodic", 0, 1); modes<2, 2>({{axis(4, p, UNI), axis(3, !p, UNI)}}, {{axis(3, p, UNI), axis(4, !p, UNI)}}); }
JOB(d3_o1) { bool p = pick("periodic", 0, 1); modes<3, 1>({{axis(2, p, UNI), axis(3, !p, IRR), axis(2, p, UNI)}}, {{axis(3, !p, UNI), axis(2, p, UNI), axis(2, p, UNI)}}); }
JOB(T_d2_o2) { modes<2, 2>({{axis(4, pick("periodic0", 0, 1), UNI), axis(5, pick("periodic1", 0, 1), IRR)}}, {{axis(3, true, UNI), axis(4, false, UNI)}}); }
JOB(T_d3_o2) { modes<3, 2>({{axis(3, pick("periodic0", 0, 1), UNI), axis(4, pick("periodic1", 0, 1), IRR), axis(3, pick("periodic2", 0, 1), UNI)}}, {{axis(3, true, UNI), axis(3, false, UNI), axis(4, true, UNI)}}); }
#endif
