// C12: mesh addressing is a row-major bijection; all access paths agree.
#include "sym.h"
#include <array>
#include <iterator>
#include <forward_list>
#include <string>
#include <utility>
#include <vector>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <aligned-allocator.hpp>
#include <Mesh.hpp>
using std::size_t;
template <size_t D> using Idx = std::array<size_t, D>;
static const char* const IN[] = {"i0", "i1", "i2", "i3", "i4"};
static const char* const ON[] = {"o0", "o1", "o2", "o3", "o4"};
static const char* const JN[] = {"j0", "j1", "j2", "j3", "j4"};
static size_t pick(const char* n, size_t lo, size_t hi) { return lo >= hi ? lo : sym_concrete(sym_u64(n, lo, hi)); }
template <size_t D> Idx<D> shape(std::initializer_list<Idx<D>> l) { return *(l.begin() + pick("shape", 0, l.size() - 1)); }
template <size_t D> size_t rowMajor(const Idx<D>& n, const Idx<D>& i) { size_t r = 0; for (size_t d = 0; d < D; ++d) r = r * n[d] + i[d]; return r; }
template <size_t D> Idx<D> symIdx(const Idx<D>& n, const char* const* nm) { Idx<D> i; for (size_t d = 0; d < D; ++d) i[d] = sym_u64(nm[d], 0, n[d] - 1); return i; }
template <size_t D> Idx<D> pickIdx(const Idx<D>& n, const char* const* nm) { Idx<D> i; for (size_t d = 0; d < D; ++d) i[d] = pick(nm[d], 0, n[d] - 1); return i; }
static size_t safe(const intp::MeshDimension<1>& m, const Idx<1>& i) { return m.indexing_safe(i[0]); }
static size_t safe(const intp::MeshDimension<2>& m, const Idx<2>& i) { return m.indexing_safe(i[0], i[1]); }
static size_t safe(const intp::MeshDimension<3>& m, const Idx<3>& i) { return m.indexing_safe(i[0], i[1], i[2]); }
static size_t safe(const intp::MeshDimension<4>& m, const Idx<4>& i) { return m.indexing_safe(i[0], i[1], i[2], i[3]); }
template <class M> auto at(M& m, const Idx<1>& i) -> decltype(m(i[0])) { return m(i[0]); }
template <class M> auto at(M& m, const Idx<2>& i) -> decltype(m(i[0], i[1])) { return m(i[0], i[1]); }
template <class M> auto at(M& m, const Idx<3>& i) -> decltype(m(i[0], i[1], i[2])) { return m(i[0], i[1], i[2]); }
template <class M> auto at(M& m, const Idx<4>& i) -> decltype(m(i[0], i[1], i[2], i[3])) { return m(i[0], i[1], i[2], i[3]); }

// the index mapping for all index tuples and positions of a shape
template <size_t D> void mapping(const Idx<D>& n) {
    intp::MeshDimension<D> md(n);
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) tot *= n[d];
    sym_check(md.size() == tot, "size");
    size_t acc = 1;
    for (size_t d = 0; d <= D; ++d) { sym_check(md.dim_acc_size(d) == acc, "accumulated size"); if (d < D) acc *= n[D - 1 - d]; }
    for (size_t d = 0; d < D; ++d) sym_check(md.dim_size(d) == n[d] && static_cast<Idx<D>>(md)[d] == n[d], "extent");
    Idx<D> i = symIdx<D>(n, IN);
    const size_t p = md.indexing(i);
    sym_check(p == rowMajor<D>(n, i), "row major position");
    sym_check(p < tot, "position inside the mesh");
    sym_check(md.indexing_safe(i) == p, "indexing_safe(array)");
    sym_check(safe(md, i) == p, "indexing_safe(arguments)");
    sym_reach("mapping");
}
template <size_t D> void inverse(const Idx<D>& n) {
    intp::MeshDimension<D> md(n);
    size_t tot = md.size();
    size_t q = sym_u64("pos", 0, tot - 1);
    Idx<D> b = md.dimwise_indices(q);
    size_t r = q;
    for (size_t d = D; d-- > 0; r /= n[d]) {
        sym_check(b[d] < n[d], "recovered index inside the extents");
        sym_check(b[d] == r % n[d], "recovered index");
    }
    sym_check(md.indexing(b) == q, "index of the recovered tuple");
    sym_reach("inverse");
}
// the same with every extent symbolic
template <size_t D> void mapSym(size_t top) {
    static const char* const NN[] = {"n0", "n1", "n2", "n3"};
    Idx<D> n, i;
    for (size_t d = 0; d < D; ++d) { n[d] = sym_u64(NN[d], 1, top); i[d] = sym_u64(IN[d], 0, top - 1); sym_assume(i[d] < n[d]); }
    intp::MeshDimension<D> md(n);
    sym_check(md.indexing(i) == rowMajor<D>(n, i), "row major position");
    sym_check(md.indexing_safe(i) == rowMajor<D>(n, i), "indexing_safe(array)");
    sym_check(safe(md, i) == rowMajor<D>(n, i), "indexing_safe(arguments)");
    size_t acc = 1;
    for (size_t d = 0; d <= D; ++d) { sym_check(md.dim_acc_size(d) == acc, "accumulated size"); if (d < D) acc *= n[D - 1 - d]; }
    sym_check(md.size() == acc, "size");
    sym_reach("symbolic extents");
}
JOB(mapsym_d1) { mapSym<1>(1ull << 40); }
JOB(mapsym_d2) { mapSym<2>(1ull << 12); }
JOB(mapsym_d3) { mapSym<3>(1ull << 8); }
JOB(mapsym_d4) { mapSym<4>(1ull << 4); }
// element access: every way reaches the same element, and no other
template <size_t D, class A> void access(const Idx<D>& n) {
    typedef intp::Mesh<double, D, A> M;
    M m{intp::MeshDimension<D>(n)};
    const M& c = m;
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) tot *= n[d];
    sym_check(c.size() == tot, "mesh size");
    for (size_t k = 0; k < tot; ++k) sym_check_eq(c.data()[k], 0., "initial value");
    for (size_t d = 0; d < D; ++d) sym_check(c.dim_size(d) == n[d] && c.dimension().dim_size(d) == n[d], "mesh extent");
    // fill by index tuple
    Idx<D> i{};
    for (size_t k = 0; k < tot; ++k) {
        if (k % 2) at(m, i) = sym_real_idx("v", k);
        else m(i) = sym_real_idx("v", k);
        for (size_t d = D; d-- > 0;) { if (++i[d] < n[d]) break; i[d] = 0; }
    }
    // flat iteration is row major
    size_t k = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++k) sym_check_eq(*it, sym_real_idx("v", k), "flat iteration");
    sym_check(k == tot, "flat iteration length");
    // one element through every access path
    i = pickIdx<D>(n, IN);
    size_t p = rowMajor<D>(n, i);
    double v = sym_real_idx("v", p);
    sym_check_eq(at(c, i), v, "const index arguments");
    sym_check_eq(c(i), v, "const index array");
    sym_check_eq(at(m, i), v, "index arguments");
    sym_check_eq(m(i), v, "index array");
    sym_check_eq(c.data()[p], v, "data()");
    sym_check(c.iter_indices(c.begin() + static_cast<std::ptrdiff_t>(p)) == i, "iter_indices of a flat iterator");
    // writing touches one element only
    double w = sym_real("w");
    if (pick("write", 0, 1)) m(i) = w; else at(m, i) = w;
    for (size_t q = 0; q < tot; ++q) sym_check_eq(c.data()[q], q == p ? w : sym_real_idx("v", q), "write touches one element");
    sym_reach("access");
}
// iteration along a dimension
template <size_t D, class M, class T> void line(M& m, const Idx<D>& n, const Idx<D>& i0, size_t d, const T&) {
    Idx<D> i = i0;
    auto b = m.begin(d, i), e = m.end(d, i);
    const std::ptrdiff_t len = static_cast<std::ptrdiff_t>(n[d]);
    sym_check(e - b == len, "line length");
    size_t cnt = 0;
    auto it = b;
    for (; it != e && cnt <= n[d]; ++it, ++cnt) {
        i[d] = cnt;
        sym_check_eq(*it, sym_real_idx("v", rowMajor<D>(n, i)), "line element");
        sym_check(m.iter_indices(it) == i, "iter_indices of a line iterator");
        sym_check(it.operator->() == &*it, "arrow");
    }
    sym_check(cnt == n[d] && it == e, "line visits every element once");
    // random access
    std::ptrdiff_t s = static_cast<std::ptrdiff_t>(pick("s", 0, n[d])), t = static_cast<std::ptrdiff_t>(pick("t", 0, n[d]));
    auto a = b + s, c = b + t, a2 = s + b;
    sym_check(a == a2 && !(a != a2), "n + iterator");
    sym_check(c - a == t - s, "difference");
    sym_check((a == c) == (s == t) && (a != c) == (s != t), "equality");
    sym_check((a < c) == (s < t) && (a > c) == (s > t) && (a <= c) == (s <= t) && (a >= c) == (s >= t), "order");
    sym_check(e - (len - s) == a, "iterator - n");
    { auto x = b; x += s; sym_check(x == a, "+="); x -= s; sym_check(x == b, "-="); }
    { auto x = a; sym_check(x++ == a && x == b + (s + 1) && x-- == b + (s + 1) && x == a && ++x == b + (s + 1) && --x == a, "increment and decrement"); }
    if (t < len) {
        i[d] = static_cast<size_t>(t);
        double v = sym_real_idx("v", rowMajor<D>(n, i));
        sym_check_eq(b[t], v, "subscript");
        sym_check_eq(a[t - s], v, "subscript from another position");
        sym_check_eq(*c, v, "dereference");
        sym_check(std::distance(b, c) == t, "distance");
    }
}
template <size_t D> void lines(const Idx<D>& n) {
    typedef intp::Mesh<double, D> M;
    M m{intp::MeshDimension<D>(n)};
    size_t tot = m.size();
    Idx<D> i{};
    for (size_t k = 0; k < tot; ++k) {
        m(i) = sym_real_idx("v", k);
        for (size_t d = D; d-- > 0;) { if (++i[d] < n[d]) break; i[d] = 0; }
    }
    size_t d = pick("dim", 0, D - 1);
    Idx<D> n1 = n; n1[d] = 1;
    i = pickIdx<D>(n1, IN);
    Idx<D> given = i;
    given[d] = pick("given", 0, n[d] - 1);  // the index of the line's own dimension does not matter
    if (pick("const", 0, 1)) { const M& c = m; line<D>(c, n, given, d, 0.); }
    else {
        line<D>(m, n, given, d, 0.);
        // writing through the line
        auto b = m.begin(d, given);
        size_t s = pick("s", 0, n[d] - 1);
        double w = sym_real("w");
        b[static_cast<std::ptrdiff_t>(s)] = w;
        i[d] = s;
        size_t p = rowMajor<D>(n, i);
        for (size_t q = 0; q < tot; ++q) sym_check_eq(m.data()[q], q == p ? w : sym_real_idx("v", q), "write through a line");
    }
    sym_reach("line");
}
// long lines: any line, any two offsets, iterators compared by the address they denote
template <size_t D> void bigLines(const Idx<D>& n) {
    typedef intp::Mesh<double, D> M;
    M m{intp::MeshDimension<D>(n)};
    const M& c = m;
    size_t d = pick("dim", 0, D - 1);
    Idx<D> i = symIdx<D>(n, IN), o = symIdx<D>(n, ON);
    for (size_t e = 0; e < D; ++e) if (e == d) o[e] = i[e] = 0;
    std::ptrdiff_t len = static_cast<std::ptrdiff_t>(n[d]);
    std::ptrdiff_t s = static_cast<std::ptrdiff_t>(sym_u64("s", 0, n[d] - 1)), t = static_cast<std::ptrdiff_t>(sym_u64("t", 0, n[d] - 1));
    Idx<D> is = i, it = i, os = o;
    is[d] = static_cast<size_t>(s); it[d] = static_cast<size_t>(t); os[d] = static_cast<size_t>(s);
    const double* base = c.data();
    auto b = m.begin(d, i), e = m.end(d, i);
    auto a = b + s, q = b + t;
    auto ca = c.begin(d, i) + s;
    sym_check(&*a == base + rowMajor<D>(n, is), "line position");
    sym_check(&*ca == base + rowMajor<D>(n, is), "const line position");
    sym_check(&b[t] == base + rowMajor<D>(n, it), "line subscript position");
    sym_check(&*(e - (len - s)) == base + rowMajor<D>(n, is), "line position from the end");
    sym_check(&*(c.end(d, i) - (len - t)) == base + rowMajor<D>(n, it), "const line position from the end");
    sym_check(q - a == t - s, "line difference");
    sym_check((a == q) == (s == t) && (a != q) == (s != t), "line equality");
    sym_check((a < q) == (s < t), "line order");
    sym_check((m.begin(d, o) + s == a) == (os == is), "iterators of different lines differ");
    sym_reach("bigline");
}
// construction paths
template <size_t D> void construct1() {
    size_t n = pick("n", 1, 4);
    intp::Mesh<double, D> a(n);
    size_t tot = 1;
    for (size_t d = 0; d < D; ++d) { tot *= n; sym_check(a.dim_size(d) == n, "cubic mesh"); }
    sym_check(a.size() == tot && static_cast<size_t>(a.end() - a.begin()) == tot, "cubic mesh size");
    for (size_t k = 0; k < tot; ++k) sym_check_eq(a.data()[k], 0., "cubic mesh initial value");
    intp::MeshDimension<D> md(n);
    sym_check(md.size() == tot, "cubic dimension");
    sym_reach("cubic");
}
JOB(construct) {
    switch (pick("D", 1, 3)) { case 1: construct1<1>(); break; case 2: construct1<2>(); break; default: construct1<3>(); }
    size_t p = pick("p", 1, 3), q = pick("q", 1, 3), r = pick("r", 1, 3);
    intp::Mesh<double, 3> v(p, q, r);
    sym_check(v.dim_size(0) == p && v.dim_size(1) == q && v.dim_size(2) == r && v.size() == p * q * r, "extent arguments");
    intp::Mesh<double, 2> u(static_cast<int>(p), static_cast<int>(q));
    sym_check(u.dim_size(0) == p && u.dim_size(1) == q && u.size() == p * q, "extent arguments of another integer type");
    intp::MeshDimension<3> md(p, q, r);
    sym_check(md.dim_size(0) == p && md.dim_size(1) == q && md.dim_size(2) == r, "dimension from arguments");
    sym_reach("extents");
}
JOB(ranges) {
    size_t n = pick("n", 1, 5);
    std::vector<double> x;
    std::forward_list<double> l;
    for (size_t i = 0; i < n; ++i) { x.push_back(sym_real_idx("v", i)); l.push_front(sym_real_idx("v", n - 1 - i)); }
    intp::Mesh<double, 1> a(std::make_pair(x.begin(), x.end())), b(std::make_pair(l.begin(), l.end())), c(std::make_pair(x.data(), x.data() + n));
    x.assign(n, 0.);
    sym_check(a.size() == n && b.size() == n && c.size() == n && a.dim_size(0) == n && b.dim_size(0) == n && c.dim_size(0) == n, "mesh from a range: size");
    for (size_t i = 0; i < n; ++i) {
        sym_check_eq(a(i), sym_real_idx("v", i), "mesh from a vector range");
        sym_check_eq(b(i), sym_real_idx("v", i), "mesh from a list range");
        sym_check_eq(c(i), sym_real_idx("v", i), "mesh from a pointer range");
    }
    sym_reach("range");
}
template <size_t D> void conv(const Idx<D>& n) {
    intp::Mesh<double, D> m{intp::MeshDimension<D>(n)};
    Idx<D> i{};
    size_t tot = m.size();
    for (size_t k = 0; k < tot; ++k) {
        m(i) = sym_real_idx("v", k);
        for (size_t d = D; d-- > 0;) { if (++i[d] < n[d]) break; i[d] = 0; }
    }
    intp::Mesh<double, D, intp::AlignedAllocator<double, intp::Alignment::AVX>> al(m);
    for (size_t d = 0; d < D; ++d) sym_check(al.dim_size(d) == n[d], "extent of a converted mesh");
    sym_check(al.size() == tot, "size of a converted mesh");
    for (size_t k = 0; k < tot; ++k) sym_check_eq(al.data()[k], sym_real_idx("v", k), "converted mesh");
    intp::Mesh<double, D> back(al);
    for (size_t k = 0; k < tot; ++k) sym_check_eq(back.data()[k], sym_real_idx("v", k), "converted back");
    // resize: new extents are in force
    Idx<D> n2 = n;
    for (size_t d = 0; d < D; ++d) n2[d] = n[D - 1 - d] + (d == 0 ? 2 : 1);
    back.resize(n2);
    size_t t2 = 1;
    for (size_t d = 0; d < D; ++d) { t2 *= n2[d]; sym_check(back.dim_size(d) == n2[d], "resized extent"); }
    sym_check(back.size() == t2, "resized size");
    for (size_t k = 0; k < t2; ++k) sym_use(back.data()[k]);
    for (size_t d = 0; d < D; ++d) i[d] = n2[d] - 1;
    back(i) = sym_real("w");
    sym_check_eq(back.data()[t2 - 1], sym_real("w"), "last element after resize");
    sym_reach("convert");
}
#define SH(...) {{__VA_ARGS__}}
JOB(map_d1) { mapping<1>(shape<1>({SH(1), SH(2), SH(7), SH(1000003)})); }
JOB(map_d2) { mapping<2>(shape<2>({SH(1, 1), SH(1, 5), SH(5, 1), SH(2, 3), SH(3, 2), SH(7, 7), SH(1000, 64), SH(33, 4097)})); }
JOB(map_d3) { mapping<3>(shape<3>({SH(2, 3, 4), SH(4, 3, 2), SH(1, 3, 5), SH(3, 1, 5), SH(3, 5, 1), SH(6, 6, 6), SH(100, 3, 257), SH(2, 1000, 3)})); }
JOB(map_d4) { mapping<4>(shape<4>({SH(2, 3, 4, 5), SH(5, 4, 3, 2), SH(1, 2, 1, 3), SH(3, 2, 2, 6), SH(20, 30, 40, 50)})); }
JOB(inv_d1) { inverse<1>(shape<1>({SH(1), SH(7), SH(1000003)})); }
JOB(inv_d2) { inverse<2>(shape<2>({SH(1, 1), SH(1, 5), SH(5, 1), SH(2, 3), SH(3, 2), SH(7, 7), SH(100, 64)})); }
JOB(inv_d3) { inverse<3>(shape<3>({SH(2, 3, 4), SH(4, 3, 2), SH(1, 3, 5), SH(3, 1, 5), SH(3, 5, 1), SH(6, 6, 6)})); }
JOB(inv_d4) { inverse<4>(shape<4>({SH(2, 3, 4, 5), SH(5, 4, 3, 2), SH(1, 2, 1, 3), SH(3, 2, 2, 6)})); }
JOB(inv_d3big) { inverse<3>(shape<3>({SH(20, 30, 40), SH(64, 5, 17)})); }
typedef std::allocator<double> SA;
typedef intp::AlignedAllocator<double, intp::Alignment::AVX> AA;
JOB(acc_d1) { access<1, SA>(shape<1>({SH(1), SH(2), SH(6)})); }
JOB(acc_d2) { access<2, SA>(shape<2>({SH(1, 4), SH(4, 1), SH(3, 4), SH(4, 3), SH(2, 17)})); }
JOB(acc_d3) { access<3, SA>(shape<3>({SH(2, 3, 4), SH(4, 2, 3), SH(1, 4, 2), SH(3, 1, 3), SH(3, 4, 1)})); }
JOB(acc_d4) { access<4, SA>(shape<4>({SH(2, 3, 1, 4), SH(3, 2, 3, 2)})); }
JOB(acc_d2_aligned) { access<2, AA>(shape<2>({SH(1, 4), SH(3, 5)})); }
JOB(acc_d3_aligned) { access<3, AA>(shape<3>({SH(2, 3, 4)})); }
JOB(line_d1) { lines<1>(shape<1>({SH(1), SH(2), SH(6)})); }
JOB(line_d2) { lines<2>(shape<2>({SH(1, 4), SH(4, 1), SH(3, 4), SH(5, 3)})); }
JOB(line_d3) { lines<3>(shape<3>({SH(2, 3, 4), SH(4, 2, 3), SH(1, 3, 2), SH(3, 1, 2), SH(2, 3, 1)})); }
JOB(line_d4) { lines<4>(shape<4>({SH(2, 3, 2, 2), SH(3, 2, 1, 3)})); }
JOB(bigline_d1) { bigLines<1>(shape<1>({SH(1), SH(100), SH(4096)})); }
JOB(bigline_d2) { bigLines<2>(shape<2>({SH(3, 25), SH(25, 3), SH(130, 3), SH(5, 130), SH(40, 64)})); }
JOB(bigline_d3) { bigLines<3>(shape<3>({SH(2, 3, 4), SH(7, 9, 31), SH(33, 2, 12)})); }
JOB(bigline_d4) { bigLines<4>(shape<4>({SH(3, 2, 3, 2), SH(2, 5, 4, 12)})); }
JOB(T_line_d3big) { lines<3>(shape<3>({SH(5, 6, 7)})); }
JOB(conv_d1) { conv<1>(shape<1>({SH(1), SH(5)})); }
JOB(conv_d2) { conv<2>(shape<2>({SH(1, 4), SH(3, 2)})); }
JOB(conv_d3) { conv<3>(shape<3>({SH(2, 3, 4), SH(1, 2, 2)})); }
