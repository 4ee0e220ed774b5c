// compiled with -Dintp=intp_ref -DH=H_ref in the default configuration
#include "common.hpp"
#include "ref.hpp"
using namespace H;
namespace {
template <size_t D, size_t O> struct Impl : RefFn {
    intp::InterpolationFunction<double, D, O> f;
    Impl(const intp::InterpolationFunction<double, D, O>& g) : f(g) {}
    static std::array<double, D> arr(const double* x) { std::array<double, D> a; for (size_t d = 0; d < D; ++d) a[d] = x[d]; return a; }
    double value(const double* x) const override { return f(arr(x)); }
    double derivative(const double* x, const size_t* k) const override { std::array<size_t, D> a; for (size_t d = 0; d < D; ++d) a[d] = k[d]; return f.derivative(arr(x), a); }
    void range(size_t d, double* lo, double* hi) const override { *lo = f.range(d).first; *hi = f.range(d).second; }
};
template <size_t D, size_t O> RefFn* mk(const size_t* n, const bool* per, const bool* uni, const double* const* c, const double* data) {
    std::array<Axis, D> ax;
    for (size_t d = 0; d < D; ++d) {
        ax[d].n = n[d]; ax[d].per = per[d]; ax[d].uni = uni[d]; ax[d].kind = uni[d] ? UNI : IRR;
        ax[d].c.assign(c[d], c[d] + n[d] + (per[d] ? 1 : 0));
    }
    return new Impl<D, O>(MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, [&](const std::array<size_t, D>& i) { size_t r = 0; for (size_t d = 0; d < D; ++d) r = r * n[d] + i[d]; return data[r]; }, "refdummy")));
}
}
#define C(d, o) if (D == d && O == o) return mk<d, o>(n, per, uni, c, data);
RefFn* ref_make(size_t D, size_t O, const size_t* n, const bool* per, const bool* uni, const double* const* c, const double* data) {
    C(1, 0) C(1, 1) C(1, 2) C(1, 3) C(1, 4) C(1, 5) C(2, 1) C(2, 2) C(2, 3) C(3, 1) C(3, 2)
    return nullptr;
}
