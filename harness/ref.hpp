// A function built by the library in its default configuration (c++17, no macros), behind a plain interface:
// compiled separately with the library's namespace renamed, linked with harnesses built in other configurations.
#pragma once
#include <cstddef>
struct RefFn {
    virtual double value(const double* x) const = 0;
    virtual double derivative(const double* x, const size_t* k) const = 0;
    virtual void range(size_t d, double* lo, double* hi) const = 0;
    virtual ~RefFn() {}
};
// n distinct points per dimension; coordinates c[d][0..n] (periodic: n + 1 entries); data row-major over distinct points
RefFn* ref_make(size_t D, size_t O, const size_t* n, const bool* per, const bool* uni, const double* const* c, const double* data);
