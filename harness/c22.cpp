// C22: aligned allocator and fixed-buffer allocator.
#include "common.hpp"
#include <aligned-allocator.hpp>
#include <util.hpp>
#include <cstring>
#include <new>
using namespace H;
template <class T, class A> void one(A al, size_t align) {
    using TT = typename std::remove_const<T>::type;
    uint64_t n = sym_u64("n", 0, ~0ull);
    T* p = nullptr;
    bool failed = false;
    try { p = al.allocate(n); } catch (const std::bad_alloc&) { failed = true; }
    if (failed) {
        // requests that fit in memory (the executor's allocation limit is 2^40 bytes) are served
        sym_check(n > ((uint64_t)1 << 39) / sizeof(TT), "small request served");
        sym_reach("refused");
        return;
    }
    sym_check(n <= ~(uint64_t)0 / sizeof(TT), "the byte count does not wrap around");
    if (n <= ~(uint64_t)0 / sizeof(TT)) sym_check(sym_alloc_size(p) >= n * sizeof(TT), "enough storage");
    sym_check(reinterpret_cast<uintptr_t>(p) % align == 0, "aligned");
    if (sym_native() && n < ((uint64_t)1 << 24)) std::memset(const_cast<TT*>(p), 1, n * sizeof(TT));
    al.deallocate(p, n);
    sym_reach("served");
}
template <class T> void aligned() {
    size_t w = pick("alignment", 0, 3);
    if (w == 0) one<T>(intp::AlignedAllocator<T, intp::Alignment::NORMAL>(), 8);
    if (w == 1) one<T>(intp::AlignedAllocator<T, intp::Alignment::SSE>(), 16);
    if (w == 2) one<T>(intp::AlignedAllocator<T, intp::Alignment::AVX>(), 32);
    if (w == 3) one<T>(intp::AlignedAllocator<T, intp::Alignment::AVX512>(), 64);
}
struct Odd { char c[24]; };
struct Big { char c[4096]; };
JOB(double_) { aligned<double>(); }
JOB(single_) { aligned<float>(); }
JOB(char_) { aligned<char>(); }
JOB(odd) { aligned<Odd>(); }
JOB(big) { aligned<Big>(); }
// several live blocks of concrete sizes: all bytes writable, disjoint, freed in any order
template <intp::Alignment A> void blocks() {
    intp::AlignedAllocator<double, A> al;
    intp::AlignedAllocator<char, A> ac(al);
    size_t n[3];
    double* p[3];
    static const char* const NN[] = {"n0", "n1", "n2"};
    for (size_t i = 0; i < 3; ++i) {
        n[i] = pick(NN[i], 0, 4);
        p[i] = al.allocate(n[i]);
        sym_check(reinterpret_cast<uintptr_t>(p[i]) % static_cast<size_t>(A) == 0, "aligned");
        for (size_t k = 0; k < n[i]; ++k) al.construct(p[i] + k, (double)(10 * i + k));
    }
    char* q = ac.allocate(7);
    std::memset(q, 7, 7);
    size_t first = pick("freed", 0, 2);
    for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < n[i]; ++k) sym_check_eq(p[i][k], (double)(10 * i + k), "contents kept");
    for (size_t i = 0; i < 3; ++i) al.deallocate(p[(first + i) % 3], n[(first + i) % 3]);
    for (size_t k = 0; k < 7; ++k) sym_check(q[k] == 7, "contents kept");
    ac.deallocate(q, 7);
    sym_reach("blocks");
}
JOB(blocks_avx) { blocks<intp::Alignment::AVX>(); }
JOB(blocks_512) { blocks<intp::Alignment::AVX512>(); }
JOB(vector_) {
    using A = intp::util::default_init_allocator<double, intp::AlignedAllocator<double, intp::Alignment::AVX>>;
    std::vector<double, A> v;
    size_t n = pick("n", 1, 9);
    for (size_t i = 0; i < n; ++i) {
        v.push_back((double)i);
        sym_check(reinterpret_cast<uintptr_t>(v.data()) % 32 == 0, "aligned");
    }
    std::vector<double, A> w(v), u(n);
    v.clear(); v.shrink_to_fit();
    u = std::move(w);
    for (size_t i = 0; i < n; ++i) sym_check_eq(u[i], (double)i, "contents kept");
    u.resize(n + 3, 5.);
    sym_check_eq(u[n + 2], 5., "contents kept");
    sym_check(reinterpret_cast<uintptr_t>(u.data()) % 32 == 0, "aligned");
    sym_reach("vector");
}
#ifdef INTP_STACK_ALLOCATOR
template <class T, size_t N> void stackAny(size_t cnt) {
    T buf[N];
    intp::util::stack_allocator<T, N> al(buf);
    static const char* const NN[] = {"n0", "n1", "n2", "n3"};
    uint64_t n[4];
    T* p[4];
    uint64_t used = 0;
    size_t got = 0;
    for (size_t i = 0; i < cnt; ++i) {
        n[i] = sym_u64(NN[i], 0, ~0ull);
        bool fits = n[i] <= N - used, ok = true;
        try { p[i] = al.allocate(n[i]); } catch (const std::bad_alloc&) { ok = false; }
        sym_check(ok == fits, "throws exactly when exhausted");
        if (!ok) { sym_reach("exhausted"); break; }
        sym_check(reinterpret_cast<uintptr_t>(p[i]) >= reinterpret_cast<uintptr_t>(buf) && reinterpret_cast<uintptr_t>(p[i]) + n[i] * sizeof(T) <= reinterpret_cast<uintptr_t>(buf) + sizeof(buf), "inside the buffer");
        for (size_t k = 0; k < i; ++k) sym_check(n[k] == 0 || n[i] == 0 || reinterpret_cast<uintptr_t>(p[k]) + n[k] * sizeof(T) <= reinterpret_cast<uintptr_t>(p[i]) || reinterpret_cast<uintptr_t>(p[i]) + n[i] * sizeof(T) <= reinterpret_cast<uintptr_t>(p[k]), "disjoint");
        used += n[i];
        ++got;
    }
    // last in, first out: released storage is available again
    size_t back = got ? pick("released", 0, got) : 0;
    for (size_t k = 0; k < back; ++k) { al.deallocate(p[got - 1 - k], n[got - 1 - k]); used -= n[got - 1 - k]; }
    uint64_t m = sym_u64("again", 0, ~0ull);
    bool fits = m <= N - used, ok = true;
    T* r = nullptr;
    try { r = al.allocate(m); } catch (const std::bad_alloc&) { ok = false; }
    sym_check(ok == fits, "released storage is reused");
    if (ok) {
        sym_check(reinterpret_cast<uintptr_t>(r) >= reinterpret_cast<uintptr_t>(buf) && reinterpret_cast<uintptr_t>(r) + m * sizeof(T) <= reinterpret_cast<uintptr_t>(buf) + sizeof(buf), "inside the buffer");
        for (size_t k = 0; k + back < got; ++k) sym_check(n[k] == 0 || m == 0 || reinterpret_cast<uintptr_t>(p[k]) + n[k] * sizeof(T) <= reinterpret_cast<uintptr_t>(r) || reinterpret_cast<uintptr_t>(r) + m * sizeof(T) <= reinterpret_cast<uintptr_t>(p[k]), "disjoint");
    }
    sym_check(al.capacity() == N && al.max_size() == N && al.buffer() == buf, "capacity");
    sym_reach("stack");
}
JOB(stack2) { stackAny<double, 6>(2); }
JOB(stack3) { stackAny<double, 8>(3); }
JOB(stack_big) { stackAny<double, 1000>(2); }
JOB(stack_char) { stackAny<char, 5>(3); }
JOB(stack_odd) { stackAny<Odd, 4>(2); }
JOB(T_stack3) { stackAny<double, 64>(3); }
#endif
