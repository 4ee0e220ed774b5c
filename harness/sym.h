// Interface between harness programs and the symbolic executor.  The same harness is compiled
//  (a) to LLVM IR and executed symbolically (sym_* are engine primitives), and
//  (b) natively with -DSYM_NATIVE for replaying counterexamples (sym_* read the model's values).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double sym_real(const char* name);                       // arbitrary real number
double sym_real_idx(const char* name, uint64_t i);       // arbitrary real number name<i>
double sym_int(const char* name);                        // arbitrary integer-valued real
double sym_fp(const char* name);                         // arbitrary double (fp mode), real otherwise
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);
double sym_ratio(int64_t p, int64_t q);                  // exact constant p/q, opaque to the compiler
uint64_t sym_size(uint64_t n);                           // n, opaque to the compiler
double sym_const(double v);                              // v, opaque to the compiler
void sym_assume(bool c);
void sym_check(bool c, const char* id);                  // must hold for all values
void sym_check_eq(double a, double b, const char* id);   // must be equal for all values
void sym_use(double v);                                  // must not depend on uninitialised memory
void sym_reach(const char* id);                          // vacuity witness
void sym_print(const char* name, double v);
void sym_printu(const char* name, uint64_t v);
int sym_mode();                                          // 0 real, 1 fp
int sym_native();
uint64_t sym_alloc_size(const void* p);
uint64_t sym_concrete(uint64_t v);
int sym_is_symbolic(uint64_t v);
void sym_run_atexit();
// threads
uint64_t sym_spawn(void* (*fn)(void*), void* arg);
uint64_t sym_tid();
void sym_wait_done(uint64_t tid);
void sym_wait_eq(uint32_t* p, uint32_t v);
void sym_wait_ne(uint32_t* p, uint32_t v);
unsigned sym_choice(unsigned n);
void sym_preempt();
void sym_acquire(void* p);
void sym_release(void* p);
void sym_log(const char* msg);
void sym_phase(int p);
void sym_round_tail(uint64_t n);                         // integer parts above n are treated as one case
void sym_div_nonzero(int on);                            // from here on denominators are assumed to be nonzero
}
#ifdef SYM_NATIVE
struct SymJob { const char* name; void (*fn)(); SymJob* next; static SymJob*& head() { static SymJob* h = nullptr; return h; } SymJob(const char* n, void (*f)()) : name(n), fn(f), next(head()) { head() = this; } };
#define JOB(name) extern "C" void job_##name(); static SymJob symreg_##name(#name, job_##name); extern "C" __attribute__((noinline)) void job_##name()
#else
#define JOB(name) extern "C" __attribute__((noinline)) void job_##name()
#endif
