// Model of the threading runtime (what libstdc++.so and libpthread provide) in terms of the
// scheduler primitives of sym.h.  Linked into the bitcode of the thread checks; executed symbolically
// by the engine and, compiled to machine code, by the schedule replay (native_sched.cpp).
// Everything that is a template or inline in libstdc++ (packaged_task, future, shared_ptr, function,
// unique_lock, deque ...) is the real code.  Functions named symrt_* are exempt from race detection.
#include "sym.h"
#include <cerrno>
#include <condition_variable>
#include <future>
#include <mutex>
#include <system_error>
#include <thread>
#define NI __attribute__((noinline))
char __libc_single_threaded = 0;
// harness controls
extern "C" {
long symrt_spawn_budget = -1;     // thread creation fails once this many threads have been made (-1: never)
long symrt_spurious = 0;          // number of spurious condition variable wakeups that may be injected
long symrt_threads_made = 0;
unsigned symrt_hw = 2;
// ---------------------------------------------------------------- mutex: word 0 is the owner (0: free)
NI int symrt_mutex_lock(void* m) {
    auto* w = (uint32_t*)m;
    sym_preempt();
    uint32_t me = (uint32_t)sym_tid() + 1;
    while (*w != 0) {
        if (*w == me) { sym_check(false, "mutex-locked-twice-by-one-thread"); return EDEADLK; }
        sym_wait_eq(w, 0);
    }
    *w = me;
    sym_acquire(m);
    return 0;
}
NI int symrt_mutex_trylock(void* m) {
    auto* w = (uint32_t*)m;
    sym_preempt();
    if (*w) return EBUSY;
    *w = (uint32_t)sym_tid() + 1;
    sym_acquire(m);
    return 0;
}
NI int symrt_mutex_unlock(void* m) {
    auto* w = (uint32_t*)m;
    if (*w != (uint32_t)sym_tid() + 1) { sym_check(false, "mutex-unlocked-by-non-owner"); return EPERM; }
    sym_release(m);
    *w = 0;
    return 0;
}
int symrt_mutex_init(void* m, const void*) { *(uint32_t*)m = 0; return 0; }
int symrt_mutex_destroy(void*) { return 0; }
// ---------------------------------------------------------------- reader/writer lock: 0 free, n readers, ~0 writer
NI int symrt_rwlock_rdlock(void* m) { auto* w = (uint32_t*)m; sym_preempt(); while (*w == ~0u) sym_wait_ne(w, ~0u); ++*w; sym_acquire(m); return 0; }
NI int symrt_rwlock_wrlock(void* m) { auto* w = (uint32_t*)m; sym_preempt(); while (*w) sym_wait_eq(w, 0); *w = ~0u; sym_acquire(m); return 0; }
NI int symrt_rwlock_unlock(void* m) { auto* w = (uint32_t*)m; sym_release(m); if (*w == ~0u) *w = 0; else --*w; return 0; }
// ---------------------------------------------------------------- condition variable: list of waiters on their stacks
struct SymWaiter { uint32_t flag; SymWaiter* next; };
NI int symrt_cond_wait(void* c, void* m) {
    auto** head = (SymWaiter**)c;
    SymWaiter me;
    sym_preempt();  // between the caller's predicate and the wait
    me.flag = 0;
    if (symrt_spurious > 0 && sym_choice(2)) {
        --symrt_spurious;
        symrt_mutex_unlock(m);
        symrt_mutex_lock(m);
        return 0;
    }
    me.next = *head;
    *head = &me;
    symrt_mutex_unlock(m);
    sym_wait_eq(&me.flag, 1);
    symrt_mutex_lock(m);
    return 0;
}
NI int symrt_cond_timedwait(void*, void* m, const void*) { symrt_mutex_unlock(m); symrt_mutex_lock(m); return ETIMEDOUT; }
NI int symrt_cond_clockwait(void*, void* m, int, const void*) { symrt_mutex_unlock(m); symrt_mutex_lock(m); return ETIMEDOUT; }
NI int symrt_cond_signal(void* c) {
    sym_preempt();
    auto** head = (SymWaiter**)c;
    unsigned n = 0;
    for (auto* p = *head; p; p = p->next) ++n;
    if (!n) return 0;
    unsigned k = sym_choice(n);
    auto** at = head;
    while (k--) at = &(*at)->next;
    SymWaiter* p = *at;
    *at = p->next;
    p->flag = 1;
    return 0;
}
NI int symrt_cond_broadcast(void* c) {
    sym_preempt();
    auto** head = (SymWaiter**)c;
    auto* p = *head;
    *head = nullptr;
    while (p) { auto* n = p->next; p->flag = 1; p = n; }
    return 0;
}
NI void symrt_cond_init(void* c) { *(SymWaiter**)c = nullptr; }
NI void symrt_cond_destroy(void* c) { if (*(SymWaiter**)c) sym_check(false, "condition-variable-destroyed-while-waited-on"); }
// ---------------------------------------------------------------- once, static initialisation guards
NI int symrt_once(void* ctl, void (*fn)()) {
    auto* w = (uint32_t*)ctl;
    while (*w != 2) {
        if (*w == 0) {
            *w = 1;
            try { fn(); } catch (...) { *w = 0; throw; }
            sym_release(ctl);
            *w = 2;
            return 0;
        }
        sym_wait_ne(w, 1);
    }
    sym_acquire(ctl);
    return 0;
}
NI int symrt_guard_acquire(uint64_t* g) {  // byte 0: initialised, word 1: 1 while being initialised
    auto* b = (uint8_t*)g;
    auto* w = (uint32_t*)g + 1;
    sym_preempt();
    while (!*b) {
        if (!*w) { *w = 1; return 1; }
        sym_wait_eq(w, 0);
    }
    sym_acquire(g);
    return 0;
}
NI void symrt_guard_release(uint64_t* g) { sym_release(g); *(uint8_t*)g = 1; ((uint32_t*)g)[1] = 0; }
NI void symrt_guard_abort(uint64_t* g) { ((uint32_t*)g)[1] = 0; }
// ---------------------------------------------------------------- threads
struct SymStart { std::thread::_State* s; };
NI void* symrt_thread_main(void* p) {
    auto* s = (std::thread::_State*)p;
    s->_M_run();
    delete s;
    return nullptr;
}
int symrt_yield() { sym_preempt(); return 0; }
int symrt_nanosleep(const void*, void*) { sym_preempt(); return 0; }
NI bool symrt_may_spawn() { if (symrt_spawn_budget >= 0 && symrt_threads_made >= symrt_spawn_budget) return false; ++symrt_threads_made; return true; }
}
namespace std {
// class mutex uses pthread_* (renamed to symrt_*) inline
condition_variable::condition_variable() noexcept { symrt_cond_init(this); }
condition_variable::~condition_variable() noexcept { symrt_cond_destroy(this); }
void condition_variable::wait(unique_lock<mutex>& lk) { symrt_cond_wait(this, lk.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { symrt_cond_signal(this); }
void condition_variable::notify_all() noexcept { symrt_cond_broadcast(this); }

thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)()) {
    if (!symrt_may_spawn()) __throw_system_error(EAGAIN);
    _M_id = id(sym_spawn(symrt_thread_main, s.release()) + 1);
    sym_preempt();
}
void thread::join() {
    if (_M_id == id()) __throw_system_error(EINVAL);
    sym_wait_done(*(uint64_t*)&_M_id - 1);
    _M_id = id();
}
void thread::detach() { if (_M_id == id()) __throw_system_error(EINVAL); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return symrt_hw; }

__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }

bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { sym_wait_ne(a, v); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { sym_wait_ne(a, v); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}

__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return "future_error"; }
namespace {
struct SymCategory : error_category {
    const char* name() const noexcept override { return "future"; }
    string message(int) const override { return "future"; }
};
}
const error_category& future_category() noexcept {
    static const SymCategory c{};
    return c;
}
}
