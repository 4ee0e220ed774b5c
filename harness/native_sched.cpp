// Native counterpart of the engine's scheduler: runs the threads one at a time and follows the schedule
// recorded in a counterexample; used to replay violations of the thread checks on machine code.
#include "sym.h"
#include <pthread.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <atomic>
#include <linux/futex.h>
#include <sys/syscall.h>
// Not instrumented by any sanitizer, and hands the token over with plain futex calls: thread sanitizer sees
// only the synchronisation of the program itself (announced by sym_acquire/sym_release).
extern "C" { void __tsan_acquire(void*) __attribute__((weak)); void __tsan_release(void*) __attribute__((weak)); }
struct ST { pthread_t h; int id = 0; int st = 0; uint32_t* w = nullptr; uint32_t v = 0; bool ne = false; long join = -1; void* (*fn)(void*) = nullptr; void* arg = nullptr; };
static ST* th[64];
static int nth = 0;
static std::atomic<int> cur{0};
static __thread int me = 0;
std::vector<int> sym_sched;            // recorded decisions
std::vector<unsigned> sym_choices;
static size_t at = 0, chAt = 0;
unsigned sym_random = 0;               // != 0: random schedule
static unsigned long steps = 0;
bool sym_diverged = false;
static unsigned rnd() { sym_random ^= sym_random << 13; sym_random ^= sym_random >> 17; sym_random ^= sym_random << 5; return sym_random; }
static bool enabled(ST* t) {
    if (t->st == 2) return false;
    if (t->st == 0) return true;
    if (t->join >= 0) return th[t->join]->st == 2;
    return (__atomic_load_n(t->w, __ATOMIC_RELAXED) == t->v) != t->ne;
}
static void init() { if (!nth) th[nth++] = new ST; }
static void waitTurn() {
    for (int c; (c = cur.load()) != me;) syscall(SYS_futex, (int*)&cur, FUTEX_WAIT_PRIVATE, c, nullptr, nullptr, 0);
}
static void schedule() {  // called by the thread that has the token
    int en[64], n = 0;
    for (int i = 0; i < nth; ++i) if (enabled(th[i])) en[n++] = i;
    if (!n) { printf("REPLAY-DEADLOCK no thread can make progress\n"); fflush(stdout); _exit(1); }
    if (++steps > 400000) { printf("REPLAY-DEADLOCK the program does not end\n"); fflush(stdout); _exit(1); }
    int c = cur.load();
    int nx = enabled(th[c]) ? c : en[0];
    if (n > 1) {
        if (sym_random) nx = rnd() % 4 ? en[rnd() % n] : nx;
        else if (at < sym_sched.size()) {
            int w = sym_sched[at++];
            bool ok = false;
            for (int i = 0; i < n; ++i) ok = ok || en[i] == w;
            if (ok) nx = w; else sym_diverged = true;
        } else {  // beyond the record: fair rotation
            nx = en[0];
            for (int i = 0; i < n; ++i) if (en[i] > c) { nx = en[i]; break; }
        }
    }
    th[nx]->st = 0;
    if (nx != c) {
        bool done = th[me]->st == 2;
        cur.store(nx);
        syscall(SYS_futex, (int*)&cur, FUTEX_WAKE_PRIVATE, 1 << 20, nullptr, nullptr, 0);
        if (!done) waitTurn();
    }
}
static void* entry(void* p) {
    ST* t = (ST*)p;
    me = t->id;
    waitTurn();
    t->fn(t->arg);
    if (__tsan_release) __tsan_release(t);
    t->st = 2;
    schedule();
    return nullptr;
}
static std::vector<std::pair<void (*)(void*), void*>> exits;
extern "C" {
int symrt_cxa_atexit(void (*f)(void*), void* a, void*) { exits.push_back({f, a}); return 0; }
void sym_run_atexit() { while (!exits.empty()) { auto e = exits.back(); exits.pop_back(); e.first(e.second); } }
uint64_t sym_spawn(void* (*fn)(void*), void* arg) {
    init();
    ST* t = new ST;
    t->fn = fn; t->arg = arg; t->id = nth;
    th[nth++] = t;
    pthread_create(&t->h, nullptr, entry, t);
    return t->id;
}
uint64_t sym_tid() { return me; }
void sym_preempt() { init(); schedule(); }
static void block(uint32_t* p, uint32_t v, bool ne) {
    init();
    while ((__atomic_load_n(p, __ATOMIC_RELAXED) == v) == ne) { ST* t = th[me]; t->st = 1; t->w = p; t->v = v; t->ne = ne; t->join = -1; schedule(); }
}
void sym_wait_eq(uint32_t* p, uint32_t v) { block(p, v, false); }
void sym_wait_ne(uint32_t* p, uint32_t v) { block(p, v, true); }
void sym_wait_done(uint64_t i) {
    init();
    while (th[i]->st != 2) { ST* t = th[me]; t->st = 1; t->join = (long)i; schedule(); t->join = -1; }
    if (__tsan_acquire) __tsan_acquire(th[i]);
}
unsigned sym_choice(unsigned n) {
    if (n <= 1) return 0;
    if (sym_random) return rnd() % n;
    unsigned k = chAt < sym_choices.size() ? sym_choices[chAt] : 0;
    ++chAt;
    return k < n ? k : 0;
}
void sym_acquire(void* p) { if (__tsan_acquire) __tsan_acquire(p); }
void sym_release(void* p) { if (__tsan_release) __tsan_release(p); }
}
