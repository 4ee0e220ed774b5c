// C16: every task given to the pool runs exactly once, futures become ready, and the pool stops, in every
// interleaving.  Job names: _p<k> at most k preemptions, otherwise every schedule.
#include "sym.h"
#include <DedicatedThreadPool.hpp>
#include <memory>
#include <stdexcept>
extern "C" { extern long symrt_spawn_budget, symrt_spurious, symrt_threads_made; extern unsigned symrt_hw; }
template <class T> using Pool = intp::DedicatedThreadPool<T>;
static int ran[40];
static uint64_t val(unsigned i) { static const char* n[] = {"v0", "v1", "v2", "v3"}; return sym_u64(n[i & 3], 0, 1000) + i; }
// n tasks with symbolic results; the task numbered thrower (symbolic) throws instead
template <bool Throws> static void awaited(unsigned workers, unsigned n, bool reverse) {
    auto& p = Pool<uint64_t>::get_instance(workers);
    sym_check(p.thread_num() == workers, "number-of-threads");
    uint64_t thrower = Throws ? sym_u64("thrower", 0, n - 1) : 99;
    std::vector<std::future<uint64_t>> f;
    uint64_t want[40];
    for (unsigned i = 0; i < n; ++i) {
        want[i] = val(i);
        uint64_t w = want[i];
        f.push_back(p.queue_task([i, w, thrower]() -> uint64_t { ++ran[i]; if (i == thrower) throw w; return w; }));
    }
    if (p.is_main_queue_empty()) sym_reach("tasks-taken-before-waiting");
    for (unsigned k = 0; k < n; ++k) {
        unsigned i = reverse ? n - 1 - k : k;
        bool thrown = false;
        uint64_t got = 0;
        try { got = f[i].get(); } catch (uint64_t& e) { got = e; thrown = true; }
        sym_check(got == want[i], "future-has-the-task-result");
        sym_check(thrown == (i == thrower), "future-has-the-task-exception");
        sym_check(ran[i] == 1, "task-has-run-when-its-future-is-ready");
    }
    sym_check(p.is_main_queue_empty(), "main-queue-empty-when-all-tasks-are-done");
    sym_run_atexit();
    for (unsigned i = 0; i < n; ++i) sym_check(ran[i] == 1, "task-runs-exactly-once");
    sym_reach("pool-destroyed");
}
JOB(one_worker_one_task) { awaited<false>(1, 1, false); }
JOB(one_worker_two_tasks_throw) { awaited<true>(1, 2, false); }
JOB(one_worker_three_tasks) { awaited<false>(1, 3, true); }
JOB(two_workers_one_task) { awaited<false>(2, 1, false); }
JOB(two_workers_two_tasks_p4) { awaited<false>(2, 2, false); }
JOB(two_workers_two_tasks_throw_p3) { awaited<true>(2, 2, true); }
JOB(two_workers_three_tasks_p3) { awaited<false>(2, 3, true); }
JOB(three_workers_two_tasks_p2) { awaited<false>(3, 2, false); }
JOB(four_workers_one_task_p1) { awaited<false>(4, 1, false); }
JOB(one_worker_batches_p1) { awaited<false>(1, 19, false); }
JOB(two_workers_batches_p1) { awaited<false>(2, 18, true); }
JOB(T_two_workers_two_tasks) { awaited<false>(2, 2, false); }
JOB(T_two_workers_three_tasks_p5) { awaited<true>(2, 3, true); }
JOB(T_three_workers_three_tasks_p4) { awaited<false>(3, 3, false); }
JOB(T_two_workers_batches_p2) { awaited<false>(2, 35, true); }
// no task at all
static void idle(unsigned w) { auto& p = Pool<int>::get_instance(w); sym_check(p.is_main_queue_empty(), "new-pool-is-empty"); sym_run_atexit(); sym_reach("pool-destroyed"); }
JOB(idle_one) { idle(1); }
JOB(idle_two) { idle(2); }
JOB(idle_three_p4) { idle(3); }
JOB(idle_default_det) { symrt_hw = 0; auto& p = Pool<int>::get_instance(); sym_check(p.thread_num() >= 1, "default-pool-has-workers"); auto f = p.queue_task([] { return 4; }); sym_check(f.get() == 4, "future-has-the-task-result"); sym_run_atexit(); sym_reach("pool-destroyed"); }
JOB(zero_det) { auto& p = Pool<int>::get_instance(0); sym_check(p.thread_num() >= 1, "default-pool-has-workers"); auto f = p.queue_task([] { return 4; }); sym_check(f.get() == 4, "future-has-the-task-result"); sym_run_atexit(); sym_reach("pool-destroyed"); }
// tasks nobody waits for: at most once, and destruction still ends and leaves a valid future
static void pending(unsigned w, unsigned n) {
    std::vector<std::future<int>> f;
    auto& p = Pool<int>::get_instance(w);
    for (unsigned i = 0; i < n; ++i) f.push_back(p.queue_task([i]() -> int { ++ran[i]; return 7; }));
    sym_run_atexit();
    for (unsigned i = 0; i < n; ++i) {
        sym_check(ran[i] <= 1, "task-runs-at-most-once");
        int v = 0;
        bool broken = false;
        try { v = f[i].get(); } catch (std::future_error&) { broken = true; }
        sym_check(broken ? ran[i] == 0 : (ran[i] == 1 && v == 7), "future-of-a-dropped-task-is-broken-and-of-a-run-task-ready");
    }
    sym_reach("pool-destroyed");
}
JOB(pending_one_worker) { pending(1, 2); }
JOB(pending_two_workers_p4) { pending(2, 2); }
JOB(T_pending_two_workers) { pending(2, 1); }
JOB(T_pending_three_p3) { pending(3, 3); }
// two threads submit at the same time
static void submitters(unsigned w, unsigned each) {
    auto& p = Pool<int>::get_instance(w);
    std::thread t([&p, each] {
        std::vector<std::future<int>> g;
        for (unsigned i = 0; i < each; ++i) g.push_back(p.queue_task([i]() -> int { ++ran[10 + i]; return 20 + i; }));
        for (unsigned i = 0; i < each; ++i) sym_check(g[i].get() == int(20 + i), "future-has-the-task-result");
    });
    auto f = p.queue_task([]() -> int { ++ran[0]; return 1; });
    sym_check(f.get() == 1, "future-has-the-task-result");
    t.join();
    sym_run_atexit();
    sym_check(ran[0] == 1, "task-runs-exactly-once");
    for (unsigned i = 0; i < each; ++i) sym_check(ran[10 + i] == 1, "task-runs-exactly-once");
    sym_reach("pool-destroyed");
}
JOB(two_submitters_one_worker_p4) { submitters(1, 1); }
JOB(two_submitters_two_workers_p2) { submitters(2, 2); }
JOB(T_two_submitters_two_workers_p4) { submitters(2, 1); }
// a task submits another task
JOB(nested_p3) {
    auto& p = Pool<int>::get_instance(2);
    std::future<int> inner;
    auto f = p.queue_task([&]() -> int { ++ran[0]; inner = Pool<int>::get_instance().queue_task([]() -> int { ++ran[1]; return 5; }); return 2; });
    sym_check(f.get() == 2, "future-has-the-task-result");
    sym_check(inner.get() == 5, "future-has-the-task-result");
    sym_run_atexit();
    sym_check(ran[0] == 1 && ran[1] == 1, "task-runs-exactly-once");
    sym_reach("pool-destroyed");
}
// work arriving after the workers have gone to sleep again
JOB(rounds_p2) {
    auto& p = Pool<uint64_t>::get_instance(2);
    for (unsigned i = 0; i < 3; ++i) {
        uint64_t w = val(i);
        auto f = p.queue_task([i, w] { ++ran[i]; return w; });
        sym_check(f.get() == w, "future-has-the-task-result");
        sym_check(ran[i] == 1, "task-runs-exactly-once");
    }
    sym_run_atexit();
    sym_reach("pool-destroyed");
}
// tasks without a result, move-only tasks, dropped futures
JOB(void_tasks_p3) {
    auto& p = Pool<void>::get_instance(2);
    std::unique_ptr<int> q(new int(3));
    int r = 0;
    auto f = p.queue_task([&r] { ++ran[0]; r = 3; });
    { auto g = p.queue_task([] { ++ran[1]; }); (void)g; }
    f.get();
    sym_check(r == 3, "effect-of-the-task-is-visible");
    sym_run_atexit();
    sym_check(ran[0] == 1, "task-runs-exactly-once");
    sym_check(ran[1] <= 1, "task-runs-at-most-once");
    sym_reach("pool-destroyed");
}
// the singleton is created once even when two threads ask for it first
JOB(first_use_by_two_threads_p3) {
    Pool<int>* a = nullptr;
    std::thread t([&a] { a = &Pool<int>::get_instance(1); });
    Pool<int>* b = &Pool<int>::get_instance(1);
    t.join();
    sym_check(a == b, "one-instance");
    sym_check(symrt_threads_made == 2, "one-instance-of-workers");
    auto f = a->queue_task([] { return 9; });
    sym_check(f.get() == 9, "future-has-the-task-result");
    sym_run_atexit();
    sym_reach("pool-destroyed");
}
// a thread cannot be created: the constructor fails, the threads already running are ended and joined
static void nothread(unsigned budget, unsigned w) {
    symrt_spawn_budget = budget;
    bool thrown = false;
    try { Pool<int>::get_instance(w); } catch (std::system_error&) { thrown = true; }
    sym_check(thrown, "failure-to-create-a-thread-is-reported");
    symrt_spawn_budget = -1;
    auto f = Pool<int>::get_instance(1).queue_task([] { return 6; });
    sym_check(f.get() == 6, "pool-usable-after-a-failed-construction");
    sym_run_atexit();
    sym_reach("pool-destroyed");
}
JOB(no_thread_p3) { nothread(0, 2); }
JOB(no_second_thread_p3) { nothread(1, 2); }
JOB(no_third_thread_p2) { nothread(2, 3); }
// spurious wakeups
JOB(spurious_one_worker) { symrt_spurious = 1; awaited<false>(1, 1, false); }
JOB(spurious_two_workers_p2) { symrt_spurious = 2; awaited<false>(2, 2, false); }
JOB(T_four_workers_one_task_p2) { awaited<false>(4, 1, false); }
