// C17: with multi-threading the parts into which construction is split do not conflict, and the function
// equals the one a single-threaded build constructs.  STUB_POOL: every task on a thread of its own, so that
// no accidental ordering between tasks hides a conflict; otherwise the library's pool.
#include "sym.h"
#include <future>
#include <thread>
#include <vector>
#ifdef STUB_POOL
#define INTP_THREAD_POOL
namespace intp {
template <class T> struct DedicatedThreadPool {
    using return_type = T;
    std::vector<std::thread> ts;
    std::mutex m;
    template <class F> std::future<T> queue_task(F f) {
        std::packaged_task<T()> t(std::move(f));
        auto r = t.get_future();
        std::lock_guard<std::mutex> lk(m);
        ts.emplace_back(std::move(t));
        return r;
    }
    bool is_main_queue_empty() { return true; }
    size_t thread_num() const { return 8; }
    static DedicatedThreadPool& get_instance(size_t = 8) { static DedicatedThreadPool p; return p; }
    ~DedicatedThreadPool() { for (auto& t : ts) t.join(); }
};
}
#endif
#include "common.hpp"
#include "ref.hpp"
using namespace H;
template <size_t D> struct RefOf {
    std::unique_ptr<RefFn> p;
    RefOf(const std::array<Axis, D>& ax, size_t O, const char* name = "f") {
        size_t n[D], tot = 1;
        bool per[D], uni[D];
        const double* c[D];
        for (size_t d = 0; d < D; ++d) { n[d] = ax[d].n; per[d] = ax[d].per; uni[d] = ax[d].uni; c[d] = ax[d].c.data(); tot *= n[d]; }
        std::vector<double> data;
        for (size_t i = 0; i < tot; ++i) data.push_back(sym_real_idx(name, i));
        p.reset(ref_make(D, O, n, per, uni, c, data.data()));
    }
};
// values at O + 1 points per dimension of every cell (they determine the polynomial of the cell)
template <size_t D, size_t O, class F> void everywhere(const std::array<Axis, D>& ax, F&& fn, RefFn& ref) {
    std::array<std::vector<double>, D> pts;
    for (size_t d = 0; d < D; ++d) {
        auto b = breakpoints(ax[d], O);
        for (size_t j = 0; j + 1 < b.size(); ++j) for (double x : piecePoints(b, j, O + 1)) pts[d].push_back(x);
    }
    std::array<size_t, D> i{};
    for (;;) {
        std::array<double, D> x;
        for (size_t d = 0; d < D; ++d) x[d] = pts[d][i[d]];
        sym_check_eq(fn(x), ref.value(x.data()), "value-equals-single-threaded");
        size_t d = 0;
        while (d < D && ++i[d] == pts[d].size()) i[d++] = 0;
        if (d == D) break;
    }
}
template <size_t D, size_t O> void built(const std::array<Axis, D>& ax) {
    SymData<D> f(ax);
    RefOf<D> ref(ax, O);
    auto fn = MakeD<double, D, O, double>::go(ax, meshOf<double, D>(ax, f));
    everywhere<D, O>(ax, fn, *ref.p);
    sym_reach("constructed");
    sym_run_atexit();
}
// one template, two data sets, both functions kept
template <size_t O> void reused() {
    std::array<Axis, 2> ax{{axis(5, true, UNI), axis(4, false, UNI)}};
    SymData<2> f(ax);
    RefOf<2> ra(ax, O), rb(ax, O, "g");
    intp::InterpolationFunctionTemplate<double, 2, O> tp({true, false}, {ax[0].dataLen(), ax[1].dataLen()}, std::make_pair(ax[0].c.front(), ax[0].c.back()), std::make_pair(ax[1].c.front(), ax[1].c.back()));
    auto fa = tp.interpolate(meshOf<double, 2>(ax, f));
    auto fb = tp.interpolate(meshOf<double, 2>(ax, [&](const std::array<size_t, 2>& i) { return sym_real_idx("g", i[0] * ax[1].n + i[1]); }));
    everywhere<2, O>(ax, fa, *ra.p);
    everywhere<2, O>(ax, fb, *rb.p);
    sym_reach("constructed");
    sym_run_atexit();
}
// two threads construct functions at the same time
void together() {
    std::array<Axis, 2> ax{{axis(4, false, UNI), axis(5, true, UNI)}};
    SymData<2> f(ax);
    RefOf<2> ra(ax, 2), rb(ax, 2, "g");
    auto ma = meshOf<double, 2>(ax, f), mb = meshOf<double, 2>(ax, [&](const std::array<size_t, 2>& i) { return sym_real_idx("g", i[0] * ax[1].n + i[1]); });
    std::unique_ptr<intp::InterpolationFunction<double, 2, 2>> fb;
    std::thread t([&] { fb.reset(new intp::InterpolationFunction<double, 2, 2>(MakeD<double, 2, 2, double>::go(ax, mb))); });
    auto fa = MakeD<double, 2, 2, double>::go(ax, ma);
    t.join();
    everywhere<2, 2>(ax, fa, *ra.p);
    everywhere<2, 2>(ax, *fb, *rb.p);
    sym_reach("constructed");
    sym_run_atexit();
}
#ifdef STUB_POOL
#define N(a, b) a
#else
#define N(a, b) b
#endif
JOB(d1_o3) { built<1, 3>({{axis(pick("n", 4, 6), pick("periodic", 0, 1), UNI)}}); }
JOB(d1_o1) { built<1, 1>({{axis(pick("n", 2, N(9, 4)), pick("periodic", 0, 1), IRR)}}); }
JOB(d2_o1_rows) { built<2, 1>({{axis(pick("n0", 2, N(20, 6)), false, UNI), axis(2, pick("periodic", 0, 1), UNI)}}); }
JOB(d2_o1_columns) { built<2, 1>({{axis(2, pick("periodic", 0, 1), UNI), axis(pick("n1", 2, N(20, 6)), false, UNI)}}); }
JOB(d2_o2) { built<2, 2>({{axis(pick("n0", 3, N(6, 4)), pick("periodic0", 0, 1), UNI), axis(pick("n1", 3, N(6, 4)), pick("periodic1", 0, 1), IRR)}}); }
JOB(d2_o3) { built<2, 3>({{axis(5, pick("periodic0", 0, 1), IRR), axis(pick("n1", 4, N(7, 4)), pick("periodic1", 0, 1), UNI)}}); }
JOB(d3_o1) { built<3, 1>({{axis(pick("n0", 2, N(4, 2)), pick("periodic0", 0, 1), UNI), axis(3, pick("periodic1", 0, 1), IRR), axis(pick("n2", 2, N(3, 2)), pick("periodic2", 0, 1), UNI)}}); }
JOB(d3_o2) { built<3, 2>({{axis(3, pick("periodic0", 0, 1), UNI), axis(4, true, UNI), axis(3, false, IRR)}}); }
JOB(reused_o1) { reused<1>(); }
JOB(reused_o3) { reused<3>(); }
JOB(together) { together(); }
#ifdef STUB_POOL
JOB(d2_o1_many) { built<2, 1>({{axis(pick("rows", 0, 1) ? 84 : 130, false, UNI), axis(2, false, UNI)}}); }
JOB(d2_o1_many2) { built<2, 1>({{axis(2, true, UNI), axis(pick("columns", 0, 1) ? 82 : 101, false, UNI)}}); }
JOB(d3_o1_many) { built<3, 1>({{axis(2, false, UNI), axis(9, true, UNI), axis(5, false, UNI)}}); }
#endif
JOB(T_d2_o1_rows) { built<2, 1>({{axis(pick("n0", 21, N(60, 20)), true, UNI), axis(2, pick("periodic", 0, 1), UNI)}}); }
JOB(T_d2_o1_columns) { built<2, 1>({{axis(2, pick("periodic", 0, 1), UNI), axis(pick("n1", 21, N(60, 20)), true, UNI)}}); }
JOB(T_d3_o1) { built<3, 1>({{axis(pick("n0", 2, 6), pick("periodic0", 0, 1), UNI), axis(pick("n1", 2, 5), pick("periodic1", 0, 1), UNI), axis(pick("n2", 2, 4), pick("periodic2", 0, 1), UNI)}}); }
