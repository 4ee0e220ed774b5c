// Native side of sym.h: replays the values of a counterexample against the real code.
#include "sym.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <malloc.h>
static std::map<std::string, std::string> vals;
static double tol = 1e-9;
static int failures = 0;
static std::string failId;
static double parse(const std::string& s) {
    if (s.rfind("0x", 0) == 0) { uint64_t b = strtoull(s.c_str(), 0, 16); double d; memcpy(&d, &b, 8); return d; }
    auto p = s.find('/');
    if (p != std::string::npos) {
        long double n = strtold(s.substr(0, p).c_str(), 0), d = strtold(s.substr(p + 1).c_str(), 0);
        return (double)(n / d);
    }
    return strtod(s.c_str(), 0);
}
extern "C" {
double sym_real(const char* n) { auto it = vals.find(n); return it == vals.end() ? 0.0 : parse(it->second); }
double sym_real_idx(const char* n, uint64_t i) { return sym_real((std::string(n) + std::to_string(i)).c_str()); }
double sym_int(const char* n) { return sym_real(n); }
double sym_fp(const char* n) { return sym_real(n); }
uint64_t sym_u64(const char* n, uint64_t lo, uint64_t) { auto it = vals.find(n); return it == vals.end() ? lo : strtoull(it->second.c_str(), 0, 10); }
double sym_ratio(int64_t p, int64_t q) { return (double)p / (double)q; }
uint64_t sym_size(uint64_t n) { return n; }
double sym_const(double v) { return v; }
void sym_assume(bool c) { if (!c) { fprintf(stderr, "assumption false\n"); _Exit(5); } }
void sym_check(bool c, const char* id) { if (!c) { ++failures; failId = id; printf("REPLAY-FAIL check %s\n", id); } }
void sym_check_eq(double a, double b, const char* id) {
    double sc = 1 + std::max(std::fabs(a), std::fabs(b));
    if (!(std::fabs(a - b) <= tol * sc)) { ++failures; failId = id; printf("REPLAY-FAIL check %s: %.17g vs %.17g\n", id, a, b); }
}
static volatile double sink;
void sym_use(double v) { if (v > 0) sink = v; else sink = -v; }
void sym_reach(const char*) {}
void sym_print(const char* n, double v) { fprintf(stderr, "%s = %.17g\n", n, v); }
void sym_printu(const char* n, uint64_t v) { fprintf(stderr, "%s = %lu\n", n, v); }
int sym_mode() { return 0; }
int sym_native() { return 1; }
uint64_t sym_alloc_size(const void* p) { return malloc_usable_size((void*)p); }
uint64_t sym_concrete(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t) { return 0; }
#ifndef SYM_SCHED
void sym_run_atexit() {}
void sym_preempt() {}
unsigned sym_choice(unsigned) { return 0; }
#endif
void sym_log(const char*) {}
void sym_phase(int) {}
void sym_round_tail(uint64_t) {}
void sym_div_nonzero(int) {}
}
#ifdef SYM_SCHED
#include <dlfcn.h>
#include <vector>
extern std::vector<int> sym_sched;
extern std::vector<unsigned> sym_choices;
extern unsigned sym_random;
#endif
int main(int argc, char** argv) {
    std::string job = argv[1];
    if (argc > 2) {
        std::ifstream f(argv[2]);
        std::string k, v;
        while (f >> k >> v) vals[k] = v;
    }
    if (argc > 3) tol = atof(argv[3]);
#ifdef SYM_SCHED
    {
        std::ifstream f(argv[2]);
        std::string l;
        while (std::getline(f, l)) { unsigned n; if (sscanf(l.c_str(), "#sched ->_T%u", &n) == 1) sym_sched.push_back(n); }
        for (int i = 0; i < 100000; ++i) { auto it = vals.find("choice!" + std::to_string(i)); if (it == vals.end()) break; sym_choices.push_back((unsigned)strtoul(it->second.c_str(), 0, 10)); }
        if (argc > 4) sym_random = (unsigned)atoi(argv[4]);
        auto fn = (void (*)())dlsym(RTLD_DEFAULT, ("job_" + job).c_str());
        if (!fn) { printf("no such job\n"); return 4; }
        SymJob* j = new SymJob("", fn);
        j->name = strdup(job.c_str());
    }
#endif
    for (auto* j = SymJob::head(); j; j = j->next)
        if (job == j->name) {
            try { j->fn(); } catch (std::exception& e) { printf("REPLAY-FAIL uncaught exception %s\n", e.what()); return 1; } catch (...) { printf("REPLAY-FAIL uncaught exception\n"); return 1; }
            printf(failures ? "REPLAY: %d check(s) fail\n" : "REPLAY: all checks pass\n", failures);
            fflush(stdout);
            return failures ? 1 : 0;
        }
    printf("no such job\n");
    return 4;
}
