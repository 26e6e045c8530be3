// values and functions whose copies may throw: each copy is a choice of the environment while `budget` lasts
#ifndef FAULT_H
#define FAULT_H
#include "common.h"
static int budget = 0, fired = 0;
static void fault() { if (budget > 0 && mc_choose(2)) { --budget; throw err{50 + fired++}; } }
static bool is_fault(int code) { return code >= 1050 && code < 1050 + fired; }
struct fval {
    int v;
    explicit fval(int x = 0) : v(x) { mc_count(900, 1); }
    fval(const fval& o) : v((fault(), o.v)) { MC_CHECK(v >= 0, "copied a value that was %s", v == -1 ? "moved from" : "destroyed"); mc_count(900, 1); }
    fval(fval&& o) noexcept : v(o.v) { o.v = -1; mc_count(900, 1); }
    fval& operator=(const fval& o) { fault(); v = o.v; return *this; }
    fval& operator=(fval&& o) noexcept { int t = o.v; o.v = -1; v = t; return *this; }
    ~fval() { v = -9; mc_count(900, -1); }
};
struct fcopy { token t{70}; fcopy() {} fcopy(const fcopy& o) : t((fault(), o.t)) {} fcopy(fcopy&&) noexcept = default; };
// what a call throws, or 0
template <class F> int thrown(F f) { try { f(); return 0; } catch (const err& e) { return 1000 + e.code; } catch (...) { return -200; } }
#endif
