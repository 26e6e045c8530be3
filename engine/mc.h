// Harness-side interface of mcrt (see engine/mcrt.cpp).
#ifndef MC_H
#define MC_H
#include <cstddef>
#include <cstdint>
extern "C" {
// environment choice among n alternatives, all explored
int mc_choose(int n);
// visible event on a shared "log" object: makes the order of log events part of the behaviour explored
// and returns its position in the execution's log order
unsigned long mc_log(int id);
// explicit scheduling points on a named object (read / write)
void mc_visible(const void* obj, int write);
// property violated
void mc_fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
// order-insensitive counters, kept outside the program under test (no race, no scheduling point)
long mc_count(int k, long delta);
long mc_get(int k);
// names an outcome of this execution (distinct outcomes are counted)
void mc_outcome(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// virtual time in nanoseconds
long long mc_now();
int mc_tid();
// number of threads ever created in this execution (including the main one), and still alive
int mc_threads_created();
int mc_threads_alive();
// live heap blocks allocated since the execution began
long mc_live_blocks();
// true while the execution is being replayed from a file with tracing (for debugging output)
int mc_tracing();
void mc_trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// keeps a block reachable on purpose: not reported as leak
void mc_ignore_leaks(int on);
// wait until no other thread can run (without it being an error if they are blocked): lets the main
// thread observe quiescent states. Returns when every other live thread is blocked or finished.
void mc_quiesce();
// an operation enabled only when *flag != 0 (flag is plain memory changed by mc_set)
void mc_await(const int* flag);
void mc_set(int* flag, int v);
// sequential enumeration only: true if this state (hash of everything that determines the future) was seen
int mc_seen(uint64_t state);
}
struct mc_options {
    unsigned hw = 2;          // std::thread::hardware_concurrency()
    int mode = 0;             // 0: DPOR (unbounded); k>0: all interleavings with at most k-1 preemptions
    int mode_thorough = -1;   // the same for the thorough tier (-1: as quick)
    int timeouts = 1;         // 1: timed waits may time out at any moment; 0: only when nothing else can run
    int spurious = 0;         // number of spurious wakeups allowed per execution
    int leaks = 1;            // report unreleased memory
    int thorough_only = 0;
    int atexit_dtors = 1;
    int max_steps = 4000;
    double budget = 0;        // seconds for the quick tier (0: default)
};
struct mc_scenario {
    const char* props;        // comma separated property ids
    const char* name;
    void (*fn)();
    mc_options opt;
    mc_scenario* next;
    mc_scenario(const char* p, const char* n, void (*f)(), mc_options o);
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
// MC_SCENARIO("C01,C02", name, .hw = 2) { body }
#define MC_SCENARIO(props, name, ...)                                                              \
    static void scn_##name();                                                                      \
    static mc_scenario scnreg_##name(props, #name, &scn_##name, mc_options{__VA_ARGS__});          \
    static void scn_##name()
#define MC_CHECK(c, ...)                                                                           \
    do {                                                                                           \
        if (!(c)) mc_fail("check `" #c "` failed: " __VA_ARGS__);                                  \
    } while (0)
#endif
