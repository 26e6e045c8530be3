// PROPS: C17 C12 C33
// pre-exit handlers
#define WANT_FUTURE
#include "common.h"
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/pre_exit.hpp>
using namespace stlab;

static int order[64], n_run;
static bool open_;
static int adds[8][3];      // what handler i registers while it runs (handler + 1, 0 = nothing)
static int budget;
template <int I> void H() noexcept;
static pre_exit_handler handler(int i);
static std::vector<int>* model;  // reference: the stack
static void run_model(int i) {
    MC_CHECK(open_, "handler %d ran outside of pre_exit", i);
    if (model) {
        MC_CHECK(!model->empty(), "handler %d ran although none was due", i);
        MC_CHECK(model->back() == i, "handler %d ran, handler %d was due", i, model->back());
        model->pop_back();
    }
    order[n_run++] = i;
    mc_count(20 + i, 1);
    if (model) for (int a : adds[i]) if (a && budget > 0) { --budget; at_pre_exit(handler(a - 1)); model->push_back(a - 1); }
}
template <int I> void H() noexcept { run_model(I); }
static pre_exit_handler handler(int i) { static constexpr pre_exit_handler h[] = {&H<0>, &H<1>, &H<2>, &H<3>, &H<4>, &H<5>, &H<6>, &H<7>}; return h[i]; }
static void start() { n_run = 0; open_ = false; budget = 0; model = nullptr; for (auto& a : adds) for (int& x : a) x = 0; }

// all sequences of registrations (the same handler may be registered more than once), all one-level registrations by handlers
template <int L, int K> void sequences(bool nested) {
    start();
    std::vector<int> m; model = &m;
    int l = mc_choose(L + 1);
    for (int i = 0; i < l; ++i) { int h = mc_choose(K); at_pre_exit(handler(h)); m.push_back(h); }
    if (nested) { budget = 3; for (int h = 0; h < K; ++h) { adds[h][0] = mc_choose(K + 1); if (adds[h][0]) adds[h][1] = mc_choose(K + 1); } }
    open_ = true;
    pre_exit();
    open_ = false;
    MC_CHECK(m.empty(), "%d handlers were not run", (int)m.size());
}
MC_SCENARIO("C17", sequences_6) { sequences<6, 3>(false); }
MC_SCENARIO("C17", sequences_nested) { sequences<3, 2>(true); }
MC_SCENARIO("C17", sequences_nested3, .budget = 20) { sequences<2, 3>(true); }
// a long history: the stack grows
MC_SCENARIO("C17,C33", many) {
    start();
    std::vector<int> m; model = &m;
    for (int i = 0; i < 40; ++i) { at_pre_exit(handler(i % 8)); m.push_back(i % 8); }
    open_ = true; pre_exit(); open_ = false;
    MC_CHECK(m.empty() && n_run == 40, "%d", n_run);
}
// concurrent registration: nothing lost or repeated, each thread's handlers in reverse
template <int N> void concurrent() {
    start();
    std::thread a([] { for (int i = 0; i < N; ++i) at_pre_exit(handler(i)); });
    std::thread b([] { for (int i = 0; i < N; ++i) at_pre_exit(handler(N + i)); });
    a.join(); b.join();
    open_ = true; pre_exit(); open_ = false;
    MC_CHECK(n_run == 2 * N, "%d handlers ran, %d were registered", n_run, 2 * N);
    for (int i = 0; i < 2 * N; ++i) MC_CHECK(mc_get(20 + i) == 1, "handler %d ran %ld times", i, mc_get(20 + i));
    auto at = [](int h) { for (int i = 0; i < n_run; ++i) if (order[i] == h) return i; return -1; };
    for (int i = 0; i + 1 < N; ++i) { MC_CHECK(at(i) > at(i + 1), "order"); MC_CHECK(at(N + i) > at(N + i + 1), "order"); }
    all_done();
}
MC_SCENARIO("C17,C33", concurrent_1) { concurrent<1>(); }
MC_SCENARIO("C17,C33", concurrent_2) { concurrent<2>(); }
MC_SCENARIO("C17", concurrent_4, .mode = 4, .mode_thorough = 0) { concurrent<4>(); }
MC_SCENARIO("C17,C33", concurrent_three) {
    start();
    std::thread t[3];
    for (int i = 0; i < 3; ++i) t[i] = std::thread([i] { at_pre_exit(handler(i)); });
    for (auto& x : t) x.join();
    open_ = true; pre_exit(); open_ = false;
    for (int i = 0; i < 3; ++i) MC_CHECK(mc_get(20 + i) == 1, "handler %d ran %ld times", i, mc_get(20 + i));
    all_done();
}
// while pre_exit runs, another thread registers; a running handler waits for it, so it is before the call's end
static std::thread* worker; static int go_;
MC_SCENARIO("C17,C33", register_during) {
    start();
    go_ = 0;
    std::thread t([] { mc_await(&go_); at_pre_exit(handler(1)); at_pre_exit(handler(2)); });
    worker = &t;
    at_pre_exit(handler(0));
    at_pre_exit([]() noexcept { mc_count(30, 1); worker->join(); });
    at_pre_exit(handler(3));
    at_pre_exit([]() noexcept { mc_count(31, 1); mc_set(&go_, 1); });
    open_ = true; pre_exit(); open_ = false;
    for (int i = 0; i < 4; ++i) MC_CHECK(mc_get(20 + i) == 1, "handler %d ran %ld times", i, mc_get(20 + i));
    MC_CHECK(mc_get(30) == 1 && mc_get(31) == 1, "");
    auto at = [](int h) { for (int i = 0; i < n_run; ++i) if (order[i] == h) return i; return -1; };
    MC_CHECK(at(0) == 3, "the handler registered first did not run last");
    all_done();
}
// together with the pool: what is registered after the pool's first use may still submit; what is registered before runs when the pool is gone
MC_SCENARIO("C17,C12,C33", with_pool, .hw = 2, .mode = 3, .mode_thorough = 4) {
    start();
    at_pre_exit([]() noexcept { mc_count(40, 1); MC_CHECK(mc_get(41) == 2 && mc_get(42) == 1, "a handler registered before the pool ran before the pool was drained"); MC_CHECK(mc_threads_alive() == 1, "pool threads alive"); });
    default_executor([]() noexcept { mc_count(41, 1); });
    at_pre_exit([]() noexcept { mc_count(42, 1); default_executor([]() noexcept { mc_count(41, 1); }); });
    pre_exit();
    MC_CHECK(mc_get(40) == 1 && mc_get(41) == 2 && mc_get(42) == 1, "%ld %ld %ld", mc_get(40), mc_get(41), mc_get(42));
    all_done();
}
// the pool is first used by a handler
MC_SCENARIO("C17,C12", pool_first_used_in_handler, .hw = 2, .mode = 3, .mode_thorough = 4) {
    start();
    at_pre_exit([]() noexcept { mc_count(40, 1); MC_CHECK(mc_get(41) == 1, "the pool was not drained"); });
    at_pre_exit([]() noexcept { mc_count(42, 1); default_executor([]() noexcept { mc_count(41, 1); }); });
    pre_exit();
    MC_CHECK(mc_get(40) == 1 && mc_get(41) == 1 && mc_get(42) == 1, "%ld %ld %ld", mc_get(40), mc_get(41), mc_get(42));
    all_done();
}
// a pool task registers a handler while the pool is being drained
MC_SCENARIO("C17,C33", registered_by_task, .hw = 2, .mode = 3, .mode_thorough = 4) {
    start();
    at_pre_exit(handler(0));
    open_ = true;
    default_executor([]() noexcept { at_pre_exit(handler(1)); mc_count(41, 1); });
    pre_exit();
    open_ = false;
    MC_CHECK(mc_get(41) == 1 && mc_get(20) == 1 && mc_get(21) == 1, "%ld %ld", mc_get(20), mc_get(21));
    all_done();
}
