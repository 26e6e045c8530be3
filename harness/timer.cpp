// PROPS: C16 C33
// the timer and the delayed / at executors (portable implementation: one timer thread)
#define WANT_FUTURE
#include "common.h"
#include <chrono>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/executor_base.hpp>
#include <stlab/concurrency/system_timer.hpp>
#include <stlab/pre_exit.hpp>
using namespace stlab;
using std::chrono::nanoseconds;

static long long due[16], ran_at[16];
static unsigned long pos[16], sub_pos[16];
struct tick {
    int i; token t{70};
    void operator()() noexcept { ran_at[i] = mc_now(); pos[i] = mc_log(i); mc_count(20 + i, 1); }
};
static void reset() { for (int i = 0; i < 16; ++i) due[i] = ran_at[i] = pos[i] = 0; }
static void at(int i, long long d) { due[i] = mc_now() + d; system_timer(nanoseconds(d), tick{i}); sub_pos[i] = mc_log(100 + i); }
// lets time pass until everything that is due by then has happened
static void pass_time() {
    std::mutex m; std::condition_variable c;
    std::unique_lock<std::mutex> l(m);
    c.wait_for(l, nanoseconds(1000000));
    l.unlock();
    mc_quiesce();
}
static void verdict(int n) {
    for (int i = 0; i < n; ++i) {
        MC_CHECK(mc_get(20 + i) == 1, "task %d ran %ld times", i, mc_get(20 + i));
        MC_CHECK(ran_at[i] >= due[i], "task %d ran at %lld, due at %lld", i, ran_at[i], due[i]);
    }
    MC_CHECK(mc_get(70) == 0, "%ld captures alive", mc_get(70));
}
// time passes only when nothing else can happen: every task runs exactly when it is due
static void punctual(int n) {
    pass_time();
    verdict(n);
    for (int i = 0; i < n; ++i) MC_CHECK(ran_at[i] == due[i], "task %d due at %lld was delayed to %lld", i, due[i], ran_at[i]);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (due[i] < due[j]) MC_CHECK(pos[i] < pos[j], "task %d (due %lld) ran after task %d (due %lld)", i, due[i], j, due[j]);
}
// every assignment of due times to the submissions
template <int N> void any_order(int kinds) {
    reset();
    for (int i = 0; i < N; ++i) at(i, 10 * (1 + mc_choose(kinds)));
    punctual(N);
}
MC_SCENARIO("C16,C33", orders_2, .mode = 0, .timeouts = 0) { any_order<2>(2); }
MC_SCENARIO("C16", orders_3, .mode = 3, .mode_thorough = 0, .timeouts = 0) { any_order<3>(3); }
MC_SCENARIO("C16", orders_5, .mode = 1, .mode_thorough = 2, .timeouts = 0) { any_order<5>(4); }
MC_SCENARIO("C16", orders_6, .mode = 1, .timeouts = 0, .thorough_only = 1) { any_order<6>(4); }
MC_SCENARIO("C16", earlier_later, .mode = 0, .timeouts = 0) { reset(); at(0, 100); at(1, 10); punctual(2); }
MC_SCENARIO("C16", earlier_twice, .mode = 3, .mode_thorough = 0, .timeouts = 0) { reset(); at(0, 100); at(1, 50); at(2, 10); punctual(3); }
// a task submits further ones from the timer's thread
MC_SCENARIO("C16,C33", from_task, .mode = 3, .mode_thorough = 0, .timeouts = 0) {
    reset();
    at(0, 100);
    system_timer(nanoseconds(10), [t = token(70)]() noexcept { at(1, 20); at(2, 200); });
    punctual(3);
}
// time may pass at any moment: due times relative to each other decide when both are pending
template <int N> void anytime() {
    reset();
    for (int i = 0; i < N; ++i) at(i, 10 * (1 + mc_choose(3)));
    // wait for all: quiesce lets the remaining timeouts fire
    for (int k = 0; k < N + 1; ++k) mc_quiesce();
    verdict(N);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            // i was there before j started and is due earlier: it must have gone first
            if (due[i] < due[j] && sub_pos[i] < pos[j]) {
                // unless j had been taken from the queue already: the timer takes a task only when it is due, and runs it next
                bool between = false;
                for (int k = 0; k < N; ++k) if (k != i && k != j && pos[k] > sub_pos[i] && pos[k] < pos[j]) between = true;
                if (between) MC_CHECK(pos[i] < pos[j], "task %d (due %lld) ran after task %d (due %lld)", i, due[i], j, due[j]);
            }
        }
}
MC_SCENARIO("C16,C33", anytime_1, .mode = 0) { anytime<1>(); }
MC_SCENARIO("C16", anytime_2, .mode = 3, .mode_thorough = 0) { anytime<2>(); }
MC_SCENARIO("C16", anytime_3, .mode = 2, .mode_thorough = 3) { anytime<3>(); }
MC_SCENARIO("C16", spurious, .mode = 2, .mode_thorough = 3, .spurious = 1) { anytime<2>(); }
// two submitters, the timer is created by both
MC_SCENARIO("C16,C33", two_submitters, .mode = 3, .mode_thorough = 4, .timeouts = 0) {
    reset();
    std::thread t([] { at(0, 30); });
    at(1, 10 * (1 + 3 * mc_choose(2)));
    t.join();
    punctual(2);
}
// zero and negative delays
MC_SCENARIO("C16", zero_delay, .mode = 0, .timeouts = 0) { reset(); at(0, 0); at(1, -5); pass_time(); verdict(2); MC_CHECK(ran_at[0] == due[0] && ran_at[1] == due[0], "late"); }
// the deprecated time point form
MC_SCENARIO("C16", time_point, .mode = 0, .timeouts = 0) {
    reset(); due[0] = mc_now() + 50; at(1, 20);
    system_timer(std::chrono::steady_clock::now() + nanoseconds(50), tick{0});
    punctual(2);
}
// pending tasks at shutdown: dropped, not run, and nobody waits for them
MC_SCENARIO("C16,C33", pending_at_exit, .mode = 3, .mode_thorough = 0, .timeouts = 0) {
    reset();
    at(0, 10); at(1, 100000);
    long long t0 = mc_now();
    default_executor([]() noexcept {});
    pre_exit();
    MC_CHECK(mc_now() == t0, "pre_exit took %lld ns", mc_now() - t0);
    MC_CHECK(mc_get(20) == 0 && mc_get(21) == 0, "a task ran early");
}
// the same at the end of the program: the timer's thread is stopped, whatever it is waiting for
MC_SCENARIO("C16", pending_at_end, .mode = 3, .mode_thorough = 0, .timeouts = 0) {
    int n = mc_choose(3), wait = mc_choose(3);
    auto f = [t = token(70)]() noexcept { mc_count(20, 1); MC_CHECK(!mc_get(30), "a task that was not due held up the end of the program and ran then"); };
    for (int i = 0; i < n; ++i) system_timer(nanoseconds(1000 - 10 * i), f);
    if (wait == 1) { std::mutex m; std::condition_variable c; std::unique_lock<std::mutex> l(m); c.wait_for(l, nanoseconds(5)); }
    if (wait == 2) pre_exit();
    MC_CHECK(mc_get(20) == 0, "early");
    mc_count(30, 1);
}
// ---------------------------------------------------------------- delayed executors
template <class E> void delayed_task(E& ex, int i, long long d) { due[i] = mc_now() + d; ex(tick{i}); }
MC_SCENARIO("C16,C33", execute_at_inline, .mode = 0, .timeouts = 0) {
    reset();
    long long d = 10 * mc_choose(3);
    { auto ex = execute_at(nanoseconds(d), executor_t(inline_ex{})); delayed_task(ex, 0, d); }
    pass_time(); verdict(1);
    MC_CHECK(ran_at[0] == due[0], "");
    MC_CHECK(mc_get(800) == 1, "handed to the executor %ld times", mc_get(800));
}
MC_SCENARIO("C16", execute_delayed_reused, .mode = 3, .mode_thorough = 0, .timeouts = 0) {
    reset();
    auto ex = execute_delayed(nanoseconds(10), inline_ex{});
    delayed_task(ex, 0, 10); delayed_task(ex, 1, 10);
    pass_time(); verdict(2);
    delayed_task(ex, 2, 10);
    pass_time(); verdict(3);
    MC_CHECK(ran_at[2] == due[2], "");
}
MC_SCENARIO("C16,C33", delayed_future, .mode = 3, .mode_thorough = 0, .timeouts = 0) {
    reset();
    int e = mc_choose(2);
    long long t0 = mc_now();
    auto f = async(execute_delayed(nanoseconds(10), thread_ex{}), [e, t0, t = token(70)] { mc_count(20, 1); if (e) throw err{3}; return int(mc_now() - t0); })
                 .recover(execute_delayed(nanoseconds(7), thread_ex{}), [t = token(70)](future<int>&& x) { mc_count(21, 1); return outcome_of(std::move(x)); });
    pass_time();
    MC_CHECK(f.is_ready(), "delayed future not resolved");
    int v = f.get_ready();
    MC_CHECK(e ? v == 1003 : v >= 10, "ran at %d", v);
    MC_CHECK(mc_now() >= t0 + 17, "");
    MC_CHECK(mc_get(20) == 1 && mc_get(21) == 1, "");
    f.reset();
    pass_time();
    MC_CHECK(mc_get(70) == 0, "%ld captures alive", mc_get(70));
}
// the same executor serves several continuations of a shared future
MC_SCENARIO("C16,C33", delayed_shared, .mode = 2, .mode_thorough = 4, .timeouts = 0) {
    auto p = package<int(int)>(immediate_executor, [](int x) { return x; });
    auto ex = execute_delayed(nanoseconds(10), inline_ex{});
    auto a = p.second.then(ex, [](int x) { mc_count(20, 1); return x + 1; });
    auto b = p.second.then(ex, [](int x) { mc_count(21, 1); return x + 2; });
    long long t0 = mc_now();
    p.first(5);
    MC_CHECK(mc_get(20) == 0 && mc_get(21) == 0, "ran before it was due");
    pass_time();
    MC_CHECK(mc_get(20) == 1 && mc_get(21) == 1, "%ld %ld", mc_get(20), mc_get(21));
    MC_CHECK(a.get_ready() == 6 && b.get_ready() == 7, "");
}
MC_SCENARIO("C16", delayed_cancelled, .mode = 3, .timeouts = 0) {
    { auto f = async(execute_delayed(nanoseconds(10), inline_ex{}), [t = token(70)] { mc_count(20, 1); }); }
    pass_time();
    MC_CHECK(mc_get(20) == 0, "a cancelled delayed task ran");
    MC_CHECK(mc_get(70) == 0, "captures alive");
}
// delayed onto the pool, pool joined at pre-exit
MC_SCENARIO("C16", delayed_pool, .hw = 2, .mode = 2, .mode_thorough = 3, .timeouts = 0) {
    reset();
    auto ex = execute_delayed(nanoseconds(10), default_executor);
    delayed_task(ex, 0, 10); at(1, 30);
    pass_time();
    verdict(2);
    pre_exit();
}
// finding: a delayed task that comes due after pre_exit is handed to the joined pool
MC_SCENARIO("C16", due_after_pre_exit, .hw = 2, .mode = 1, .timeouts = 0) {
    reset();
    default_executor([]() noexcept {});
    auto ex = execute_delayed(nanoseconds(10), default_executor);
    ex([t = token(70)]() noexcept { mc_count(20, 1); });
    pre_exit();
    pass_time();  // main goes on for a while after pre_exit
    mc_log(900);
}
