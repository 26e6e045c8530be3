// PROPS: C12 C13 C14 C33
// the portable thread pool behind the default executors
#define WANT_FUTURE
#include "common.h"
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/pre_exit.hpp>
using namespace stlab;

static void check_runs(int base, int n) { for (int i = 0; i < n; ++i) MC_CHECK(mc_get(base + i) == 1, "task %d ran %ld times", i, mc_get(base + i)); }
// pre_exit returned: everything ran, no thread of the pool is left, captured state is gone
static void finish_pool(int n, int extra_threads = 0) {
    pre_exit();
    check_runs(20, n);
    MC_CHECK(mc_threads_alive() == 1 + extra_threads, "%d pool threads alive after pre_exit", mc_threads_alive() - 1 - extra_threads);
    MC_CHECK(mc_get(70) == 0, "%ld captures alive", mc_get(70));
}
struct job {  // nothrow callable with a counted capture
    int i; token t{70};
    void operator()() noexcept { mc_count(20 + i, 1); }
};
static void submit(int prio, task_t t) {
    if (prio == 0) high_executor(std::move(t)); else if (prio == 1) default_executor(std::move(t)); else low_executor(std::move(t));
}

// ---------------------------------------------------------------- C12
template <int N> void submit_n() {
    for (int i = 0; i < N; ++i) default_executor(job{i});
    finish_pool(N);
}
MC_SCENARIO("C12,C33", submit1_w1, .hw = 2, .mode = 0) { submit_n<1>(); }
MC_SCENARIO("C12,C33", submit2_w1, .hw = 2, .mode = 3, .mode_thorough = 4) { submit_n<2>(); }
MC_SCENARIO("C12", submit1_w2, .hw = 3, .mode = 3, .mode_thorough = 4) { submit_n<1>(); }
MC_SCENARIO("C12,C33", submit2_w2, .hw = 3, .mode = 3, .mode_thorough = 4) { submit_n<2>(); }
MC_SCENARIO("C12", submit3_w2, .hw = 3, .mode = 2, .mode_thorough = 4) { submit_n<3>(); }
MC_SCENARIO("C12", submit3_w3, .hw = 4, .mode = 2, .mode_thorough = 3) { submit_n<3>(); }
// the pool that was never used but created by the wait of await / nothing pending
MC_SCENARIO("C12", hw_one, .hw = 1, .mode = 3) { submit_n<2>(); }
MC_SCENARIO("C12", hw_zero, .hw = 0, .mode = 2) { submit_n<2>(); }
// all priorities
template <int A, int B2, int C> void submit_prio() {
    submit(A, job{0}); submit(B2, job{1}); submit(C, job{2});
    finish_pool(3);
}
MC_SCENARIO("C12", prio_mix_w1, .hw = 2, .mode = 2, .mode_thorough = 4) { int c = mc_choose(3); if (c == 0) submit_prio<0, 1, 2>(); else if (c == 1) submit_prio<2, 1, 0>(); else submit_prio<1, 2, 1>(); }
MC_SCENARIO("C12", prio_mix_w2, .hw = 3, .mode = 2, .mode_thorough = 3) { int c = mc_choose(2); if (c == 0) submit_prio<0, 1, 2>(); else submit_prio<2, 1, 0>(); }
// two submitters, one of them the first user of the pool or not
template <int N> void two_submitters() {
    std::thread t([] { for (int i = 0; i < N; ++i) default_executor(job{i}); });
    for (int i = 0; i < N; ++i) default_executor(job{N + i});
    t.join();
    finish_pool(2 * N);
}
MC_SCENARIO("C12,C33", submitters_1_1_w1, .hw = 2, .mode = 3, .mode_thorough = 5) { two_submitters<1>(); }
MC_SCENARIO("C12,C33", submitters_1_1_w2, .hw = 3, .mode = 3, .mode_thorough = 4) { two_submitters<1>(); }
MC_SCENARIO("C12", submitters_2_2_w2, .hw = 3, .mode = 2, .mode_thorough = 3) { two_submitters<2>(); }
// tasks that submit tasks, possibly while the pool is being drained
static void spawn_chain(int i, int n) {
    default_executor([i, n, t = token(70)]() noexcept { mc_count(20 + i, 1); if (i + 1 < n) spawn_chain(i + 1, n); });
}
MC_SCENARIO("C12", chain3_w1, .hw = 2, .mode = 3, .mode_thorough = 5) { spawn_chain(0, 3); finish_pool(3); }
MC_SCENARIO("C12,C33", chain2_w2, .hw = 3, .mode = 3, .mode_thorough = 4) { spawn_chain(0, 2); finish_pool(2); }
MC_SCENARIO("C12", chain3_w2, .hw = 3, .mode = 2, .mode_thorough = 4) { spawn_chain(0, 3); finish_pool(3); }
MC_SCENARIO("C12", fan_w2, .hw = 3, .mode = 2, .mode_thorough = 3) {
    default_executor([t = token(70)]() noexcept { mc_count(20, 1); high_executor(job{1}); low_executor(job{2}); });
    default_executor(job{3});
    finish_pool(4);
}
// the task submits N tasks while the pool is being drained: they are spread over the queues of threads that may have ended
template <int N> void late_fan() {
    default_executor([t = token(70)]() noexcept { mc_count(20, 1); for (int i = 1; i <= N; ++i) default_executor(job{i}); });
    finish_pool(N + 1);
}
MC_SCENARIO("C12", late_fan3_w3, .hw = 4, .mode = 1, .mode_thorough = 2) { late_fan<3>(); }
MC_SCENARIO("C12", late_fan4_w3, .hw = 4, .mode = 1, .mode_thorough = 2) { late_fan<4>(); }
MC_SCENARIO("C12", late_fan5_w4, .hw = 5, .mode = 1, .mode_thorough = 1) { late_fan<5>(); }
// "without needing further submissions": everything runs although pre_exit is only called once all is quiet
template <int N> void quiet() {
    for (int i = 0; i < N; ++i) default_executor(job{i});
    mc_quiesce();
    check_runs(20, N);
    MC_CHECK(mc_get(70) == 0, "captures alive");
    finish_pool(N);
}
MC_SCENARIO("C12", quiet1_w1, .hw = 2, .mode = 0) { quiet<1>(); }
MC_SCENARIO("C12", quiet2_w1, .hw = 2, .mode = 3, .mode_thorough = 5) { quiet<2>(); }
MC_SCENARIO("C12", quiet2_w2, .hw = 3, .mode = 3, .mode_thorough = 4) { quiet<2>(); }
MC_SCENARIO("C12", quiet3_w2, .hw = 3, .mode = 2, .mode_thorough = 4) { quiet<3>(); }
MC_SCENARIO("C12", quiet3_w3, .hw = 4, .mode = 2, .mode_thorough = 3) { quiet<3>(); }
MC_SCENARIO("C12", quiet_two_submitters, .hw = 3, .mode = 2, .mode_thorough = 4) {
    std::thread t([] { default_executor(job{0}); low_executor(job{1}); });
    high_executor(job{2}); default_executor(job{3});
    t.join(); mc_quiesce(); check_runs(20, 4); finish_pool(4);
}
MC_SCENARIO("C12", quiet_chain_w2, .hw = 3, .mode = 2, .mode_thorough = 4) { spawn_chain(0, 3); mc_quiesce(); check_runs(20, 3); finish_pool(3); }
// the pool is created by two first users at once
MC_SCENARIO("C12,C33", first_use_race, .hw = 2, .mode = 3, .mode_thorough = 0) {
    std::thread a([] { high_executor(job{0}); });
    std::thread b([] { low_executor(job{1}); });
    a.join(); b.join();
    finish_pool(2);
}
// futures on the pool
MC_SCENARIO("C12,C33", futures_w1, .hw = 2, .mode = 2, .mode_thorough = 4) {
    auto f = async(default_executor, [t = token(70)] { mc_count(20, 1); return val(5); }).then(high_executor, [t = token(70)](val v) { mc_count(21, 1); return v.v + 1; });
    f.detach(); f.reset();
    finish_pool(2);
}
MC_SCENARIO("C12,C33", await_at_shutdown, .hw = 2, .mode = 3, .mode_thorough = 0) {
    default_executor([t = token(70)]() noexcept {
        mc_count(20, 1);
        int v = await(async(default_executor, [t = token(70)] { mc_count(21, 1); return 5; }));
        MC_CHECK(v == 5, "");
    });
    finish_pool(2);
}
MC_SCENARIO("C12", await_at_shutdown_w2, .hw = 3, .mode = 2, .mode_thorough = 4) {
    default_executor([t = token(70)]() noexcept {
        mc_count(20, 1);
        int v = await(async(default_executor, [t = token(70)] { mc_count(21, 1); return 5; }));
        MC_CHECK(v == 5, "");
    });
    finish_pool(2);
}
// same, with one submission before to shift the queues: the inner task lands on the awaiting worker's own queue
MC_SCENARIO("C12", await_at_shutdown_shift, .hw = 3, .mode = 2, .mode_thorough = 4) {
    default_executor([t = token(70)]() noexcept {
        mc_count(20, 1);
        default_executor(job{2});
        int v = await(async(default_executor, [t = token(70)] { mc_count(21, 1); return 5; }));
        MC_CHECK(v == 5, "");
    });
    finish_pool(3);
}
// finding: nobody looks at the queue of a worker that blocks in await after the pool went idle
static void strand(bool late) {
    auto p = package<int(int)>(immediate_executor, [](int x) { return x; });
    default_executor([f = std::move(p.second)]() mutable noexcept { mc_count(20, 1); MC_CHECK(await(std::move(f)) == 7, ""); });
    if (late) mc_quiesce();  // the worker blocks in await; the thread added for it found nothing and sleeps
    default_executor([p = std::move(p.first)]() mutable noexcept { mc_count(21, 1); p(7); });
    mc_quiesce();
    MC_CHECK(mc_get(21) == 1, "stranded: a task queued behind a worker that blocks in await is not started though the pool has an idle thread");
    finish_pool(2);
}
MC_SCENARIO("C12", strand_late, .hw = 2, .mode = 2) { strand(true); }

// ---------------------------------------------------------------- C13
// every mix of priorities pending behind one busy worker
static int gate, started;
static int order[16], norder;
template <int L> void priorities() {
    gate = started = norder = 0;
    default_executor([]() noexcept { mc_set(&started, 1); mc_await(&gate); });
    mc_await(&started);
    int pr[L];
    for (int i = 0; i < L; ++i) { pr[i] = mc_choose(3); submit(pr[i], [i]() noexcept { order[norder++] = i; }); }
    mc_set(&gate, 1);
    pre_exit();
    MC_CHECK(norder == L, "%d of %d ran", norder, L);
    for (int k = 0; k + 1 < L; ++k) {
        int a = order[k], b = order[k + 1];
        MC_CHECK(pr[a] < pr[b] || (pr[a] == pr[b] && a < b), "task %d (priority %d) started before task %d (priority %d)", a, pr[a], b, pr[b]);
    }
}
MC_SCENARIO("C13", prio_len3, .hw = 2, .mode = 3, .mode_thorough = 4) { priorities<3>(); }
MC_SCENARIO("C13", prio_len5, .hw = 2, .mode = 1) { priorities<5>(); }
MC_SCENARIO("C13", prio_len7, .hw = 2, .mode = 1) { priorities<7>(); }
MC_SCENARIO("C13", prio_len8, .hw = 2, .mode = 1, .thorough_only = 1) { priorities<8>(); }
// interleaved with removals: pushes in two batches, the worker takes some in between (each task waits for a turn)
static int turn[16];
template <int L, int M> void batches() {
    gate = started = norder = 0;
    for (int& t : turn) t = 0;
    static int pr[16]; static int idle;
    idle = 0;
    auto push = [](int i) { pr[i] = mc_choose(3); submit(pr[i], [i]() noexcept { order[norder++] = i; mc_set(&idle, norder); mc_await(&turn[norder - 1]); }); };
    default_executor([]() noexcept { mc_set(&started, 1); mc_await(&gate); });
    mc_await(&started);
    int pushed = 0;
    for (int i = 0; i < L; ++i) push(pushed++);
    // reference: set of pending, the worker is at task k
    bool done[16] = {};
    auto pick = [&](int n) { int b = -1; for (int i = 0; i < n; ++i) if (!done[i] && (b < 0 || pr[i] < pr[b])) b = i; return b; };
    mc_set(&gate, 1);
    for (int k = 0; k < L + M; ++k) {
        mc_quiesce();
        MC_CHECK(norder == k + 1, "started %d, not %d", norder, k + 1);
        int e = pick(pushed);
        MC_CHECK(order[k] == e, "start %d: task %d (priority %d), expected task %d (priority %d)", k, order[k], pr[order[k]], e, pr[e]);
        done[e] = true;
        if (pushed < L + M) push(pushed++);
        mc_set(&turn[k], 1);
    }
    pre_exit();
    MC_CHECK(norder == L + M, "");
}
MC_SCENARIO("C13", batches_2_3, .hw = 2, .mode = 1) { batches<2, 3>(); }
MC_SCENARIO("C13", batches_3_4, .hw = 2, .mode = 1, .mode_thorough = 1) { batches<3, 4>(); }
MC_SCENARIO("C13", batches_1_4, .hw = 2, .mode = 1) { batches<1, 4>(); }
// the same executor: submission order of one thread while the worker is free to take tasks at any moment, and
// whatever is pending when the worker chooses goes by priority
struct evt { unsigned long t; };
static unsigned long sub_end[8], start_at[8], end_at[8];
template <int L> void racing() {
    static int pr[8];
    for (int i = 0; i < L; ++i) {
        pr[i] = mc_choose(3);
        submit(pr[i], [i]() noexcept { start_at[i] = mc_log(100 + i); end_at[i] = mc_log(200 + i); });
        sub_end[i] = mc_log(i);
    }
    pre_exit();
    for (int a = 0; a < L; ++a)
        for (int b = 0; b < L; ++b) {
            if (a == b) continue;
            if (pr[a] == pr[b] && a < b) MC_CHECK(start_at[a] < start_at[b], "task %d before %d", b, a);
            // a more urgent task that was pending before the previous task of the worker ended is not passed over
            unsigned long prev_end = 0;
            for (int c = 0; c < L; ++c) if (end_at[c] < start_at[b] && end_at[c] > prev_end) prev_end = end_at[c];
            if (pr[a] < pr[b] && prev_end && sub_end[a] < prev_end) MC_CHECK(start_at[a] < start_at[b], "task %d (priority %d) started before pending task %d (priority %d)", b, pr[b], a, pr[a]);
        }
}
MC_SCENARIO("C13", racing2, .hw = 2, .mode = 4, .mode_thorough = 0) { racing<2>(); }
MC_SCENARIO("C13", racing3, .hw = 2, .mode = 2, .mode_thorough = 4) { racing<3>(); }
// two submitters: each one's tasks of a priority keep their order
MC_SCENARIO("C13", two_threads_fifo, .hw = 2, .mode = 3, .mode_thorough = 4) {
    auto sub = [](int i) { submit(i & 1 ? 1 : 1, [i]() noexcept { start_at[i] = mc_log(100 + i); }); };
    std::thread t([&] { sub(0); sub(1); });
    sub(2); sub(3);
    t.join(); pre_exit();
    MC_CHECK(start_at[0] < start_at[1] && start_at[2] < start_at[3], "order lost");
}
// expansion threads pick by priority as well: the only worker blocks in await, the added thread serves the queue
MC_SCENARIO("C13", prio_expansion, .hw = 2, .mode = 1) {
    gate = started = norder = 0;
    constexpr int L = 4; static int pr[L];
    default_executor([]() noexcept {
        for (int i = 0; i < L; ++i) { pr[i] = mc_choose(3); submit(pr[i], [i]() noexcept { order[norder++] = i; if (norder == L) mc_set(&gate, 1); }); }
        invoke_waiting([] { mc_await(&gate); });
    });
    mc_quiesce();
    pre_exit();
    MC_CHECK(norder == L, "%d", norder);
    for (int k = 0; k + 1 < L; ++k) { int a = order[k], b = order[k + 1]; MC_CHECK(pr[a] < pr[b] || (pr[a] == pr[b] && a < b), "task %d (priority %d) before task %d (priority %d)", a, pr[a], b, pr[b]); }
}

// ---------------------------------------------------------------- C14
static int nest(int d) {
    mc_count(40, 1);
    if (d == 0) return 1;
    return 1 + await(async(default_executor, [d] { return nest(d - 1); }));
}
// the outermost runs in the pool, main only waits for quiet
template <int D> void nested(unsigned limit) {
    default_executor([]() noexcept { int r = nest(D); MC_CHECK(r == D + 1, "%d", r); mc_count(41, 1); });
    mc_quiesce();
    MC_CHECK(mc_get(41) == 1, "starved: the wait inside a pool task did not complete (%ld of %d levels started)", mc_get(40), D + 1);
    MC_CHECK(mc_get(40) == D + 1, "levels ran %ld times", mc_get(40));
    MC_CHECK(mc_threads_created() <= (int)limit + 1, "%d pool threads, limit %u", mc_threads_created() - 1, limit);
    pre_exit();
    MC_CHECK(mc_threads_alive() == 1, "");
}
MC_SCENARIO("C14,C33", nested1_w1, .hw = 2, .mode = 3, .mode_thorough = 0) { nested<1>(9); }
MC_SCENARIO("C14", nested2_w1, .hw = 2, .mode = 3, .mode_thorough = 4) { nested<2>(9); }
MC_SCENARIO("C14", nested3_w1, .hw = 2, .mode = 2, .mode_thorough = 3) { nested<3>(9); }
MC_SCENARIO("C14", nested8_w1, .hw = 2, .mode = 1, .mode_thorough = 2) { nested<8>(9); }
MC_SCENARIO("C14", nested1_w2, .hw = 3, .mode = 2, .mode_thorough = 4) { nested<1>(13); }
MC_SCENARIO("C14", nested2_w2, .hw = 3, .mode = 1, .mode_thorough = 3) { nested<2>(13); }
MC_SCENARIO("C14", nested3_w2, .hw = 3, .mode = 1, .mode_thorough = 3) { nested<3>(13); }
MC_SCENARIO("C14", nested12_w2, .hw = 3, .mode = 1, .mode_thorough = 1, .thorough_only = 1) { nested<12>(13); }
// again when all threads that may be added are there: each of them, the last one as well, is woken
template <int D> void nested_again(unsigned limit, int rounds) {
    for (int k = 1; k <= rounds; ++k) {
        default_executor([]() noexcept { int r = nest(D); MC_CHECK(r == D + 1, "%d", r); mc_count(41, 1); });
        mc_quiesce();
        MC_CHECK(mc_get(41) == k && mc_get(40) == k * (D + 1), "starved: round %d of %d levels, %ld levels started in all", k, D + 1, mc_get(40));
        MC_CHECK(mc_threads_created() <= (int)limit + 1, "%d pool threads, limit %u", mc_threads_created() - 1, limit);
    }
    pre_exit();
    MC_CHECK(mc_threads_alive() == 1, "");
}
MC_SCENARIO("C14", nested8_again_w1, .hw = 2, .mode = 1) { nested_again<8>(9, 2); }
MC_SCENARIO("C14", nested2_again_w1, .hw = 2, .mode = 1, .mode_thorough = 2) { nested_again<2>(9, 3); }
MC_SCENARIO("C14", nested12_again_w2, .hw = 3, .mode = 1, .thorough_only = 1) { nested_again<12>(13, 2); }
// fan out: a task awaits several, one after the other
template <int N> void fan(unsigned limit) {
    default_executor([]() noexcept {
        future<int> f[N];
        for (int i = 0; i < N; ++i) f[i] = async(default_executor, [i] { mc_count(40, 1); return i; });
        int s = 0;
        for (int i = N; i-- > 0;) s += await(std::move(f[i]));
        MC_CHECK(s == N * (N - 1) / 2, "%d", s);
        mc_count(41, 1);
    });
    mc_quiesce();
    MC_CHECK(mc_get(41) == 1 && mc_get(40) == N, "starved: %ld of %d awaited tasks ran", mc_get(40), N);
    MC_CHECK(mc_threads_created() <= (int)limit + 1, "%d", mc_threads_created());
    pre_exit();
    MC_CHECK(mc_threads_alive() == 1, "");
}
MC_SCENARIO("C14,C33", fan2_w1, .hw = 2, .mode = 3, .mode_thorough = 4) { fan<2>(9); }
MC_SCENARIO("C14", fan3_w1, .hw = 2, .mode = 2, .mode_thorough = 3) { fan<3>(9); }
MC_SCENARIO("C14", fan2_w2, .hw = 3, .mode = 1, .mode_thorough = 3) { fan<2>(13); }
// consecutive awaits reuse the thread that was added
MC_SCENARIO("C14", twice_w1, .hw = 2, .mode = 3, .mode_thorough = 4) {
    default_executor([]() noexcept {
        for (int k = 0; k < 2; ++k) MC_CHECK(await(async(default_executor, [k] { mc_count(40, 1); return k; })) == k, "");
        mc_count(41, 1);
    });
    mc_quiesce();
    MC_CHECK(mc_get(41) == 1 && mc_get(40) == 2, "starved");
    MC_CHECK(mc_threads_created() <= 1 + 1 + 2, "");
    pre_exit();
}
// two tasks await at the same time
template <int W> void two_awaits(unsigned limit) {
    for (int k = 0; k < 2; ++k)
        default_executor([k]() noexcept { MC_CHECK(await(async(default_executor, [k] { mc_count(40, 1); return k; })) == k, ""); mc_count(41, 1); });
    mc_quiesce();
    MC_CHECK(mc_get(41) == 2 && mc_get(40) == 2, "starved: %ld of 2 waits completed", mc_get(41));
    MC_CHECK(mc_threads_created() <= (int)limit + 1, "");
    pre_exit();
    MC_CHECK(mc_threads_alive() == 1, "");
}
MC_SCENARIO("C14", two_awaits_w1, .hw = 2, .mode = 2, .mode_thorough = 4) { two_awaits<1>(9); }
MC_SCENARIO("C14", two_awaits_w2, .hw = 3, .mode = 1, .mode_thorough = 3) { two_awaits<2>(13); }
// main awaits too
MC_SCENARIO("C14", main_awaits, .hw = 2, .mode = 2, .mode_thorough = 4) {
    int v = await(async(default_executor, [] { return nest(1); }));
    MC_CHECK(v == 2, "%d", v);
    MC_CHECK(mc_threads_created() <= 10, "");
    pre_exit();
    MC_CHECK(mc_threads_alive() == 1, "");
}
// the limit: more waiting tasks than threads may be added; nothing beyond the limit, everything runs in the end
static void waiting_task(int i, int n) {
    mc_count(40, 1);
    if (i + 1 < n) default_executor([i, n]() noexcept { waiting_task(i + 1, n); });
    invoke_waiting([i] { mc_await(&turn[i]); });
    mc_count(41, 1);
}
static void limit_of(int tasks, int limit) {
    for (int& t : turn) t = 0;
    default_executor([tasks]() noexcept { waiting_task(0, tasks); });
    mc_quiesce();
    MC_CHECK(mc_threads_created() - 1 <= limit, "%d pool threads, the limit is %d", mc_threads_created() - 1, limit);
    MC_CHECK(mc_get(40) == (tasks < limit ? tasks : limit), "starved: %ld of %d waiting tasks started with limit %d", mc_get(40), tasks, limit);
    for (int i = 0; i < tasks; ++i) { mc_set(&turn[i], 1); mc_quiesce(); }
    MC_CHECK(mc_get(41) == tasks, "starved: %ld of %d", mc_get(41), tasks);
    pre_exit();
    MC_CHECK(mc_threads_alive() == 1, "");
}
MC_SCENARIO("C14", limit_w1, .hw = 2, .mode = 1) { limit_of(11, 9); }
MC_SCENARIO("C14", limit_w1_exact, .hw = 2, .mode = 1) { limit_of(9, 9); }
MC_SCENARIO("C14", limit_w1_few, .hw = 2, .mode = 2, .mode_thorough = 4) { limit_of(4, 9); }
MC_SCENARIO("C14", limit_w2, .hw = 3, .mode = 1, .thorough_only = 1) { limit_of(15, 13); }
// the wait is over before everything is quiet: waiting tasks and pre_exit, raw (no futures)
template <int SHIFT> void raw_wait_at_shutdown() {
    static int flag;
    flag = 0;
    default_executor([]() noexcept {
        for (int i = 0; i < SHIFT; ++i) default_executor(job{1 + i});
        default_executor([t = token(70)]() noexcept { mc_count(21 + SHIFT, 1); mc_set(&flag, 1); });
        invoke_waiting([] { mc_await(&flag); });
        mc_count(20, 1);
    });
    finish_pool(2 + SHIFT);
}
MC_SCENARIO("C12,C14,C33", raw_wait_shutdown_w1, .hw = 2, .mode = 3, .mode_thorough = 0) { raw_wait_at_shutdown<0>(); }
MC_SCENARIO("C12,C14", raw_wait_shutdown_w2, .hw = 3, .mode = 3, .mode_thorough = 4) { raw_wait_at_shutdown<0>(); }
MC_SCENARIO("C12", raw_wait_shutdown_w2b, .hw = 3, .mode = 3, .mode_thorough = 4) { raw_wait_at_shutdown<1>(); }
// two waiting tasks whose work is already submitted, and submitters that touch the same queue meanwhile
template <int W> void raw_two_waits() {
    static int flags[2];
    flags[0] = flags[1] = 0;
    for (int k = 0; k < 2; ++k)
        default_executor([k]() noexcept {
            default_executor([k]() noexcept { mc_count(40, 1); mc_set(&flags[k], 1); });
            invoke_waiting([k] { mc_await(&flags[k]); });
            mc_count(41, 1);
        });
    mc_quiesce();
    MC_CHECK(mc_get(40) == 2 && mc_get(41) == 2, "starved: %ld of 2 waits completed", mc_get(41));
    pre_exit();
    MC_CHECK(mc_threads_alive() == 1, "");
}
MC_SCENARIO("C14,C33", raw_two_waits_w1, .hw = 2, .mode = 3, .mode_thorough = 4) { raw_two_waits<1>(); }
MC_SCENARIO("C14", raw_two_waits_w2, .hw = 3, .mode = 2, .mode_thorough = 3) { raw_two_waits<2>(); }
// the awaited work is submitted while main submits and removes nothing else: contention on the one queue
MC_SCENARIO("C14", wait_contended, .hw = 2, .mode = 3, .mode_thorough = 4) {
    static int flag;
    flag = 0;
    default_executor([]() noexcept {
        default_executor([]() noexcept { mc_count(40, 1); mc_set(&flag, 1); });
        invoke_waiting([] { mc_await(&flag); });
        mc_count(41, 1);
    });
    low_executor([]() noexcept { mc_count(42, 1); });
    mc_quiesce();
    MC_CHECK(mc_get(41) == 1 && mc_get(40) == 1, "starved");
    pre_exit();
    MC_CHECK(mc_get(42) == 1 && mc_threads_alive() == 1, "");
}
