// PROPS: C15 C33
// serial queues
#define WANT_FUTURE
#include "common.h"
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/concurrency/serial_queue.hpp>
#include <stlab/pre_exit.hpp>
using namespace stlab;

// state touched by the tasks without any synchronisation of its own: the queue has to provide it
struct shared_state {
    int inside = 0, n = 0;
    int order[16] = {};
    void enter(int i) {
        MC_CHECK(inside == 0, "task %d runs while task %d does", i, inside - 1);
        inside = 1 + i;
        mc_log(500 + i);
        MC_CHECK(n < 16, "");
        order[n++] = i;
        mc_log(600 + i);
        inside = 0;
        mc_count(20 + i, 1);
    }
    int at(int i) const { for (int k = 0; k < n; ++k) if (order[k] == i) return k; return -1; }
};
static shared_state* S;
struct step { int i; token t{70}; void operator()() noexcept { S->enter(i); } };
static schedule_mode mode_of(int c) { return c ? schedule_mode::all : schedule_mode::single; }

static void verdict(shared_state& s, int n, bool in_order = true) {
    MC_CHECK(s.n == n, "%d of %d tasks ran", s.n, n);
    for (int i = 0; i < n; ++i) MC_CHECK(mc_get(20 + i) == 1, "task %d ran %ld times", i, mc_get(20 + i));
    if (in_order) for (int i = 0; i < n; ++i) MC_CHECK(s.order[i] == i, "position %d: task %d", i, s.order[i]);
    MC_CHECK(mc_get(70) == 0, "%ld captures alive", mc_get(70));
}
static void before(shared_state& s, int a, int b) { MC_CHECK(s.at(a) < s.at(b), "task %d ran before task %d", b, a); }

// n tasks from one submitter, each turn on a thread of its own
template <int N> void one_submitter(int m) {
    shared_state s; S = &s;
    { serial_queue_t q(thread_ex{}, mode_of(m)); auto ex = q.executor(); for (int i = 0; i < N; ++i) ex(step{i}); }
    mc_quiesce();
    verdict(s, N);
    all_done();
}
MC_SCENARIO("C15,C33", single_2, .mode = 0) { one_submitter<2>(0); }
MC_SCENARIO("C15,C33", all_2, .mode = 0) { one_submitter<2>(1); }
MC_SCENARIO("C15", single_3, .mode = 0) { one_submitter<3>(0); }
MC_SCENARIO("C15", all_3, .mode = 0) { one_submitter<3>(1); }
MC_SCENARIO("C15", all_5, .mode = 5, .mode_thorough = 0) { one_submitter<5>(1); }
MC_SCENARIO("C15", single_4, .mode = 4, .mode_thorough = 0) { one_submitter<4>(0); }
// two submitters; causality across them
template <int N> void two_submitters(int m) {
    shared_state s; S = &s;
    {
        serial_queue_t q(thread_ex{}, mode_of(m));
        std::thread t([ex = q.executor()] { for (int i = 0; i < N; ++i) ex(step{i}); });
        auto ex = q.executor();
        for (int i = 0; i < N; ++i) ex(step{N + i});
        t.join();
        ex(step{2 * N});  // after the others: the join orders it behind all of them
    }
    mc_quiesce();
    verdict(s, 2 * N + 1, false);
    for (int i = 0; i + 1 < N; ++i) { before(s, i, i + 1); before(s, N + i, N + i + 1); }
    for (int i = 0; i < 2 * N; ++i) before(s, i, 2 * N);
    all_done();
}
MC_SCENARIO("C15,C33", submitters_single_1, .mode = 0) { two_submitters<1>(0); }
MC_SCENARIO("C15,C33", submitters_all_1, .mode = 0) { two_submitters<1>(1); }
MC_SCENARIO("C15", submitters_single_2, .mode = 4, .mode_thorough = 0) { two_submitters<2>(0); }
MC_SCENARIO("C15", submitters_all_2, .mode = 4, .mode_thorough = 0) { two_submitters<2>(1); }
// tasks that submit to their own queue, also after the queue object is gone
template <int N, int M> void nested(int m) {
    shared_state s; S = &s;
    {
        serial_queue_t q(thread_ex{}, mode_of(m));
        auto ex = q.executor();
        ex([ex, t = token(70)]() noexcept {
            for (int i = 0; i < M; ++i) ex([ex, i, t = token(70)]() noexcept { S->enter(N + i); if (i == 0) ex(step{N + M}); });
            S->enter(0);
        });
        for (int i = 1; i < N; ++i) ex(step{i});
    }
    mc_quiesce();
    verdict(s, N + M + 1, false);
    for (int i = 0; i + 1 < N; ++i) before(s, i, i + 1);
    for (int i = 0; i < M; ++i) { before(s, 0, N + i); if (i) before(s, N + i - 1, N + i); }
    before(s, N, N + M);
    all_done();
}
MC_SCENARIO("C15", nested_single, .mode = 0) { nested<2, 1>(0); }
MC_SCENARIO("C15", nested_all, .mode = 0) { nested<2, 1>(1); }
MC_SCENARIO("C15", nested_all_2, .mode = 4, .mode_thorough = 0) { nested<2, 2>(1); }
MC_SCENARIO("C15", nested_single_2, .mode = 4, .mode_thorough = 0) { nested<2, 2>(0); }
// inline underlying executor: one thread at a time may run the queue, re-entrant submissions wait their turn
template <int N> void inline_nested(int m) {
    shared_state s; S = &s;
    {
        serial_queue_t q(inline_ex{}, mode_of(m));
        auto ex = q.executor();
        ex([ex]() noexcept {
            S->inside = 100;  // still inside while it submits: nothing may start now
            for (int i = 1; i < N; ++i) ex(step{i});
            S->inside = 0;
            S->enter(0);
        });
        verdict(s, N);
        ex(step{N});
        verdict(s, N + 1);
    }
    all_done();
}
MC_SCENARIO("C15", inline_reentrant) { inline_nested<4>(mc_choose(2)); }
MC_SCENARIO("C15,C33", inline_two_threads, .mode = 0) {
    shared_state s; S = &s;
    {
        int m = mc_choose(2);
        serial_queue_t q(inline_ex{}, mode_of(m));
        std::thread t([ex = q.executor()] { ex(step{0}); ex(step{1}); });
        auto ex = q.executor();
        ex(step{2});
        t.join();
    }
    mc_quiesce();
    verdict(s, 3, false);
    before(s, 0, 1);
    all_done();
}
// an executor that keeps the turns: submissions at every point between them, at most one turn pending at any time
template <int N> void held(int m) {
    shared_state s; S = &s;
    queue_ex qe;
    {
        serial_queue_t q(qe, mode_of(m));
        auto ex = q.executor();
        int sub = 0, idle = 0;
        while (sub < N || qe.size()) {
            MC_CHECK(qe.size() <= 1, "%d turns pending at once", (int)qe.size());
            MC_CHECK(qe.size() == (s.n < sub), "tasks pending: %d, turns pending: %d", sub - s.n, (int)qe.size());
            int c = sub < N && qe.size() ? mc_choose(2) : sub < N ? 0 : 1;
            if (c == 0) ex(step{sub++}); else qe.run_one();
        }
        if (mc_choose(2)) { serial_queue_t r = q; q = serial_queue_t(inline_ex{}); r.executor()(step{sub++}); MC_CHECK(qe.run_one(), "stalled"); }
        verdict(s, sub);
    }
    all_done();
}
MC_SCENARIO("C15", held_single) { held<6>(0); }
MC_SCENARIO("C15", held_all) { held<6>(1); }
// a queue whose executor drops the turns releases what it holds
MC_SCENARIO("C15,C33", dropped) {
    shared_state s; S = &s;
    { serial_queue_t q(drop_ex{}, mode_of(mc_choose(2))); auto ex = q.executor(); ex(step{0}); ex(step{1}); }
    MC_CHECK(s.n == 0 && mc_get(70) == 0, "captures alive: %ld", mc_get(70));
    all_done();
}
// as an executor of futures, and the call operator
template <int P> void futures(int m) {
    shared_state s; S = &s;
    {
        serial_queue_t q(thread_ex{}, mode_of(m));
        auto a = q([t = token(70)](int x) { S->enter(0); return x + 1; }, 4);
        auto b = a.then(q.executor(), [t = token(70)](int x) { S->enter(1); return x + 1; });
        auto c = q([t = token(70)] { S->enter(2); throw err{3}; });
        mc_quiesce();
        MC_CHECK(a.is_ready() && a.get_ready() == 5, "");
        MC_CHECK(b.is_ready() && b.get_ready() == 6, "");
        MC_CHECK(c.is_ready() && outcome_of(std::move(c)) == 1003, "");
    }
    verdict(s, 3, false);
    before(s, 0, 1); before(s, 0, 2);
    all_done();
}
MC_SCENARIO("C15,C33", futures_single, .mode = 0) { futures<0>(0); }
MC_SCENARIO("C15,C33", futures_all, .mode = 0) { futures<0>(1); }
// two queues share a thread pool
MC_SCENARIO("C15,C33", on_pool, .hw = 3, .mode = 3, .mode_thorough = 4) {
    shared_state s; S = &s;
    {
        serial_queue_t q(default_executor, mode_of(mc_choose(2)));
        auto ex = q.executor();
        for (int i = 0; i < 3; ++i) ex(step{i});
    }
    pre_exit();
    verdict(s, 3);
    all_done();
}
MC_SCENARIO("C15", two_queues_on_pool, .hw = 3, .mode = 3, .mode_thorough = 4) {
    shared_state s, u; S = &s;
    struct ustep { shared_state* p; int i; void operator()() noexcept { p->enter(i); } };
    {
        serial_queue_t q(default_executor), r(default_executor, schedule_mode::all);
        auto x = q.executor(), y = r.executor();
        x(ustep{&s, 0}); y(ustep{&u, 1}); x(ustep{&s, 2}); y(ustep{&u, 3});
    }
    pre_exit();
    MC_CHECK(s.n == 2 && u.n == 2, "");
    before(s, 0, 2); before(u, 1, 3);
    all_done();
}
// a serial queue on top of a serial queue
MC_SCENARIO("C15", queue_on_queue, .mode = 0) {
    shared_state s; S = &s;
    {
        int m = mc_choose(4);
        serial_queue_t base(thread_ex{}, mode_of(m & 1)), q(base.executor(), mode_of(m >> 1));
        auto ex = q.executor(); auto bx = base.executor();
        ex(step{0}); bx(step{1}); ex(step{2});
    }
    mc_quiesce();
    verdict(s, 3, false);
    before(s, 0, 2);
    all_done();
}
