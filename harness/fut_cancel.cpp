// PROPS: C03 C04 C33
// abandoned work and cancellation
#define WANT_FUTURE
#include "common.h"
using namespace stlab;

// ================================================================ C03
// a chain of three steps; every step's executor runs inline, drops, runs later or drops later
template <class T> void drop_chain() {
    int m[3]; for (int& x : m) x = mc_choose(4);
    int rec = mc_choose(4); // which step (1..3) is a recover step; 0: none
    queue_ex q[3];
    auto ex = [&](int i) -> executor_t { return m[i] == 0 ? executor_t{inline_ex{}} : m[i] == 1 ? executor_t{drop_ex{}} : executor_t{q[i]}; };
    int runs[3] = {0, 0, 0}; int seen[3] = {-5, -5, -5};
    token tk(10);
    auto f0 = async(ex(0), [&, tk]() -> T { ++runs[0]; return mk<T>::make(7); });
    auto f1 = rec == 1 || rec == 3 ? std::move(f0).recover(ex(1), [&, tk](future<T> x) { ++runs[1]; seen[1] = outcome_of(std::move(x), 7); return 20; })
                       : [&] { if constexpr (std::is_void_v<T>) return std::move(f0).then(ex(1), [&, tk]() { ++runs[1]; seen[1] = 7; return 20; });
                               else return std::move(f0).then(ex(1), [&, tk](T x) { ++runs[1]; seen[1] = mk<T>::get(x); return 20; }); }();
    auto f2 = rec == 2 || rec == 3 ? f1.recover(ex(2), [&, tk](future<int> x) { ++runs[2]; seen[2] = outcome_of(std::move(x)); return 30; })
                       : f1.then(ex(2), [&, tk](int x) { ++runs[2]; seen[2] = x; return 30; });
    for (int round = 0; round < 3; ++round) for (int i = 0; i < 3; ++i) { if (m[i] == 2) q[i].run_all(); if (m[i] == 3) q[i].drop_all(); }
    // reference
    int o0 = m[0] == 0 || m[0] == 2 ? 7 : BROKEN;
    bool r1 = rec == 1 || rec == 3, r2 = rec == 2 || rec == 3;
    bool live1 = m[1] == 0 || m[1] == 2, live2 = m[2] == 0 || m[2] == 2;
    int o1 = !live1 ? BROKEN : (o0 == BROKEN && !r1) ? BROKEN : 20;
    int o2 = !live2 ? BROKEN : (o1 == BROKEN && !r2) ? BROKEN : 30;
    MC_CHECK(f1.is_ready() && outcome_of(f1) == o1, "step 1: %d, expected %d", f1.is_ready() ? outcome_of(f1) : -7, o1);
    MC_CHECK(f2.is_ready() && outcome_of(f2) == o2, "step 2: %d, expected %d", f2.is_ready() ? outcome_of(f2) : -7, o2);
    if (live1 && r1) MC_CHECK(seen[1] == o0, "recover saw %d", seen[1]);
    if (live2 && r2) MC_CHECK(seen[2] == o1, "recover saw %d", seen[2]);
    MC_CHECK(runs[0] == (o0 == 7) && runs[1] == (o1 == 20) && runs[2] == (o2 == 30), "runs %d %d %d", runs[0], runs[1], runs[2]);
    MC_CHECK(mc_get(10) == 1, "%ld captured tokens alive", mc_get(10) - 1);
}
MC_SCENARIO("C03,C05,C04", drop_chain_val) { drop_chain<val>(); }
MC_SCENARIO("C03,C05,C04", drop_chain_void) { drop_chain<void>(); }
MC_SCENARIO("C03,C05,C04", drop_chain_moveonly) { drop_chain<mval>(); }

// packaged_task handles: every sequence of operations on two of them
template <class T> void handles() {
    auto [p0, f0] = package<T()>(inline_ex{}, []() -> T { return mk<T>::make(7); });
    auto [p1, f1] = package<T()>(inline_ex{}, []() -> T { return mk<T>::make(8); });
    using P = packaged_task<>;
    std::optional<P> p[2]; p[0].emplace(std::move(p0)); p[1].emplace(std::move(p1));
    int own[2] = {0, 1};          // model: which future each handle resolves (-1: none)
    int st[2] = {-6, -6};         // model: outcome of each future; -6 pending
    auto brk = [&](int h) { if (own[h] >= 0) { st[own[h]] = BROKEN; own[h] = -1; } };
    for (int step = 0; step < 3; ++step) {
        int h = mc_choose(2);
        switch (mc_choose(7)) {
        case 0: if (p[h]) { (*p[h])(); if (own[h] >= 0) { st[own[h]] = 7 + own[h]; own[h] = -1; } } break;
        case 1: p[h].reset(); brk(h); break;
        case 2: if (p[h] && p[1 - h]) { *p[h] = std::move(*p[1 - h]); brk(h); own[h] = own[1 - h]; own[1 - h] = -1; } break; // assignment over a live task abandons it
        case 3: if (p[h]) { *p[h] = P{}; brk(h); } break;
        case 4: if (p[h]) { P t{std::move(*p[h])}; p[h].reset(); p[h].emplace(std::move(t)); } break;
        case 5: if (p[h]) { p[h]->set_exception(mkerr(4)); if (own[h] >= 0) { st[own[h]] = 1004; own[h] = -1; } } break;
        case 6: if (p[0] && p[1]) { std::swap(*p[0], *p[1]); std::swap(own[0], own[1]); } break;
        }
        for (int i = 0; i < 2; ++i) {
            auto& f = i ? f1 : f0;
            MC_CHECK(f.is_ready() == (st[i] != -6), "future %d ready=%d, expected %d", i, f.is_ready(), st[i] != -6);
            if (p[i]) MC_CHECK(p[i]->canceled() == (own[i] < 0), "canceled() of task %d", i);
        }
    }
    p[0].reset(); brk(0); p[1].reset(); brk(1);
    for (int i = 0; i < 2; ++i) {
        auto& f = i ? f1 : f0;
        int e = std::is_void_v<T> && st[i] >= 7 && st[i] <= 8 ? 0 : st[i];
        MC_CHECK(f.is_ready(), "future %d never became ready", i);
        MC_CHECK(outcome_of(std::move(f)) == e, "outcome of future %d, expected %d", i, e);
    }
}
MC_SCENARIO("C03", task_handles_val) { handles<val>(); }
MC_SCENARIO("C03", task_handles_void) { handles<void>(); }
MC_SCENARIO("C03", task_handles_moveonly) { handles<mval>(); }
// the same from within the function that the handle is running: it has been called, nothing is abandoned
template <class T> void handle_in_use() {
    using P = packaged_task<>;
    static std::optional<P> p[2];
    static int runs[2];
    runs[0] = runs[1] = 0;
    int op = mc_choose(7), thr = mc_choose(2), after = mc_choose(2);
    token tk(10);
    auto body = [&, tk](int k) { return [&, k, op, thr, tk]() -> T {
        ++runs[k];
        if (k == 0) switch (op) {
        case 0: p[0].reset(); break;
        case 1: *p[0] = std::move(*p[1]); break;
        case 2: *p[0] = P{}; break;
        case 3: { P t{std::move(*p[0])}; t(); } break;
        case 4: (*p[0])(); break;
        case 5: p[0]->set_exception(mkerr(4)); break;
        case 6: std::swap(*p[0], *p[1]); (*p[0])(); break;
        }
        MC_CHECK(mc_get(10) >= 2, "the function was destroyed while it runs");
        if (thr && k == 0) throw err{3};
        return mk<T>::make(7 + k);
    }; };
    auto [p0, f0] = package<T()>(inline_ex{}, body(0));
    auto [p1, f1] = package<T()>(inline_ex{}, body(1));
    p[0].emplace(std::move(p0)); p[1].emplace(std::move(p1));
    int got[2] = {-5, -5};
    auto r0 = [&](auto&& f, int k) { return std::move(f).recover(inline_ex{}, [&got, k](future<T> x) { got[k] = outcome_of(std::move(x), 7 + k); }); };
    future<void> g0, g1;
    if (!after) { g0 = r0(std::move(f0), 0); g1 = r0(std::move(f1), 1); }
    (*p[0])();
    if (op == 1) { MC_CHECK(runs[1] == 0 && (after ? !f1.is_ready() : got[1] == -5), "the other task"); (*p[0])(); }
    else if (op == 6) MC_CHECK(runs[1] == 1, "the other task ran %d times", runs[1]);
    p[0].reset(); p[1].reset();
    if (after) { MC_CHECK(f0.is_ready() && f1.is_ready(), "not ready"); g0 = r0(std::move(f0), 0); g1 = r0(std::move(f1), 1); }
    MC_CHECK(runs[0] == 1, "ran %d times", runs[0]);
    MC_CHECK(got[0] == (thr ? 1003 : 7), "the outcome of a task that ran is %d", got[0]);
    MC_CHECK(got[1] == (op == 1 || op == 6 ? 8 : BROKEN), "the outcome of the other task is %d", got[1]);
    MC_CHECK(mc_get(10) == 2, "%ld captured tokens alive", mc_get(10));
}
MC_SCENARIO("C03", handle_in_use_val) { handle_in_use<val>(); }
MC_SCENARIO("C03", handle_in_use_void) { handle_in_use<void>(); }
MC_SCENARIO("C03", handle_in_use_moveonly) { handle_in_use<mval>(); }

// dropped by one thread while another attaches a continuation which waits for it
template <class T> void drop_vs_wait() {
    auto [p, f] = package<T()>(inline_ex{}, []() -> T { return mk<T>::make(7); });
    int how = mc_choose(3);
    std::thread a([&, p = std::move(p)]() mutable { auto q = std::move(p); if (how == 1) q(); if (how == 2) q.set_exception(mkerr(4)); });
    std::mutex m; std::condition_variable cv; int got = -5;
    auto hold = std::move(f).recover(immediate_executor, [&](future<T> x) { int o = outcome_of(std::move(x), 7); std::lock_guard<std::mutex> l(m); got = o; cv.notify_one(); });
    { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return got != -5; }); }
    MC_CHECK(got == (how == 0 ? BROKEN : how == 1 ? 7 : 1004), "waiter got %d", got);
    a.join();
}
MC_SCENARIO("C03,C33", drop_vs_wait_val) { drop_vs_wait<val>(); }
MC_SCENARIO("C03", drop_vs_wait_void) { drop_vs_wait<void>(); }
MC_SCENARIO("C03,C33", drop_vs_wait_moveonly) { drop_vs_wait<mval>(); }

// the executor of the second step drops it while the first resolves on another thread; two branches
template <class T> void branch_drop() {
    auto [p, f] = package<T()>(inline_ex{}, []() -> T { return mk<T>::make(7); });
    int a1 = 0;
    auto r1 = f.then(drop_ex{}, [&](const auto&...) { ++a1; return 1; });
    std::thread t([&, p = std::move(p)]() mutable { p(); });
    auto r2 = f.recover(inline_ex{}, [&](future<T> x) { return outcome_of(std::move(x), 7); });
    auto r3 = r1.recover(inline_ex{}, [&](future<int> x) { return outcome_of(std::move(x)); });
    t.join();
    MC_CHECK(a1 == 0 && r1.is_ready() && outcome_of(r1) == BROKEN, "dropped branch");
    MC_CHECK(r2.is_ready() && outcome_of(r2) == 7, "other branch got %d", outcome_of(r2));
    MC_CHECK(r3.is_ready() && outcome_of(r3) == BROKEN, "after the dropped branch");
}
MC_SCENARIO("C03,C33", branch_drop_val) { branch_drop<val>(); }
MC_SCENARIO("C03", branch_drop_void) { branch_drop<void>(); }

// ================================================================ C04
template <class T> void drop_future(future<T>& f, int how) {
    switch (how) {
    case 0: f.reset(); break;
    case 1: { auto g = std::move(f); } break;
    case 2: f = future<T>{}; break;
    case 3: { future<T> g; g.swap(f); } break;
    case 4: { auto [p, g] = package<T()>(inline_ex{}, []() -> T { return mk<T>::make(1); }); f = std::move(g); } break;
    }
}
// dropped before the start: nothing runs and everything is released at once
template <class T> void cancel_before() {
    int how = mc_choose(5), n = 1 + mc_choose(3);
    queue_ex q; token tk(10); int runs = 0;
    auto f0 = async(q, [&, tk]() -> T { ++runs; return mk<T>::make(7); });
    if (n == 1) { MC_CHECK(mc_get(10) == 2, "tokens"); drop_future(f0, how); }
    else {
        auto f1 = std::move(f0).recover(mc_choose(2) ? executor_t{q} : executor_t{inline_ex{}}, [&, tk](future<T>) { ++runs; return 1; });
        if (n == 2) drop_future(f1, how);
        else { auto f2 = std::move(f1).then(inline_ex{}, [&, tk](int x) { ++runs; return x; }); MC_CHECK(mc_get(10) == 4, "tokens"); drop_future(f2, how); }
    }
    MC_CHECK(mc_get(10) == 1, "%ld captured tokens not released by dropping the last future", mc_get(10) - 1);
    MC_CHECK(q.size() == 1, "queue");
    if (mc_choose(2)) q.run_all(); else q.drop_all();
    MC_CHECK(runs == 0, "cancelled task ran");
    MC_CHECK(mc_get(10) == 1, "tokens after the executor got to it");
}
MC_SCENARIO("C04", cancel_before_val) { cancel_before<val>(); }
MC_SCENARIO("C04", cancel_before_void) { cancel_before<void>(); }
MC_SCENARIO("C04", cancel_before_moveonly) { cancel_before<mval>(); }

// handles on a chain, every subset dropped in every order: the first task runs iff somebody still needs it
template <class T> void who_keeps() {
    queue_ex q; token tk(10); int r0 = 0, r1 = 0, r2 = 0;
    std::optional<future<T>> h0; std::optional<future<int>> h1, h2;
    h0.emplace(async(q, [&, tk]() -> T { ++r0; return mk<T>::make(7); }));
    h1.emplace(h0->recover(inline_ex{}, [&, tk](future<T>) { ++r1; return 1; }));
    h2.emplace(h0->recover(inline_ex{}, [&, tk](future<T>) { ++r2; return 2; }));
    int det = mc_choose(4); // 1: detach h0, 2: detach h1
    if (det == 1) h0->detach();
    if (det == 2) h1->detach();
    if (det == 3) std::move(*h1).detach([&, tk](future<int>&&) {});
    bool b0 = true, b1 = det != 3, b2 = true;
    for (int k = mc_choose(4); k > 0; --k) {
        int w = mc_choose(3);
        if (w == 0) { h0.reset(); b0 = false; } else if (w == 1) { h1.reset(); b1 = false; } else { h2.reset(); b2 = false; }
    }
    bool keep1 = b1 || det == 2 || det == 3, keep2 = b2, keep0 = b0 || keep1 || keep2 || det == 1;
    long expect = 1 + (keep0 ? 1 : 0) + (keep1 ? 1 : 0) + (keep2 ? 1 : 0) + (det == 3 ? 1 : 0);
    MC_CHECK(mc_get(10) == expect, "%ld tokens alive before the run, expected %ld", mc_get(10), expect);
    q.run_all();
    MC_CHECK(r0 == keep0, "first task ran %d times, expected %d", r0, keep0);
    MC_CHECK(r1 == keep1, "second ran %d times, expected %d", r1, keep1);
    MC_CHECK(r2 == keep2, "third ran %d times, expected %d", r2, keep2);
    MC_CHECK(mc_get(10) == 1, "%ld captured tokens survive their task", mc_get(10) - 1);
}
MC_SCENARIO("C04", who_keeps_val) { who_keeps<val>(); }
MC_SCENARIO("C04", who_keeps_void) { who_keeps<void>(); }

// running and dropping race
template <class T> void run_vs_drop() {
    int how = mc_choose(5), chain = mc_choose(2);
    token tk(10);
    auto [p, f] = package<T()>(inline_ex{}, [tk]() -> T { mc_count(11, 1); return mk<T>::make(7); });
    std::thread a([p = std::move(p)]() mutable { p(); });
    if (chain) { auto g = std::move(f).recover(inline_ex{}, [tk](future<T> x) { mc_count(12, 1); MC_CHECK(x.is_ready() && outcome_of(std::move(x), 7) == 7, "continuation"); return 1; }); drop_future(g, how); }
    else drop_future(f, how);
    a.join();
    MC_CHECK(mc_get(10) == 1, "%ld captured tokens alive", mc_get(10) - 1);
    MC_CHECK(mc_get(11) <= 1 && mc_get(12) <= mc_get(11), "runs %ld %ld", mc_get(11), mc_get(12));
    mc_outcome("%ld %ld", mc_get(11), mc_get(12));
}
MC_SCENARIO("C04,C33", run_vs_drop_val) { run_vs_drop<val>(); }
MC_SCENARIO("C04", run_vs_drop_void) { run_vs_drop<void>(); }
MC_SCENARIO("C04,C33", run_vs_drop_moveonly) { run_vs_drop<mval>(); }
// two copies dropped by two threads while a third runs the task
MC_SCENARIO("C04,C33", run_vs_two_drops) {
    token tk(10);
    auto [p, f] = package<val()>(inline_ex{}, [tk]() -> val { mc_count(11, 1); return val{7}; });
    std::thread a([p = std::move(p)]() mutable { p(); });
    std::thread b([g = f]() mutable { g.reset(); });
    f.reset();
    a.join(); b.join();
    MC_CHECK(mc_get(10) == 1 && mc_get(11) <= 1, "tokens %ld runs %ld", mc_get(10), mc_get(11));
    mc_outcome("%ld", mc_get(11));
}
// a surviving branch is never cancelled by the other one being dropped
template <class T> void other_branch() {
    token tk(10);
    auto [p, f] = package<T()>(inline_ex{}, [tk]() -> T { mc_count(11, 1); return mk<T>::make(7); });
    auto r1 = f.recover(inline_ex{}, [tk](future<T> x) { mc_count(12, 1); return outcome_of(std::move(x), 7); });
    auto r2 = f.recover(inline_ex{}, [tk](future<T> x) { mc_count(13, 1); return outcome_of(std::move(x), 7); });
    f.reset();
    std::thread a([p = std::move(p)]() mutable { p(); });
    r1.reset();
    a.join();
    MC_CHECK(mc_get(11) == 1 && mc_get(13) == 1 && mc_get(12) <= 1, "runs %ld %ld %ld", mc_get(11), mc_get(12), mc_get(13));
    MC_CHECK(r2.is_ready() && outcome_of(r2) == 7, "surviving branch");
    r2.reset();
    MC_CHECK(mc_get(10) == 1, "%ld tokens alive", mc_get(10) - 1);
    mc_outcome("%ld", mc_get(12));
}
MC_SCENARIO("C04,C33", other_branch_val) { other_branch<val>(); }
MC_SCENARIO("C04", other_branch_void) { other_branch<void>(); }
// a detached future runs to the end whoever drops what and when
template <class T> void detach_vs_run() {
    token tk(10); int how = mc_choose(2), chain = mc_choose(2);
    auto [p, f] = package<T()>(inline_ex{}, [tk]() -> T { mc_count(11, 1); return mk<T>::make(7); });
    bool start_first = mc_choose(2);
    std::thread a;
    if (start_first) a = std::thread([p = std::move(p)]() mutable { p(); });
    auto det = [&](auto&& g) { if (how) std::move(g).detach([tk](auto&& x) { mc_count(13, 1); MC_CHECK(x.is_ready(), "detached continuation ran early"); }); else { g.detach(); g.reset(); } };
    if (chain) { auto g = std::move(f).recover(inline_ex{}, [tk](future<T> x) { mc_count(12, 1); return outcome_of(std::move(x), 7); }); det(std::move(g)); }
    else det(std::move(f));
    if (!start_first) a = std::thread([p = std::move(p)]() mutable { p(); });
    a.join();
    MC_CHECK(mc_get(11) == 1 && mc_get(12) == chain && mc_get(13) == how, "runs %ld %ld %ld", mc_get(11), mc_get(12), mc_get(13));
    MC_CHECK(mc_get(10) == 1, "%ld tokens alive", mc_get(10) - 1);
}
MC_SCENARIO("C04,C33", detach_vs_run_val) { detach_vs_run<val>(); }
MC_SCENARIO("C04", detach_vs_run_void) { detach_vs_run<void>(); }
MC_SCENARIO("C04,C33", detach_vs_run_moveonly) { detach_vs_run<mval>(); }
// a future that was detached stays detached, whatever is attached to it and dropped afterwards
template <class T> void detach_then_attach() {
    token tk(10); int how = mc_choose(4), level = mc_choose(2); bool again = mc_choose(2);
    auto [p, f] = package<T()>(inline_ex{}, [tk]() -> T { mc_count(11, 1); return mk<T>::make(7); });
    auto go = [&](auto&& g) {
        g.detach(); if (again) g.detach();
        auto run = [&](auto x) { x.reset(); };
        switch (how) {
        case 0: run(std::move(g).recover(inline_ex{}, [tk](auto x) { mc_count(13, 1); return outcome_of(std::move(x), 7); })); break;
        case 1: { auto r = std::move(g).recover(inline_ex{}, [tk](auto x) { mc_count(13, 1); return outcome_of(std::move(x), 7); }); r.detach(); } break;
        case 2: std::move(g).detach([tk](auto&& x) { mc_count(13, 1); MC_CHECK(x.is_ready(), "detached continuation ran early"); }); break;
        default: g.reset();
        }
    };
    if (level) go(std::move(f).recover(inline_ex{}, [tk](future<T> x) -> T { mc_count(12, 1); outcome_of(std::move(x), 7); return mk<T>::make(7); })); else go(std::move(f));
    std::thread a([p = std::move(p)]() mutable { p(); });
    a.join();
    MC_CHECK(mc_get(11) == 1 && mc_get(12) == level, "a detached future was cancelled: runs %ld %ld", mc_get(11), mc_get(12));
    MC_CHECK(how == 1 || how == 2 ? mc_get(13) == 1 : mc_get(13) <= (how == 0), "the continuation ran %ld times", mc_get(13));
    MC_CHECK(mc_get(10) == 1, "%ld tokens alive", mc_get(10) - 1);
}
MC_SCENARIO("C04", detach_then_attach_val) { detach_then_attach<val>(); }
MC_SCENARIO("C04", detach_then_attach_void) { detach_then_attach<void>(); }
MC_SCENARIO("C04", detach_then_attach_moveonly) { detach_then_attach<mval>(); }
// chain whose steps run on threads, last future dropped at any moment: everything is released in the end
template <class T> void drop_chain_threads() {
    token tk(10);
    auto f = async(thread_ex{}, [tk]() -> T { mc_count(11, 1); return mk<T>::make(7); })
        .recover(thread_ex{}, [tk](future<T> x) { mc_count(12, 1); return outcome_of(std::move(x), 7); });
    drop_future(f, mc_choose(2));
    all_done();
    MC_CHECK(mc_get(10) == 1, "%ld tokens alive", mc_get(10) - 1);
    MC_CHECK(mc_get(12) <= mc_get(11), "runs");
    mc_outcome("%ld %ld", mc_get(11), mc_get(12));
}
MC_SCENARIO("C04,C33", drop_chain_threads_val) { drop_chain_threads<val>(); }
MC_SCENARIO("C04", drop_chain_threads_moveonly) { drop_chain_threads<mval>(); }
// what a step captured, and the inputs it was holding, are released as soon as it has run, whether it returned or threw
template <class T> void released_after_run() {
    int shape = mc_choose(9), bad = mc_choose(2), late = mc_choose(2), copy = mc_choose(2);
    queue_ex q; executor_t ex = late ? executor_t{q} : executor_t{inline_ex{}};
    token tk(10);
    // the value of the source is counted as well: the state that holds it goes with the step
    struct counted { token t; counted() : t(12) {} };
    auto body = [tk, bad](const auto&...) -> T { mc_count(11, 1); if (bad) throw err{3}; return mk<T>::make(7); };
    auto src = async(ex, [tk] { return counted(); });
    future<T> r;
    auto attach = [&](auto f) { if (copy) { r = std::as_const(src).recover(ex, f); src.reset(); } else r = std::move(src).recover(ex, f); };
    switch (shape) {
    case 0: r = async(ex, body); src.reset(); break;
    case 1: if (copy) { r = std::as_const(src).then(ex, body); src.reset(); } else r = std::move(src).then(ex, body); break;
    case 2: attach(body); break;
    case 3: r = async(ex, [tk, ex, body] { return async(ex, body); }); src.reset(); break;
    case 4: attach([tk, ex, body](future<counted>) { return async(ex, body); }); break;
    case 5: { auto other = src; r = when_all(ex, body, std::move(src), std::move(other)); src.reset(); break; }
    case 6: { auto other = src; r = when_any(ex, body, std::move(src), std::move(other)); src.reset(); break; }
    case 7: { std::vector<future<counted>> v{src, src}; src.reset(); r = when_all(ex, body, std::make_pair(v.begin(), v.end())); break; }
    default: { std::vector<future<counted>> v{src, src}; src.reset(); r = when_any(ex, body, std::make_pair(v.begin(), v.end())); break; }
    }
    q.run_all();
    MC_CHECK(r.is_ready() && mc_get(11) == 1, "not run");
    MC_CHECK(!!r.exception() == !!bad, "outcome");
    MC_CHECK(mc_get(10) == 1 + 1, "%ld captures alive after the steps ran", mc_get(10) - 2); // tk, body
    MC_CHECK(mc_get(12) == 0, "%ld source values alive after the step that held them ran", mc_get(12));
    r.reset();
    all_done();
}
MC_SCENARIO("C04", released_after_run_val) { released_after_run<val>(); }
MC_SCENARIO("C04", released_after_run_void) { released_after_run<void>(); }
MC_SCENARIO("C04", released_after_run_moveonly) { released_after_run<mval>(); }
