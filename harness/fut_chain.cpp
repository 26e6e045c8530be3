// PROPS: C05 C06 C03 C04 C33
// error propagation and recovery along chains; futures of futures
#define WANT_FUTURE
#include "common.h"
using namespace stlab;

// ================================================================ C05
enum { S_THEN, S_THEN_THROW, S_REC, S_REC_THROW, S_REC_RETHROW, S_THEN_FUT, S_THEN_FUT_ERR, S_REC_FUT, N_STEP };
static int next(int v) { return v >= 1000 || v < 0 ? 50 : v + 1; }
template <class T> future<T> step(future<T>&& f, int kind, int i, int* runs, int* saw, executor_t ex, bool op) {
    auto thenf = [=](int in) { ++runs[i]; saw[i] = in; };
    auto ret = [=](int) -> T { if constexpr (!std::is_void_v<T>) return mk<T>::make(next(saw[i])); };
    auto body = [=](int in) -> T { thenf(in); if (kind == S_THEN_THROW) throw err{i}; return ret(in); };
    auto fbody = [=](int in) -> future<T> {
        thenf(in);
        return kind == S_THEN_FUT_ERR ? async(inline_ex{}, [i]() -> T { throw err{i}; }) : async(inline_ex{}, [=]() -> T { return ret(in); });
    };
    auto rec = [=](future<T> x) -> T {
        ++runs[i];
        MC_CHECK(x.is_ready(), "recover called before ready");
        if (auto e = x.exception()) saw[i] = err_code(e);
        if (kind == S_REC_RETHROW) { if constexpr (std::is_void_v<T>) { std::move(x).get_ready(); saw[i] = 0; return; } else { auto v = std::move(x).get_ready(); saw[i] = mk<T>::get(v); return v; } }
        if (!x.exception()) saw[i] = outcome_of(std::move(x));
        if (kind == S_REC_THROW) throw err{i};
        return ret(0);
    };
    auto frec = [=](future<T> x) -> future<T> { ++runs[i]; saw[i] = outcome_of(std::move(x)); return async(inline_ex{}, [=]() -> T { return ret(0); }); };
    auto go = [&](auto b) {
        if constexpr (std::is_void_v<T>) { auto g = [b]() { return b(0); }; return op ? std::move(f) | (executor{ex} & g) : std::move(f).then(ex, g); }
        else { auto g = [b](T x) { return b(mk<T>::get(x)); }; return op ? std::move(f) | (executor{ex} & g) : std::move(f).then(ex, g); }
    };
    switch (kind) {
    case S_THEN: case S_THEN_THROW: return go(body);
    case S_THEN_FUT: case S_THEN_FUT_ERR: return go(fbody);
    case S_REC_FUT: return op ? std::move(f) ^ (executor{ex} & frec) : std::move(f).recover(ex, frec);
    default: return op ? std::move(f) ^ (executor{ex} & rec) : std::move(f).recover(ex, rec);
    }
}
template <class T> void chains(int depth) {
    int src = mc_choose(3); // 0 value, 1 throws, 2 dropped
    int mode = mc_choose(3); // 0 everything inline, source resolved last; 1 source first; 2 steps on queues
    queue_ex q;
    executor_t ex = mode == 2 ? executor_t{q} : executor_t{inline_ex{}};
    int runs[5] = {0}, saw[5] = {-5, -5, -5, -5, -5}, kind[5], n = depth;
    auto [p, f] = package<T()>(inline_ex{}, [src]() -> T { if (src == 1) throw err{9}; return mk<T>::make(7); });
    auto fire = [&] { if (src == 2) { auto d = std::move(p); } else p(); };
    if (mode == 1) fire();
    future<T> r = std::move(f);
    for (int i = 0; i < n; ++i) { kind[i] = mc_choose(N_STEP); r = step<T>(std::move(r), kind[i], i, runs, saw, ex, (i + src) & 1); }
    if (mode != 1) fire();
    if (mode == 2) q.run_all();
    // reference
    int v = src == 0 ? (std::is_void_v<T> ? 0 : 7) : src == 1 ? 1009 : BROKEN;
    for (int i = 0; i < n; ++i) {
        bool bad = v >= 1000 || v < 0, then = kind[i] == S_THEN || kind[i] == S_THEN_THROW || kind[i] == S_THEN_FUT || kind[i] == S_THEN_FUT_ERR;
        int er = then && bad ? 0 : 1;
        MC_CHECK(runs[i] == er, "step %d (kind %d) ran %d times, expected %d", i, kind[i], runs[i], er);
        if (er) MC_CHECK(saw[i] == v, "step %d (kind %d) saw %d, expected %d", i, kind[i], saw[i], v);
        if (then && bad) continue;
        if (kind[i] == S_THEN_THROW || kind[i] == S_REC_THROW || kind[i] == S_THEN_FUT_ERR) v = 1000 + i;
        else if (kind[i] == S_REC_RETHROW) ;
        else v = std::is_void_v<T> ? 0 : next(v);
    }
    MC_CHECK(r.is_ready(), "chain not resolved");
    int o = outcome_of(std::move(r));
    MC_CHECK(o == v, "chain ends with %d, expected %d", o, v);
}
MC_SCENARIO("C05,C06", chains_val) { chains<val>(3); }
MC_SCENARIO("C05,C06", chains_void) { chains<void>(3); }
MC_SCENARIO("C05,C06", chains_moveonly) { chains<mval>(3); }
MC_SCENARIO("C05,C06", chains4_val, .thorough_only = 1) { chains<val>(4); }
MC_SCENARIO("C05,C06", chains4_void, .thorough_only = 1) { chains<void>(4); }
MC_SCENARIO("C05,C06", chains4_moveonly, .thorough_only = 1) { chains<mval>(4); }

// the very same exception object arrives, on every branch, on other threads too
template <class T> void same_exception() {
    std::exception_ptr e0 = mkerr(5);
    auto [p, f] = package<T()>(inline_ex{}, [e0]() -> T { std::rethrow_exception(e0); });
    std::exception_ptr got[2];
    std::thread a([p = std::move(p)]() mutable { p(); });
    auto r0 = f.then(thread_ex{}, [](const auto&...) { MC_CHECK(false, "skipped step ran"); return 1; });
    auto r1 = std::move(r0).recover(thread_ex{}, [&](future<int> x) { got[0] = x.exception(); return 3; });
    auto r2 = f.recover(inline_ex{}, [&](future<T> x) { got[1] = x.exception(); return 4; });
    a.join(); all_done();
    MC_CHECK(got[0] == e0 && got[1] == e0 && f.exception() == e0, "another exception arrived");
    MC_CHECK(outcome_of(r1) == 3 && outcome_of(r2) == 4, "recovered results");
}
MC_SCENARIO("C05,C33", same_exception_val) { same_exception<val>(); }
MC_SCENARIO("C05", same_exception_void) { same_exception<void>(); }

// a throwing step never lets an exception escape into the executor, also when nobody looks any more
template <class T> void throw_unobserved() {
    int drop = mc_choose(3);
    token tk(10);
    auto f = async(thread_ex{}, [tk]() -> T { throw err{1}; }).recover(thread_ex{}, [tk](future<T>) -> T { throw err{2}; });
    if (drop == 1) f.reset(); else if (drop == 2) { f.detach(); f.reset(); }
    all_done();
    if (!drop) MC_CHECK(outcome_of(std::move(f)) == 1002, "outcome");
    f.reset();
    MC_CHECK(mc_get(10) == 1, "tokens");
}
MC_SCENARIO("C05,C04", throw_unobserved_val) { throw_unobserved<val>(); }
MC_SCENARIO("C05,C04", throw_unobserved_void) { throw_unobserved<void>(); }

// ================================================================ C06
// outer step returns a future; outer run, inner resolution and attachment interleave
template <class T> void reduce_race() {
    int kind = mc_choose(3);       // inner: value, error, dropped
    int way = mc_choose(4);        // how the outer is made
    token tk(10);
    auto [pi, fi] = package<T()>(inline_ex{}, [kind, tk]() -> T { if (kind == 1) throw err{3}; return mk<T>::make(7); });
    auto [po, fo] = package<int()>(inline_ex{}, [] { return 1; });
    std::thread b([kind, p = std::move(pi)]() mutable { if (kind == 2) auto q = std::move(p); else p(); });
    auto inner = [g = std::move(fi)](auto&&...) mutable { return std::move(g); };
    future<T> r;
    if (way == 0) r = std::move(fo).then(inline_ex{}, std::move(inner));
    else if (way == 1) r = std::move(fo).recover(inline_ex{}, std::move(inner));
    else if (way == 2) { auto pr = package<future<T>(int)>(inline_ex{}, std::move(inner)); r = std::move(pr.second);
        auto h = std::move(fo).recover(inline_ex{}, [q = std::move(pr.first)](future<int>) mutable { q(1); }); h.detach(); }
    else { r = std::move(fo).then(inline_ex{}, [i = std::move(inner)](int) mutable { return async(inline_ex{}, std::move(i)); }); }
    po();
    bool before = r.is_ready();
    int got = -5; bool rd = false; int runs = 0;
    auto h = std::move(r).recover(inline_ex{}, [&](future<T> x) { ++runs; rd = x.is_ready(); got = outcome_of(std::move(x), 7); return 1; });
    b.join();
    int exp = kind == 0 ? 7 : kind == 1 ? 1003 : BROKEN;
    MC_CHECK(runs == 1 && rd && got == exp, "outer outcome %d (runs %d), expected %d", got, runs, exp);
    h.reset();
    MC_CHECK(mc_get(10) == 1, "tokens %ld", mc_get(10) - 1);
    mc_outcome("%d", before);
}
MC_SCENARIO("C06,C33", reduce_race_val) { reduce_race<val>(); }
MC_SCENARIO("C06", reduce_race_void) { reduce_race<void>(); }
MC_SCENARIO("C06,C33", reduce_race_moveonly) { reduce_race<mval>(); }

// the outer is ready only when the inner is: sequential, all orders of events
template <class T> void reduce_order() {
    int depth = 1 + mc_choose(3), kind = mc_choose(3), level = mc_choose(2);
    token tk(10);
    auto [pi, fi] = package<T()>(inline_ex{}, [kind, tk]() -> T { if (kind == 1) throw err{3}; return mk<T>::make(7); });
    queue_ex q;
    std::function<future<T>(int)> nest; future<T> keep = std::move(fi);
    nest = [&](int d) -> future<T> { if (d == 0) return std::move(keep); return async(level ? executor_t{q} : executor_t{inline_ex{}}, [&nest, d] { return nest(d - 1); }); };
    auto r = nest(depth);
    bool inner_first = mc_choose(2);
    auto fire = [&] { if (kind == 2) auto d = std::move(pi); else pi(); };
    if (inner_first) fire();
    int steps = 0;
    while (q.run_one()) { ++steps; if (!inner_first || q.size()) MC_CHECK(!r.is_ready(), "outer ready before the inner"); }
    if (!inner_first) { MC_CHECK(!r.is_ready(), "outer ready before the inner"); fire(); }
    MC_CHECK(r.is_ready(), "outer not resolved");
    MC_CHECK(outcome_of(std::move(r), 7) == (kind == 0 ? 7 : kind == 1 ? 1003 : BROKEN), "outcome");
    MC_CHECK(steps == (level ? depth : 0), "steps");
    r.reset();
    MC_CHECK(mc_get(10) == 1, "tokens");
}
MC_SCENARIO("C06", reduce_order_val) { reduce_order<val>(); }
MC_SCENARIO("C06", reduce_order_void) { reduce_order<void>(); }
MC_SCENARIO("C06", reduce_order_moveonly) { reduce_order<mval>(); }

// dropping the outer releases the inner, pending or not yet produced; an inner held elsewhere goes on
template <class T> void reduce_drop() {
    int when = mc_choose(3), shared_inner = std::is_same_v<T, mval> ? 0 : mc_choose(2);
    token tk(10), tk2(11);
    auto [pi, fi] = package<T()>(inline_ex{}, [tk]() -> T { mc_count(12, 1); return mk<T>::make(7); });
    future<T> held; if constexpr (!std::is_same_v<T, mval>) if (shared_inner) held = fi;
    queue_ex q;
    auto r = async(q, [g = std::move(fi), tk2]() mutable { return std::move(g); });
    if (when == 0) r.reset();                       // outer not started
    MC_CHECK(q.run_one(), "submitted");
    if (when == 1) r.reset();                       // inner pending
    if (when <= 1) MC_CHECK(mc_get(10) == (shared_inner ? 2 : 1) && mc_get(11) == 1, "inner not released: %ld %ld", mc_get(10), mc_get(11));
    MC_CHECK(pi.canceled() == (when <= 1 && !shared_inner), "inner task canceled() reports %d", pi.canceled());
    pi();
    MC_CHECK(mc_get(12) == (when == 2 || shared_inner ? 1 : 0), "inner ran %ld times", mc_get(12));
    if (when == 2) MC_CHECK(outcome_of(std::move(r), 7) == 7, "outcome");
    r.reset(); held.reset();
    MC_CHECK(mc_get(10) == 1 && mc_get(11) == 1, "tokens");
}
MC_SCENARIO("C06,C04", reduce_drop_val) { reduce_drop<val>(); }
MC_SCENARIO("C06,C04", reduce_drop_void) { reduce_drop<void>(); }
MC_SCENARIO("C06,C04", reduce_drop_moveonly) { reduce_drop<mval>(); }

// the outer dropped on one thread while the inner resolves on another
template <class T> void reduce_drop_race() {
    token tk(10);
    auto [pi, fi] = package<T()>(inline_ex{}, [tk]() -> T { mc_count(12, 1); return mk<T>::make(7); });
    auto [po, fo] = package<future<T>()>(inline_ex{}, [g = std::move(fi), tk]() mutable { return std::move(g); });
    std::thread a([p = std::move(pi)]() mutable { p(); });
    std::thread b([p = std::move(po)]() mutable { p(); });
    bool rd = fo.is_ready(); fo.reset();
    a.join(); b.join();
    MC_CHECK(mc_get(10) == 1, "tokens %ld", mc_get(10) - 1);
    mc_outcome("%d %ld", rd, mc_get(12));
}
MC_SCENARIO("C06,C04,C33", reduce_drop_race_val) { reduce_drop_race<val>(); }
MC_SCENARIO("C06", reduce_drop_race_void) { reduce_drop_race<void>(); }
MC_SCENARIO("C06,C33", reduce_drop_race_moveonly) { reduce_drop_race<mval>(); }
// outer step throws before producing a future; outer's executor drops it
template <class T> void reduce_fail() {
    int how = mc_choose(3);
    token tk(10);
    auto [pi, fi] = package<T()>(inline_ex{}, [tk]() -> T { return mk<T>::make(7); });
    future<T> r;
    if (how == 0) r = async(inline_ex{}, [g = std::move(fi)]() mutable -> future<T> { throw err{6}; });
    else if (how == 1) r = async(drop_ex{}, [g = std::move(fi)]() mutable -> future<T> { return std::move(g); });
    else r = async(inline_ex{}, [] { return 1; }).then(inline_ex{}, [](int) -> int { throw err{6}; }).then(inline_ex{}, [g = std::move(fi)](int) mutable -> future<T> { return std::move(g); });
    MC_CHECK(r.is_ready() && outcome_of(std::move(r)) == (how == 1 ? BROKEN : 1006), "outcome");
    MC_CHECK(mc_get(10) == 1, "inner not released: %ld", mc_get(10) - 1);
    MC_CHECK(pi.canceled(), "inner still wanted");
}
MC_SCENARIO("C06,C03,C05", reduce_fail_val) { reduce_fail<val>(); }
MC_SCENARIO("C06,C03,C05", reduce_fail_void) { reduce_fail<void>(); }
MC_SCENARIO("C06,C03,C05", reduce_fail_moveonly) { reduce_fail<mval>(); }

// an exception of any kind, thrown at any place a result comes from, arrives as it is
template <class T> void exception_kinds() {
    const std::exception_ptr e0 = any_exc(mc_choose(N_EXC));
    int origin = mc_choose(9), late = mc_choose(2), tail = mc_choose(4);
    token tk(10);
    auto thrower = [e0, tk](const auto&...) -> T { std::rethrow_exception(e0); };
    auto fthrower = [e0, tk](const auto&...) -> future<T> { std::rethrow_exception(e0); };
    queue_ex q; executor_t ex = late ? executor_t{q} : executor_t{inline_ex{}};
    auto src = async(ex, [] { return 1; });
    future<T> r;
    switch (origin) {
    case 0: r = async(ex, thrower); break;
    case 1: r = std::move(src).then(ex, thrower); break;
    case 2: r = std::move(src).recover(ex, [thrower](future<int>) { return thrower(); }); break;
    case 3: r = async(ex, [e0] { return stlab::make_exceptional_future<T>(e0, inline_ex{}); }); break;
    case 4: r = async(ex, [thrower, ex] { return async(ex, thrower); }); break;
    case 5: r = std::move(src).then(ex, [thrower, ex](int) { return async(ex, [thrower, ex] { return async(ex, thrower); }); }); break;
    case 6: r = std::move(src).recover(ex, [thrower, ex](future<int>) { return async(ex, thrower); }); break;
    case 7: r = async(ex, fthrower); break;
    default: r = std::move(src).then(ex, fthrower); break;
    }
    std::exception_ptr got; int skipped = 0;
    auto skip = [&skipped](const auto&...) { ++skipped; return 3; };
    if (tail == 0) { q.run_all(); MC_CHECK(r.is_ready(), "not resolved"); got = r.exception(); r.reset(); }
    else if (tail == 1) { auto h = std::move(r).recover(inline_ex{}, [&](future<T> x) { got = x.exception(); return 1; }); q.run_all(); MC_CHECK(h.is_ready() && outcome_of(h) == 1, "recover result"); }
    else if (tail == 2) { auto h = std::move(r).then(inline_ex{}, skip).then(ex, skip); q.run_all(); MC_CHECK(h.is_ready(), "not resolved"); got = h.exception(); }
    else { bool same = false; auto h = std::move(r).then(inline_ex{}, skip); q.run_all(); try { (void)std::move(h).get_try(); } catch (...) { same = true; got = std::current_exception(); } MC_CHECK(same, "get_try did not throw"); }
    MC_CHECK(got == e0 && !skipped, "another exception arrived (%d skipped steps ran)", skipped);
    got = nullptr;
    src.reset(); r.reset();
    q.run_all(); 
}
MC_SCENARIO("C05,C06", exception_kinds_val) { exception_kinds<val>(); }
MC_SCENARIO("C05,C06", exception_kinds_void) { exception_kinds<void>(); }
MC_SCENARIO("C05,C06", exception_kinds_moveonly) { exception_kinds<mval>(); }
