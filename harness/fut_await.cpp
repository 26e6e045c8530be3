// PROPS: C10 C11 C03 C33
// blocking waits and coroutines
#define WANT_FUTURE
#include "common.h"
#include <chrono>
#include <coroutine>
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/default_executor.hpp>
#include <stlab/pre_exit.hpp>
#include <stlab/utility.hpp>
using namespace stlab;
using std::chrono::nanoseconds;

// the result of a call as an outcome code
template <class F> int run(F&& f) {
    try { return std::forward<F>(f)(); }
    catch (const err& e) { return 1000 + e.code; }
    catch (const future_error& e) { return e.code() == future_error_codes::broken_promise ? BROKEN : -101; }
    catch (const std::runtime_error&) { return -300; }
    catch (...) { return -200; }
}
template <class T> int await_code(future<T>&& f) {
    return run([&] { if constexpr (std::is_void_v<T>) { await(std::move(f)); return 5; } else return mk<T>::get(await(std::move(f))); });
}
static void finish() { pre_exit(); all_done(); }

enum how { VALUE, ERROR, DROP };
// a thread resolves the promise in way `h`; the main thread waits
template <class T> static void resolve(std::conditional_t<std::is_void_v<T>, packaged_task<>, packaged_task<std::conditional_t<std::is_void_v<T>, int, T>>>&& p, int h) {
    auto q = std::move(p);
    if (h == VALUE) { if constexpr (std::is_void_v<T>) q(); else q(mk<T>::make(5)); }
    else if (h == ERROR) q.set_exception(mkerr(3));
}
template <class T> auto make_pair() {
    if constexpr (std::is_void_v<T>) return package<void()>(immediate_executor, [] {});
    else return package<T(T)>(immediate_executor, [](T x) { return x; });
}
static int expect(int h) { return h == VALUE ? 5 : h == ERROR ? 1003 : BROKEN; }

template <class T> void await_pending(int h) {
    auto p = make_pair<T>();
    std::thread t([p = std::move(p.first), h]() mutable { resolve<T>(std::move(p), h); });
    int c = await_code<T>(std::move(p.second));
    MC_CHECK(c == expect(h), "await gave %d, expected %d", c, expect(h));
    t.join();
    finish();
}
MC_SCENARIO("C10,C33", await_int, .hw = 2, .mode = 2, .mode_thorough = 4) { await_pending<int>(mc_choose(3)); }
MC_SCENARIO("C10,C33", await_val, .hw = 2, .mode = 2, .mode_thorough = 4) { await_pending<val>(mc_choose(2)); }
MC_SCENARIO("C10,C33", await_mval, .hw = 2, .mode = 2, .mode_thorough = 3) { await_pending<mval>(mc_choose(3)); }
MC_SCENARIO("C10,C33", await_void, .hw = 2, .mode = 2, .mode_thorough = 3) { await_pending<void>(mc_choose(3)); }
// spurious wakeups are not taken for a result
MC_SCENARIO("C10", await_spurious, .hw = 2, .mode = 2, .spurious = 2) { await_pending<int>(mc_choose(2)); }
// the pool exists and is asleep already, so that the interleavings are about the waiter and the resolver only
template <class T> void await_warm(int h) {
    default_executor([]() noexcept {});
    mc_quiesce();
    await_pending<T>(h);
}
MC_SCENARIO("C10", await_warm_val, .hw = 2, .mode = 3, .mode_thorough = 5) { await_warm<val>(mc_choose(2)); }
// already resolved
template <class T> void await_ready_now() {
    int h = mc_choose(3);
    auto p = make_pair<T>();
    resolve<T>(std::move(p.first), h);
    int c = await_code<T>(std::move(p.second));
    MC_CHECK(c == expect(h), "await gave %d, expected %d", c, expect(h));
    MC_CHECK(mc_threads_created() == 1, "await of a ready future started a thread");
    all_done();
}
MC_SCENARIO("C10", await_ready_int) { await_ready_now<int>(); }
MC_SCENARIO("C10", await_ready_mval) { await_ready_now<mval>(); }
MC_SCENARIO("C10", await_ready_void) { await_ready_now<void>(); }
// several threads wait for the same outcome; one more continuation
MC_SCENARIO("C10,C33", await_shared, .hw = 2, .mode = 2, .mode_thorough = 3) {
    default_executor([]() noexcept {}); mc_quiesce();  // the pool exists

    auto p = make_pair<val>();
    auto f = p.second;
    std::thread a([f = p.second]() mutable { MC_CHECK(await(std::move(f)).v == 5, ""); });
    p.second.reset();
    std::thread t([p = std::move(p.first)]() mutable { p(val(5)); });
    MC_CHECK(await(std::move(f)).v == 5, "");
    a.join(); t.join();
    finish();
}
// through continuations on the pool
MC_SCENARIO("C10", await_async, .hw = 2, .mode = 2, .mode_thorough = 4) {
    int e = mc_choose(2);
    int c = await_code(async(default_executor, [e] { if (e) throw err{3}; return 4; }).then(default_executor, [](int x) { return x + 1; }));
    MC_CHECK(c == (e ? 1003 : 5), "%d", c);
    finish();
}
MC_SCENARIO("C10", await_nested_future, .hw = 2, .mode = 2, .mode_thorough = 3) {
    int c = await_code(async(default_executor, [] { return async(default_executor, [] { return 5; }); }));
    MC_CHECK(c == 5, "%d", c);
    finish();
}
// the old names
MC_SCENARIO("C10", blocking_get_, .hw = 2, .mode = 2, .mode_thorough = 3) {
    int h = mc_choose(3);
    auto p = make_pair<int>();
    std::thread t([p = std::move(p.first), h]() mutable { resolve<int>(std::move(p), h); });
    int c = run([&] { return blocking_get(std::move(p.second)); });
    MC_CHECK(c == expect(h), "blocking_get gave %d, expected %d", c, expect(h));
    t.join();
    finish();
}
MC_SCENARIO("C10", await_const, .hw = 2, .mode = 2, .mode_thorough = 3) {
    auto p = make_pair<val>();
    const future<val> f = std::move(p.second);
    std::thread t([p = std::move(p.first)]() mutable { p(val(5)); });
    MC_CHECK(await(f).v == 5, "");
    MC_CHECK(f.valid() && f.is_ready() && f.get_ready().v == 5, "the future awaited by copy lost its value");
    t.join();
    finish();
}
// ---- timed
template <class T, class W> void timed(int h, W&& wait) {
    auto p = make_pair<T>();
    std::thread t([p = std::move(p.first), h]() mutable { resolve<T>(std::move(p), h); });
    long long t0 = mc_now();
    future<T> r = wait(std::move(p.second), nanoseconds(1000));
    bool timed_out = mc_now() - t0 >= 1000;
    MC_CHECK(r.valid(), "the future returned by a timed wait is empty");
    bool ready = r.is_ready();
    MC_CHECK(ready || timed_out, "returned before the timeout without the outcome");
    t.join();
    mc_quiesce();
    MC_CHECK(r.is_ready(), "the future returned after a timeout is never resolved");
    int c = outcome_of(std::move(r), 5);
    MC_CHECK(c == expect(h), "timed wait: outcome %d, expected %d (%s)", c, expect(h), ready ? "in time" : "timed out");
    mc_outcome("%d %d", (int)ready, c);
    finish();
}
struct w_await { template <class T> auto operator()(future<T>&& f, nanoseconds n) const { return await_for(std::move(f), n); } };
struct w_bget { template <class T> auto operator()(future<T>&& f, nanoseconds n) const { return blocking_get_for(std::move(f), n); } };
struct w_const { template <class T> auto operator()(future<T>&& f, nanoseconds n) const { const future<T> g = std::move(f); return await_for(g, n); } };
MC_SCENARIO("C10,C33", await_for_int, .hw = 2, .mode = 2, .mode_thorough = 3) { timed<int>(mc_choose(3), w_await()); }
MC_SCENARIO("C10,C33", await_for_val, .hw = 2, .mode = 2, .mode_thorough = 4) { timed<val>(mc_choose(2), w_await()); }
MC_SCENARIO("C10,C33", await_for_mval, .hw = 2, .mode = 2, .mode_thorough = 3) { timed<mval>(mc_choose(2), w_await()); }
MC_SCENARIO("C10,C33", await_for_void, .hw = 2, .mode = 2, .mode_thorough = 3) { timed<void>(mc_choose(2), w_await()); }
MC_SCENARIO("C10", await_for_spurious, .hw = 2, .mode = 2, .spurious = 1) { timed<int>(mc_choose(2), w_await()); }
MC_SCENARIO("C10,C33", blocking_get_for_int, .hw = 2, .mode = 2, .mode_thorough = 3) { timed<int>(mc_choose(2), w_bget()); }
MC_SCENARIO("C10", await_for_const, .hw = 2, .mode = 2, .mode_thorough = 3) { timed<int>(mc_choose(2), w_const()); }
MC_SCENARIO("C10", blocking_get_timed, .hw = 2, .mode = 2, .mode_thorough = 3) {
    int h = mc_choose(3);
    auto p = make_pair<int>();
    std::thread t([p = std::move(p.first), h]() mutable { resolve<int>(std::move(p), h); });
    long long t0 = mc_now();
    int c = run([&] { auto o = blocking_get(std::move(p.second), nanoseconds(1000)); return o ? *o : -7; });
    MC_CHECK(c == expect(h) || (c == -7 && mc_now() - t0 >= 1000), "blocking_get(timeout) gave %d", c);
    mc_outcome("%d", c);
    t.join();
    finish();
}
// nobody resolves it: the wait is bounded, and the future can still be resolved later
MC_SCENARIO("C10", await_for_never, .hw = 2, .mode = 2, .mode_thorough = 4) {
    int h = mc_choose(3);
    auto p = make_pair<int>();
    auto r = await_for(std::move(p.second), nanoseconds(1000));
    MC_CHECK(r.valid() && !r.is_ready(), "");
    int again = mc_choose(2);
    if (again) { r = await_for(std::move(r), nanoseconds(500)); MC_CHECK(r.valid() && !r.is_ready(), ""); }
    auto g = std::move(r).recover(immediate_executor, [](future<int>&& x) { mc_count(1, 1); return outcome_of(std::move(x)); });
    resolve<int>(std::move(p.first), h);
    MC_CHECK(mc_get(1) == 1 && g.is_ready() && g.get_ready() == expect(h), "continuation after a timeout ran %ld times", mc_get(1));
    g.reset();
    finish();
}
MC_SCENARIO("C10", await_for_ready) {
    int h = mc_choose(3);
    auto p = make_pair<int>();
    resolve<int>(std::move(p.first), h);
    auto r = await_for(std::move(p.second), nanoseconds(0));
    MC_CHECK(r.is_ready() && outcome_of(std::move(r)) == expect(h), "");
    MC_CHECK(mc_threads_created() == 1, "");
    all_done();
}
// a pool task awaits with a timeout; time out and resolution may race
MC_SCENARIO("C10", await_for_in_pool, .hw = 2, .mode = 2, .mode_thorough = 3) {
    default_executor([]() noexcept {
        auto r = await_for(async(default_executor, [] { mc_count(2, 1); return 5; }), nanoseconds(1000));
        MC_CHECK(r.valid(), "");
        if (!r.is_ready()) r = future<int>(await_for(std::move(r), nanoseconds(1000000)));
        if (r.is_ready()) MC_CHECK(outcome_of(std::move(r)) == 5, "");
        else r.detach();
        mc_count(3, 1);
    });
    pre_exit();
    MC_CHECK(mc_get(3) == 1 && mc_get(2) == 1, "%ld %ld", mc_get(2), mc_get(3));
    all_done();
}

// exceptions of every kind, by every way of waiting, before and after the outcome is there
template <class T> void wait_kinds() {
    const std::exception_ptr e0 = any_exc(mc_choose(N_EXC));
    int how = mc_choose(5), late = mc_choose(2);
    auto p = stlab::package<T()>(inline_ex{}, [e0]() -> T { std::rethrow_exception(e0); });
    if (!late) p.first();
    std::thread t; if (late) t = std::thread([x = std::move(p.first)]() mutable { x(); });
    std::exception_ptr got; bool to = false;
    auto f = std::move(p.second);
    try {
        switch (how) {
        case 0: (void)stlab::await(std::move(f)); break;
        case 1: { auto r = stlab::await_for(std::move(f), std::chrono::hours(1)); if (!r.is_ready()) { to = true; r = stlab::await_for(std::move(r), std::chrono::hours(1)); } (void)std::move(r).get_try(); break; }
        case 2: { auto r = stlab::await_for(std::move(f), std::chrono::hours(1)); if (!r.is_ready()) to = true; (void)stlab::await(std::move(r)); break; }
        case 3: if constexpr (std::is_copy_constructible_v<future<T>>) { auto c = f; (void)stlab::await(std::move(c)); } else (void)stlab::await(std::move(f)); break;
        default: (void)stlab::await(std::move(f).recover(inline_ex{}, [](future<T> x) -> int { std::rethrow_exception(x.exception()); })); break;
        }
    } catch (...) { got = std::current_exception(); }
    MC_CHECK(got == e0 || to, "another exception arrived");
    if (late) t.join();
    finish();
}
MC_SCENARIO("C10", wait_kinds_int, .hw = 2, .mode = 1, .timeouts = 0) { wait_kinds<int>(); }
MC_SCENARIO("C10", wait_kinds_mval, .hw = 2, .mode = 1, .timeouts = 0) { wait_kinds<mval>(); }
MC_SCENARIO("C10", wait_kinds_void, .hw = 2, .mode = 1, .timeouts = 0) { wait_kinds<void>(); }
// ================================================================ coroutines
struct frame {  // counts live coroutine frames
    int k;
    explicit frame(int k = 60) : k(k) { mc_count(k, 1); mc_count(k + 1, 1); }
    frame(const frame&) = delete;
    ~frame() { mc_count(k, -1); }
};
template <class T> future<T> co_ret(int h) {
    frame f;
    if (h == ERROR) throw err{3};
    if constexpr (std::is_void_v<T>) co_return; else co_return mk<T>::make(5);
}
template <class T> void co_plain() {
    int h = mc_choose(2);
    auto f = co_ret<T>(h);
    MC_CHECK(f.is_ready(), "");
    int c = outcome_of(std::move(f), 5);
    MC_CHECK(c == expect(h), "%d", c);
    MC_CHECK(mc_get(60) == 0, "frame alive");
    all_done();
}
MC_SCENARIO("C11,C33", co_plain_int) { co_plain<int>(); }
MC_SCENARIO("C11,C33", co_plain_val) { co_plain<val>(); }
MC_SCENARIO("C11,C33", co_plain_mval) { co_plain<mval>(); }
MC_SCENARIO("C11,C33", co_plain_void) { co_plain<void>(); }
// conversion of the returned expression throws
struct convertible { int t; operator val() const { if (t) throw err{3}; return val(5); } };
static future<val> co_conv(int t) { frame f; co_return convertible{t}; }
MC_SCENARIO("C11", co_conversion) { int h = mc_choose(2); auto f = co_conv(h); MC_CHECK(f.is_ready() && outcome_of(std::move(f)) == expect(h), ""); MC_CHECK(mc_get(60) == 0, ""); all_done(); }

// awaits one future, adds one; errors pass
template <class T> future<int> co_wait(future<T> in) {
    frame f;
    int v = 5;
    if constexpr (std::is_void_v<T>) co_await std::move(in); else { T x = co_await std::move(in); v = mk<T>::get(x); }
    mc_count(50, 1);
    co_return v + 1;
}
template <class T> future<void> co_wait_void(future<T> in) {
    frame f;
    if constexpr (std::is_void_v<T>) co_await std::move(in); else { T x = co_await std::move(in); MC_CHECK(mk<T>::get(x) == 5, ""); }
    mc_count(50, 1);
}
template <class T> future<int> co_catch(future<T> in) {
    frame f;
    int r;
    try { if constexpr (std::is_void_v<T>) { co_await std::move(in); r = 5; } else r = mk<T>::get(co_await std::move(in)); }
    catch (const err& e) { r = 1000 + e.code; }
    catch (const future_error&) { r = BROKEN; }
    mc_count(50, 1);
    co_return r;
}
// exceptions of every kind: caught inside, passed on, or thrown by the coroutine itself
template <class T> future<int> co_kinds_in(future<T> in, std::exception_ptr* got, int how, std::exception_ptr mine) {
    frame f;
    if (how == 0) { (void)co_await std::move(in); }
    else if (how == 1) { try { (void)co_await std::move(in); } catch (...) { *got = std::current_exception(); } }
    else if (how == 2) { try { (void)co_await std::move(in); } catch (...) { *got = std::current_exception(); throw; } }
    else { try { (void)co_await std::move(in); } catch (...) { *got = std::current_exception(); std::rethrow_exception(mine); } }
    co_return 1;
}
template <class T> void co_kinds() {
    const std::exception_ptr e0 = any_exc(mc_choose(N_EXC)), e1 = any_exc(mc_choose(N_EXC));
    int how = mc_choose(4), late = mc_choose(2);
    auto p = stlab::package<T()>(inline_ex{}, [e0]() -> T { std::rethrow_exception(e0); });
    if (!late) p.first();
    std::exception_ptr got;
    auto f = co_kinds_in<T>(std::move(p.second), &got, how, e1);
    if (late) { MC_CHECK(!f.is_ready() && mc_get(60) == 1, "did not wait"); p.first(); }
    MC_CHECK(f.is_ready() && mc_get(60) == 0, "not done");
    MC_CHECK(got == (how ? e0 : nullptr), "another exception was caught");
    MC_CHECK(f.exception() == (how == 1 ? nullptr : how == 3 ? e1 : e0), "another exception came out");
    f.reset();
    all_done();
}
MC_SCENARIO("C11", co_kinds_int) { co_kinds<int>(); }
MC_SCENARIO("C11", co_kinds_mval) { co_kinds<mval>(); }
MC_SCENARIO("C11", co_kinds_void) { co_kinds<void>(); }
template <class T> void co_ready_now() {
    int h = mc_choose(3), k = mc_choose(2);
    auto p = make_pair<T>();
    resolve<T>(std::move(p.first), h);
    auto f = k ? co_catch<T>(std::move(p.second)) : co_wait<T>(std::move(p.second));
    MC_CHECK(f.is_ready(), "co_await of a ready future suspended for good");
    int c = outcome_of(std::move(f)), e = k ? expect(h) : h == VALUE ? 6 : expect(h);
    MC_CHECK(c == e, "%d, expected %d", c, e);
    MC_CHECK(mc_get(50) == (k || h == VALUE), "resumed %ld times", mc_get(50));
    MC_CHECK(mc_get(60) == 0, "frame alive");
    all_done();
}
MC_SCENARIO("C11", co_ready_int) { co_ready_now<int>(); }
MC_SCENARIO("C11", co_ready_mval) { co_ready_now<mval>(); }
MC_SCENARIO("C11", co_ready_void) { co_ready_now<void>(); }
// resolved by another thread at any moment, also while the coroutine suspends
template <class T> void co_race(int h, int k) {
    auto p = make_pair<T>();
    std::thread t([p = std::move(p.first), h]() mutable { resolve<T>(std::move(p), h); });
    auto f = k == 1 ? co_catch<T>(std::move(p.second)) : co_wait<T>(std::move(p.second));
    t.join();
    mc_quiesce();
    MC_CHECK(f.is_ready(), "the coroutine was not resumed");
    int c = outcome_of(std::move(f)), e = k ? expect(h) : h == VALUE ? 6 : expect(h);
    MC_CHECK(c == e, "%d, expected %d", c, e);
    MC_CHECK(mc_get(50) == (k || h == VALUE), "resumed %ld times", mc_get(50));
    MC_CHECK(mc_get(60) == 0, "frame alive");
    all_done();
}
MC_SCENARIO("C11,C33", co_race_int) { int h = mc_choose(3); co_race<int>(h, mc_choose(2)); }
MC_SCENARIO("C11,C33", co_race_val) { int h = mc_choose(3); co_race<val>(h, mc_choose(2)); }
MC_SCENARIO("C11,C33", co_race_mval) { int h = mc_choose(3); co_race<mval>(h, mc_choose(2)); }
MC_SCENARIO("C11,C33", co_race_void) { int h = mc_choose(3); co_race<void>(h, mc_choose(2)); }
MC_SCENARIO("C11,C33", co_race_void_void) {
    int h = mc_choose(3);
    auto p = make_pair<void>();
    std::thread t([p = std::move(p.first), h]() mutable { resolve<void>(std::move(p), h); });
    auto f = co_wait_void<void>(std::move(p.second));
    t.join(); mc_quiesce();
    MC_CHECK(f.is_ready() && outcome_of(std::move(f), 5) == expect(h), "");
    MC_CHECK(mc_get(50) == (h == VALUE) && mc_get(60) == 0, "");
    all_done();
}
// the coroutine's future is dropped while it waits: nothing is leaked, it still runs to its end
template <class T> void co_abandon(bool early) {
    int h = mc_choose(3);
    auto p = make_pair<T>();
    std::thread t([p = std::move(p.first), h]() mutable { resolve<T>(std::move(p), h); });
    { auto f = co_catch<T>(std::move(p.second)); if (!early) { t.join(); mc_quiesce(); } }
    if (early) t.join();
    mc_quiesce();
    MC_CHECK(mc_get(50) == 1, "resumed %ld times", mc_get(50));
    MC_CHECK(mc_get(60) == 0, "frame alive");
    all_done();
}
MC_SCENARIO("C11,C33", co_abandoned_early) { co_abandon<int>(true); }
MC_SCENARIO("C11,C33", co_abandoned_late) { co_abandon<val>(false); }
// the awaited future is kept elsewhere as well and has other continuations
MC_SCENARIO("C11,C33", co_shared) {
    auto p = make_pair<val>();
    auto other = p.second;
    std::thread t([p = std::move(p.first)]() mutable { p(val(5)); });
    auto f = co_wait<val>(std::move(p.second));
    auto g = other.then(inline_ex{}, [](const val& v) { return v.v; });
    t.join(); mc_quiesce();
    MC_CHECK(f.get_ready() == 6 && g.get_ready() == 5 && other.get_ready().v == 5, "");
    f.reset(); g.reset(); other.reset();
    MC_CHECK(mc_get(60) == 0, "");
    all_done();
}
// chain of coroutines and continuations
static future<int> co_chain(future<int> in) { frame f; int a = co_await co_wait<int>(std::move(in)); int b = co_await co_ret<int>(VALUE); co_return a + b; }
MC_SCENARIO("C11,C33", co_chained, .mode = 0) {
    int h = mc_choose(3);
    auto p = make_pair<int>();
    std::thread t([p = std::move(p.first), h]() mutable { resolve<int>(std::move(p), h); });
    auto f = co_chain(std::move(p.second)).recover(inline_ex{}, [](future<int>&& x) { mc_count(51, 1); return outcome_of(std::move(x)); });
    t.join(); mc_quiesce();
    MC_CHECK(f.is_ready() && f.get_ready() == (h == VALUE ? 11 : expect(h)), "%d", f.is_ready() ? f.get_ready() : -1);
    MC_CHECK(mc_get(51) == 1, "continuation ran %ld times", mc_get(51));
    MC_CHECK(mc_get(60) == 0, "");
    f.reset();
    all_done();
}
// two awaits in one coroutine, resolved by two threads in either order
static future<int> co_two(future<int> a, future<int> b) { frame f; int x = co_await std::move(a); mc_count(52, 1); int y = co_await std::move(b); mc_count(53, 1); co_return x * 10 + y; }
MC_SCENARIO("C11,C33", co_two_sources, .mode = 3, .mode_thorough = 0) {
    auto p = make_pair<int>(), q = make_pair<int>();
    std::thread t([p = std::move(p.first)]() mutable { p(5); });
    std::thread u([q = std::move(q.first)]() mutable { q(6); });
    auto f = co_two(std::move(p.second), std::move(q.second));
    t.join(); u.join(); mc_quiesce();
    MC_CHECK(f.is_ready() && f.get_ready() == 56, "");
    MC_CHECK(mc_get(52) == 1 && mc_get(53) == 1 && mc_get(60) == 0, "");
    f.reset();
    all_done();
}
// co_await in a loop over futures resolved by the pool
MC_SCENARIO("C11", co_pool, .hw = 2, .mode = 2, .mode_thorough = 3) {
    auto co = []() -> future<int> { frame f; int s = 0; for (int i = 0; i < 2; ++i) s += co_await async(default_executor, [i] { return i + 1; }); co_return s; };
    int r = await(co());
    MC_CHECK(r == 3, "%d", r);
    pre_exit();
    MC_CHECK(mc_get(60) == 0, "");
    all_done();
}
MC_SCENARIO("C11", co_pool_error, .hw = 2, .mode = 2, .mode_thorough = 3) {
    int r = await(co_catch<int>(async(default_executor, []() -> int { throw err{3}; })));
    MC_CHECK(r == 1003, "%d", r);
    pre_exit();
    MC_CHECK(mc_get(60) == 0, "");
    all_done();
}
