// PROPS: C01 C02 C03 C05 C09 C33
// continuations attached while their input is being resolved; stability and visibility of outcomes; several readers
#define WANT_FUTURE
#include "common.h"
using namespace stlab;

// ---- all the ways of attaching one continuation
// `got` receives the outcome the continuation saw (int code), `k` counts its runs
struct obs { int runs = 0; int got = -5; bool ready = false; };

template <class T> struct then_fn;
template <> struct then_fn<void> { obs* o; int* base; int operator()() const { ++o->runs; o->got = 0; o->ready = true; return 1; } };
template <class T> struct then_fn { obs* o; int* base; int operator()(T x) const { ++o->runs; o->got = mk<T>::get(x); o->ready = true; return o->got + 1; } };
template <class T> struct rec_fn {
    obs* o; int* base;
    int operator()(future<T> x) const { ++o->runs; o->ready = x.is_ready(); o->got = outcome_of(std::move(x)); return o->got + 1; }
};
constexpr int N_COPY = 10, N_MOVE = 11; // attach methods usable on an lvalue; on an rvalue
template <class T, class E> future<int> attach_copy(const future<T>& f, int how, E ex, obs* o) {
    then_fn<T> t{o, nullptr}; rec_fn<T> r{o, nullptr};
    switch (how) {
    case 0: return f.then(t);
    case 1: return f.then(ex, t);
    case 2: return f | t;
    case 3: return f | (executor{ex} & t);
    case 4: return f | (t & executor{ex});
    case 5: return f.recover(r);
    case 6: return f.recover(ex, r);
    case 7: return f ^ r;
    case 8: return f ^ (executor{ex} & r);
    default: return f.recover(executor_t{ex}, r);
    }
}
template <class T, class E> future<int> attach_move(future<T>&& f, int how, E ex, obs* o) {
    then_fn<T> t{o, nullptr}; rec_fn<T> r{o, nullptr};
    switch (how) {
    case 0: return std::move(f).then(t);
    case 1: return std::move(f).then(ex, t);
    case 2: return std::move(f) | t;
    case 3: return std::move(f) | (executor{ex} & t);
    case 4: return std::move(f) | (t & executor{ex});
    case 5: return std::move(f).recover(r);
    case 6: return std::move(f).recover(ex, r);
    case 7: return std::move(f) ^ r;
    case 8: return std::move(f) ^ (executor{ex} & r);
    case 9: return std::move(f).recover(executor_t{ex}, r);
    default: std::move(f).detach([o](future<T>&& x) { ++o->runs; o->ready = x.is_ready(); o->got = outcome_of(std::move(x)); }); return future<int>{};
    }
}
inline bool is_then(int how) { return how <= 4; }
inline bool uses_default(int how) { return how == 0 || how == 2 || how == 5 || how == 7; }

// how the input is resolved: 0 value, 1 exception, 2 dropped
template <class T, class P> void resolve(P&& p, int kind) {
    if (kind == 0 || kind == 1) p(); else { auto q = std::move(p); (void)q; }
}
template <class T> int expected(int kind) { return kind == 0 ? (std::is_void_v<T> ? 0 : 7) : kind == 1 ? 1003 : BROKEN; }
template <class T> auto body(int kind) { return [kind]() -> T { if (kind == 1) throw err{3}; return mk<T>::make(7); }; }

static void check_cont(const obs& o, int how, bool detach, int exp, future<int>& r, bool is_void) {
    if (!detach && is_then(how) && (exp >= 1000 || exp < 0)) {
        MC_CHECK(o.runs == 0, "then-continuation ran on a failed input");
        MC_CHECK(r.is_ready() && outcome_of(r) == exp, "result %d, expected the input's error %d", r.is_ready() ? outcome_of(r) : -7, exp);
    } else {
        MC_CHECK(o.runs == 1, "continuation ran %d times", o.runs);
        MC_CHECK(o.ready, "continuation ran before its input was ready");
        MC_CHECK(o.got == exp, "continuation saw %d, expected %d", o.got, exp);
        if (!detach) MC_CHECK(r.is_ready() && outcome_of(r) == (is_void && is_then(how) ? 1 : exp + 1), "wrong result");
    }
}
// one attacher against one resolver, every way of attaching and of resolving
template <class T, bool Move> void attach_race() {
    int how = mc_choose(Move ? N_MOVE : N_COPY), kind = mc_choose(3);
    obs o;
    auto [p, f] = package<T()>(inline_ex{810}, body<T>(kind));
    std::thread a([&, p = std::move(p)]() mutable { resolve<T>(std::move(p), kind); });
    future<int> r;
    if constexpr (Move) r = attach_move(std::move(f), how, inline_ex{811}, &o);
    else r = attach_copy(f, how, inline_ex{811}, &o);
    a.join();
    bool det = Move && how == 10;
    check_cont(o, how, det, expected<T>(kind), r, std::is_void_v<T>);
    long d = mc_get(810), e = mc_get(811);
    MC_CHECK(det ? d + e == 0 : uses_default(how) ? (d == 1 && e == 0) : (d == 0 && e == 1), "handed to its executor %ld/%ld times", d, e);
}
MC_SCENARIO("C01,C03,C05,C33", attach_race_val) { attach_race<val, false>(); }
MC_SCENARIO("C01,C03,C05", attach_race_void) { attach_race<void, false>(); }
MC_SCENARIO("C01,C05", attach_race_move_val) { attach_race<val, true>(); }
MC_SCENARIO("C01,C05", attach_race_move_void) { attach_race<void, true>(); }
MC_SCENARIO("C01,C03,C05,C33", attach_race_moveonly) { attach_race<mval, true>(); }

// the same, continuations running on threads of their own
template <class T, bool Move> void attach_race_threads() {
    int how = Move ? (int[]){1, 6, 10}[mc_choose(3)] : (int[]){1, 6}[mc_choose(2)], kind = mc_choose(2);
    obs o;
    auto [p, f] = package<T()>(thread_ex{}, body<T>(kind));
    std::thread a([&, p = std::move(p)]() mutable { resolve<T>(std::move(p), kind); });
    future<int> r;
    if constexpr (Move) r = attach_move(std::move(f), how, thread_ex{}, &o); else r = attach_copy(f, how, thread_ex{}, &o);
    a.join();
    all_done();
    check_cont(o, how, Move && how == 10, expected<T>(kind), r, std::is_void_v<T>);
}
MC_SCENARIO("C01,C33", attach_threads_val) { attach_race_threads<val, false>(); }
MC_SCENARIO("C01", attach_threads_void) { attach_race_threads<void, true>(); }
MC_SCENARIO("C01,C33", attach_threads_moveonly) { attach_race_threads<mval, true>(); }

// two attachers on copies, one resolver
template <class T> void two_attach() {
    static const int H[] = {0, 6, 100};
    int h1 = H[mc_choose(3)], h2 = H[mc_choose(3)], kind = mc_choose(2);
    obs o1, o2;
    auto [p, f] = package<T()>(inline_ex{810}, body<T>(kind));
    future<int> r1, r2;
    auto at = [](future<T> f, int h, obs* o) { return h == 100 ? attach_move(std::move(f), 10, inline_ex{}, o) : attach_copy(f, h, inline_ex{811}, o); };
    std::thread a([&, p = std::move(p)]() mutable { resolve<T>(std::move(p), kind); });
    std::thread b([&, g = f]() mutable { r1 = at(std::move(g), h1, &o1); });
    r2 = at(std::move(f), h2, &o2);
    a.join(); b.join();
    check_cont(o1, h1, h1 == 100, expected<T>(kind), r1, std::is_void_v<T>);
    check_cont(o2, h2, h2 == 100, expected<T>(kind), r2, std::is_void_v<T>);
}
MC_SCENARIO("C01,C09,C33", two_attachers_val) { two_attach<val>(); }
MC_SCENARIO("C01,C33", two_attachers_void) { two_attach<void>(); }

// several continuations pending when the input resolves, attached in program order by one thread: each runs once
template <class T> void many_attach() {
    int n = 1 + mc_choose(4), before = mc_choose(5), kind = mc_choose(3);
    if (before > n) before = n;
    obs o[4]; future<int> r[4]; int how[4];
    auto [p, f] = package<T()>(inline_ex{810}, body<T>(kind));
    for (int i = 0; i < n; ++i) how[i] = (int[]){0, 1, 5, 6}[(i * 3 + n + kind) % 4];
    for (int i = 0; i < before; ++i) r[i] = attach_copy(f, how[i], inline_ex{811}, &o[i]);
    resolve<T>(std::move(p), kind);
    for (int i = before; i < n; ++i) r[i] = attach_copy(f, how[i], inline_ex{811}, &o[i]);
    for (int i = 0; i < n; ++i) check_cont(o[i], how[i], false, expected<T>(kind), r[i], std::is_void_v<T>);
    // the value is still there for later readers
    MC_CHECK(outcome_of(f) == expected<T>(kind), "value lost");
}
MC_SCENARIO("C01,C09,C05", many_attach_val) { many_attach<val>(); }
MC_SCENARIO("C01,C05", many_attach_void) { many_attach<void>(); }

// a continuation that attaches another one to the same (now ready) future, and one that drops its own result
template <class T> void reentrant() {
    int h = mc_choose(2), late = mc_choose(2);
    obs in; future<int> inner; int outer_runs = 0;
    auto [p, f] = package<T()>(inline_ex{810}, body<T>(0));
    auto* pf = &f;
    auto add = [&] { return f.recover(inline_ex{811}, [&, pf](future<T>) { ++outer_runs; inner = attach_copy(*pf, h ? 6 : 1, inline_ex{811}, &in); }); };
    future<void> r;
    std::thread a([&, p = std::move(p)]() mutable { if (!late) p(); });
    if (late) { a.join(); auto [p2, f2] = package<T()>(inline_ex{}, body<T>(0)); f = f2; p2(); r = add(); }
    else { r = add(); a.join(); }
    MC_CHECK(outer_runs == 1 && in.runs == 1 && in.ready, "outer %d inner %d", outer_runs, in.runs);
    MC_CHECK(in.got == expected<T>(0), "inner continuation saw %d", in.got);
}
MC_SCENARIO("C01", reentrant_val) { reentrant<val>(); }
MC_SCENARIO("C01", reentrant_void) { reentrant<void>(); }

// chain of three steps whose input resolves while the chain is being built
template <class T> void chain_race() {
    int kind = mc_choose(2); bool thr = mc_choose(2);
    obs o1; int n2 = 0, n3 = 0;
    auto [p, f] = package<T()>(inline_ex{810}, body<T>(kind));
    std::thread a([&, p = std::move(p)]() mutable { p(); });
    executor_t ex = thr ? executor_t{thread_ex{}} : executor_t{inline_ex{}};
    auto r = attach_move(std::move(f), 6, ex, &o1).then(ex, [&](int x) { ++n2; return x + 10; }).then(ex, [&](int x) { ++n3; return x + 100; });
    a.join(); all_done();
    MC_CHECK(o1.runs == 1 && n2 == 1 && n3 == 1, "runs %d %d %d", o1.runs, n2, n3);
    MC_CHECK(outcome_of(r) == expected<T>(kind) + 111, "got %d", outcome_of(r));
}
MC_SCENARIO("C01,C05", chain_race_val) { chain_race<val>(); }
MC_SCENARIO("C01,C05", chain_race_moveonly) { chain_race<mval>(); }

// async: resolver is a thread executor
template <class T> void async_then() {
    int kind = mc_choose(2);
    obs o;
    auto f = async(thread_ex{802}, [kind](int x) -> T { if (kind) throw err{3}; return mk<T>::make(x); }, 7);
    auto r = attach_move(std::move(f), 1 + 5 * mc_choose(2), inline_ex{811}, &o);
    all_done();
    MC_CHECK(mc_get(802) == 1, "async submitted %ld times", mc_get(802));
    MC_CHECK(r.is_ready(), "not ready");
    int exp = expected<T>(kind);
    if (o.runs) MC_CHECK(o.runs == 1 && o.got == exp, "got %d", o.got);
    else MC_CHECK(kind == 1 && outcome_of(r) == 1003, "error lost");
}
MC_SCENARIO("C01,C05,C12", async_val) { async_then<val>(); }
MC_SCENARIO("C01,C05", async_void) { async_then<void>(); }
MC_SCENARIO("C01,C05", async_moveonly) { async_then<mval>(); }

// ---------------------------------------------------------------- C02
// a resolver and an observer: every sequence of three queries, each result compared with the earlier ones
template <class T> void query_race(bool copies) {
    int kind = mc_choose(3), q[3];
    for (int& x : q) x = mc_choose(4);
    auto [p, f] = package<T()>(inline_ex{810}, body<T>(kind));
    int exp = expected<T>(kind);
    std::thread a([&, p = std::move(p)]() mutable { resolve<T>(std::move(p), kind); });
    bool seen = false; std::exception_ptr ex;
    auto got = [&](int v) { MC_CHECK(v == exp, "query reports %d, expected %d", v, exp); seen = true; };
    for (int i = 0; i < 3; ++i) {
        future<T> g = copies && i ? f : future<T>{};
        future<T>& h = copies && i ? g : f;
        switch (q[i]) {
        case 0: if (h.is_ready()) { seen = true; } else MC_CHECK(!seen, "no longer ready"); break;
        case 1:
            try {
                auto t = h.get_try();
                if constexpr (std::is_void_v<T>) { if (t) got(0); else MC_CHECK(!seen, "ready future has no outcome"); }
                else { if (t) got(mk<T>::get(*t)); else MC_CHECK(!seen, "ready future has no outcome"); }
            } catch (...) { got(err_code(std::current_exception())); }
            break;
        case 2: if (h.is_ready()) { auto e = h.exception(); seen = true; MC_CHECK(bool(e) == (kind != 0), "exception() reports %d", bool(e));
                if (e) { MC_CHECK(!ex || ex == e, "different error object"); ex = e; got(err_code(e)); } } break;
        case 3: if (h.is_ready()) { try { if constexpr (std::is_void_v<T>) { h.get_ready(); got(0); } else got(mk<T>::get(h.get_ready())); } catch (...) { got(err_code(std::current_exception())); } } break;
        }
    }
    a.join();
    MC_CHECK(f.is_ready() && outcome_of(f) == exp, "final outcome");
    mc_outcome("k%d seen%d", kind, seen);
}
MC_SCENARIO("C02,C33", query_race_val) { query_race<val>(false); }
MC_SCENARIO("C02", query_race_copies_val) { query_race<val>(true); }
MC_SCENARIO("C02", query_race_void) { query_race<void>(false); }
// move-only: queries that do not take the value, then one that does
MC_SCENARIO("C02,C33", query_race_moveonly) {
    int kind = mc_choose(3), q = mc_choose(3);
    auto [p, f] = package<mval()>(inline_ex{810}, body<mval>(kind));
    int exp = expected<mval>(kind);
    std::thread a([&, p = std::move(p)]() mutable { resolve<mval>(std::move(p), kind); });
    bool seen = f.is_ready();
    if (q == 0 && f.is_ready()) { auto e = f.exception(); MC_CHECK(bool(e) == (kind != 0), "exception"); seen = true; }
    if (q == 1 && f.is_ready()) { MC_CHECK(outcome_of(std::move(f)) == exp, "value"); seen = true; }
    if (q == 2) {
        try { auto t = std::move(f).get_try(); if (t) { MC_CHECK(t->v == exp, "value %d", t->v); seen = true; } else MC_CHECK(!seen, "no outcome"); }
        catch (...) { MC_CHECK(err_code(std::current_exception()) == exp, "error"); }
    }
    a.join();
    MC_CHECK(f.is_ready() || q, "ready at the end");
}
// two observers on two threads hand over through each other: one sees ready, tells the other
template <class T> void two_observers() {
    int kind = mc_choose(2);
    auto [p, f] = package<T()>(inline_ex{810}, body<T>(kind));
    std::atomic<bool> told{false}; int exp = expected<T>(kind);
    std::thread a([p = std::move(p)]() mutable { p(); });
    std::thread b([&, g = f] { if (g.is_ready()) { MC_CHECK(outcome_of(g) == exp, "b"); told = true; } });
    if (told) { MC_CHECK(f.is_ready(), "ready went back"); MC_CHECK(outcome_of(f) == exp, "a"); }
    a.join(); b.join();
    MC_CHECK(f.is_ready() && outcome_of(f) == exp, "final");
}
MC_SCENARIO("C02", two_observers_val) { two_observers<val>(); }
MC_SCENARIO("C02", two_observers_void) { two_observers<void>(); }
// non-continuation queries never disturb a continuation
MC_SCENARIO("C02,C09", rvalue_get_try_with_reader) {
    int kind = mc_choose(2);
    obs o;
    auto [p, f] = package<val()>(inline_ex{810}, body<val>(kind));
    auto r = attach_copy(f, mc_choose(2) ? 6 : 1, inline_ex{811}, &o);
    std::thread a([p = std::move(p)]() mutable { p(); });
    int seen = -5;
    try { auto t = std::move(f).get_try(); if (t) seen = t->v; } catch (...) { seen = err_code(std::current_exception()); }
    a.join();
    MC_CHECK(seen == -5 || seen == expected<val>(kind), "query saw %d", seen);
    MC_CHECK(outcome_of(r) == expected<val>(kind) + (o.runs ? 1 : 0), "continuation result %d", outcome_of(r));
    if (o.runs) MC_CHECK(o.got == expected<val>(kind), "continuation saw %d", o.got);
}
// ---------------------------------------------------------------- C09
// n readers of one future, each by some means, on threads: every one gets the intact value
template <int N> void readers() {
    int how[N];
    for (int& h : how) h = mc_choose(4);
    auto [p, f] = package<val()>(inline_ex{810}, body<val>(0));
    int got[N]; std::fill(got, got + N, -5);
    future<void> hold[N]; std::thread t[N];
    auto read = [](future<val> g, int how, int* out) -> future<void> {
        switch (how) {
        case 0: return std::move(g).then(thread_ex{}, [out](val x) { *out = x.v; });
        case 1: return std::move(g).recover(thread_ex{}, [out](future<val> x) { *out = std::move(x).get_try()->v; });
        case 2: return std::move(g).then(thread_ex{}, [out](const val& x) { *out = x.v; });
        default: return g.then(inline_ex{}, [out](val&& x) { val y = std::move(x); *out = y.v; });
        }
    };
    for (int i = 0; i < N; ++i) hold[i] = read(f, how[i], &got[i]);
    f.reset();
    p();
    all_done();
    for (int i = 0; i < N; ++i) MC_CHECK(got[i] == 7, "reader %d (%d) saw %d", i, how[i], got[i]);
}
MC_SCENARIO("C09,C33", readers2) { readers<2>(); }
MC_SCENARIO("C09", readers3, .budget = 20) { readers<3>(); }
// a reader attached while another is consuming its copy after the future is ready
MC_SCENARIO("C09,C33", late_reader) {
    int h1 = mc_choose(4), h2 = mc_choose(4);
    auto f = make_ready_future(val{7}, inline_ex{});
    int g1 = -5, g2 = -5;
    auto read = [](future<val> g, int how, int* out) {
        switch (how) {
        case 0: { auto t = std::move(g).get_try(); *out = t->v; break; }
        case 1: *out = std::move(g).get_ready().v; break;
        case 2: { auto r = std::move(g).then(inline_ex{}, [out](val x) { *out = x.v; }); break; }
        case 3: { auto r = std::move(g).recover(inline_ex{}, [out](future<val> x) { *out = std::move(x).get_ready().v; }); break; }
        }
    };
    std::thread a([&, g = f]() mutable { read(std::move(g), h1, &g1); });
    read(std::move(f), h2, &g2);
    a.join();
    MC_CHECK(g1 == 7 && g2 == 7, "readers saw %d %d", g1, g2);
}
// move-only value goes to its sole consumer
MC_SCENARIO("C09", moveonly_sole) {
    int how = mc_choose(4);
    auto [p, f] = package<mval()>(inline_ex{810}, body<mval>(0));
    int got = -5; future<void> r;
    std::thread a([p = std::move(p)]() mutable { p(); });
    switch (how) {
    case 0: r = std::move(f).then(inline_ex{}, [&](mval x) { got = x.v; }); break;
    case 1: r = std::move(f).recover(inline_ex{}, [&](future<mval> x) { got = std::move(x).get_ready().v; }); break;
    case 2: r = std::move(f).recover(inline_ex{}, [&](future<mval> x) { got = std::move(x).get_try()->v; }); break;
    case 3: r = std::move(f).then(inline_ex{}, [](mval x) { return x; }).then([&](mval x) { got = x.v; }); break;
    }
    a.join();
    MC_CHECK(got == 7, "got %d", got);
}
