// PROPS: C22 C23 C33
// closing channels, errors inside them, and what they release
#include "chan.h"
using namespace stlab;

static void released() {
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
static void closed_after(const probe& p, int n) {
    MC_CHECK(p.closed == 1, "close was called %d times", p.closed);
    MC_CHECK(p.closed_at == n, "close came after %d of %d values", p.closed_at, n);
}
// values, then the close: from the sender's thread or by the last of two copies, racing with the steps
template <class E> void then_close(E ex, int n, int b1, int b2, int how) {
    probe a, b, p;
    {
        auto [s0, r] = channel<int>(ex);
        sender<int> s = std::move(s0);
        auto m = r | (buffer_size(b1) & relay(&a, 0));
        auto o = m | (buffer_size(b2) & summer{&b, 2});
        auto d = o | summer{&p, 1};
        d.set_ready(); o.set_ready(); m.set_ready();
        if (how != 4) r.set_ready();
        for (int i = 0; i < n; ++i) s(1 + i);
        if (how == 0) s.close();
        else if (how == 1) { std::thread t([s2 = s] {}); s = sender<int>(); t.join(); }
        else if (how == 2) { sender<int> s2 = s; s.close(); s.close(); s(99); std::thread([&] { sender<int> s3 = std::move(s2); }).join(); s2(98); }
        else if (how == 3) { auto [s2, r2] = channel<int>(ex); s = std::move(s2); s.close(); }   // assigned over
        else { s.close(); r.set_ready(); }
        mc_quiesce();
        expect_seq(a, n, 1); expect_seq(b, n, 1);
        MC_CHECK(p.n == (n + 1) / 2, "%d sums", p.n);
        for (int i = 0; i < p.n; ++i) { int e = 2 * i + 2 <= n ? 4 * i + 3 : n; MC_CHECK(p.got[i] == e, "sum %d is %d, expected %d", i, p.got[i], e); }
        closed_after(a, n); closed_after(b, n); closed_after(p, p.n);
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the close", mc_get(70));
    }
    released();
}
MC_SCENARIO("C23,C33", close_1, .mode = 2, .mode_thorough = 3) { then_close(thread_ex{}, 1, 1, 1, 0); }
MC_SCENARIO("C23", close_2_w, .mode = 2, .mode_thorough = 3) { workers w(2); then_close(w.get(), 2, 1, 1, 0); }
MC_SCENARIO("C23", close_3_w, .mode = 2, .mode_thorough = 3) { workers w(2); then_close(w.get(), 3, 2, 2, 0); }
MC_SCENARIO("C23", close_3_w0, .mode = 2, .mode_thorough = 3) { workers w(2); then_close(w.get(), 3, 0, 0, 0); }
MC_SCENARIO("C23,C33", close_empty, .mode = 3, .mode_thorough = 4) { workers w(1); then_close(w.get(), 0, 1, 1, 0); }
MC_SCENARIO("C23,C33", last_copy, .mode = 2, .mode_thorough = 3) { workers w(1); then_close(w.get(), 1, 1, 1, 1); }
MC_SCENARIO("C23,C33", last_copy_3, .mode = 1, .mode_thorough = 2) { then_close(thread_ex{}, 2, 1, 1, 1); }
MC_SCENARIO("C23,C33", closed_twice, .mode = 1, .mode_thorough = 2) { workers w(1); then_close(w.get(), 2, 1, 1, 2); }
MC_SCENARIO("C23,C33", assigned_over, .mode = 1, .mode_thorough = 2) { workers w(1); then_close(w.get(), 2, 1, 1, 3); }
MC_SCENARIO("C23,C33", closed_before_ready, .mode = 1, .mode_thorough = 2) { workers w(2); then_close(w.get(), 3, 1, 1, 4); }
MC_SCENARIO("C23", close_inline) { int n = mc_choose(6), b1 = mc_choose(3), b2 = mc_choose(3), how = mc_choose(5); then_close(inline_ex{}, n, b1, b2, how); }
// the steps in every order, with the close anywhere
static void close_bag(int n, int bs) {
    bag g; probe a, b, p;
    {
        auto [s, r] = channel<int>(g.e);
        auto o = r | (buffer_size(bs) & summer{&b, 2});
        auto d = o | summer{&p, 1};
        d.set_ready(); o.set_ready(); r.set_ready();
        g.drive(n + 1, [&, &s = s](int i) { if (i == n) s.close(); else s(1 + i); });
        expect_seq(b, n, 1); MC_CHECK(p.n == 2 && p.got[0] == 3 && p.got[1] == n * (n + 1) / 2 - 3, "%d sums", p.n);
        closed_after(b, n); closed_after(p, 2);
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the close", mc_get(70));
    }
    released();
}
MC_SCENARIO("C23", close_bag_b0, .mode = 1) { close_bag(3, 0); }
MC_SCENARIO("C23", close_bag_b1, .mode = 1) { close_bag(3, 1); }
MC_SCENARIO("C23", close_bag_b2, .mode = 1) { close_bag(4, 2); }
// what is owed at the close may be several values
struct counter { probe* p; token t{70}; int left = 0, total; counter(probe* p, int t) : p(p), total(t) {}
    void await(int x) { scoped s(*p, "await"); MC_CHECK(!left, "await while it yields"); p->put(x); }
    int yield() { scoped s(*p, "yield"); MC_CHECK(left > 0, "yield while it awaits"); return left--; }
    void close() { scoped s(*p, "close"); ++p->closed; p->closed_at = p->n; left = total; }
    process_state_scheduled state() const { return left ? yield_immediate : await_forever; } };
template <class E> void owes(E ex, int total, int bs) {
    probe a, p;
    {
        auto [s, r] = channel<int>(ex);
        auto m = r | counter(&a, total);
        auto d = m | (buffer_size(bs) & summer{&p, 1});
        d.set_ready(); m.set_ready(); r.set_ready();
        s(1); s.close();
        mc_quiesce();
        expect_seq(a, 1, 1); closed_after(a, 1);
        expect_seq(p, total, total, -1); closed_after(p, total);
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the close", mc_get(70));
    }
    released();
}
MC_SCENARIO("C23", owes_inline) { int t = mc_choose(5), bs = mc_choose(4); owes(inline_ex{}, t, bs); }
MC_SCENARIO("C23,C33", owes_3, .mode = 2, .mode_thorough = 3) { owes(thread_ex{}, 3, 1); }
MC_SCENARIO("C23", owes_3_b2, .mode = 2, .mode_thorough = 3) { workers w(2); owes(w.get(), 3, 2); }
MC_SCENARIO("C23", owes_3_b0, .mode = 2, .mode_thorough = 3) { workers w(2); owes(w.get(), 3, 0); }
// the close of one of several branches' common source
MC_SCENARIO("C23", close_split, .mode = 2, .mode_thorough = 3) {
    probe a, b, c; workers w(2);
    {
        auto [s, r] = channel<int>(w.get());
        auto m = r | relay(&c);
        auto d1 = m | summer{&a, 1};
        auto d2 = m | (buffer_size(2) & summer{&b, 1});
        d1.set_ready(); d2.set_ready(); m.set_ready(); r.set_ready();
        s(1); s(2); s.close();
        mc_quiesce();
        expect_seq(a, 2, 1); expect_seq(b, 2, 1); expect_seq(c, 2, 1);
        closed_after(a, 2); closed_after(b, 2); closed_after(c, 2);
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the close", mc_get(70));
    }
    released();
}
// two senders, closed on two threads: the channel closes once, after everything
template <class E> void two_close(E ex) {
    probe p;
    {
        auto [s0, r] = channel<int>(ex);
        auto d = r | summer{&p, 1};
        d.set_ready(); r.set_ready();
        sender<int> s = std::move(s0);
        std::thread t([s2 = s] { s2(2); });
        s(1); s.close();
        t.join();
        mc_quiesce();
        MC_CHECK(p.n == 2 && p.got[0] + p.got[1] == 3, "%d values", p.n);
        closed_after(p, 2);
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the close", mc_get(70));
    }
    released();
}
MC_SCENARIO("C23,C33", two_closers, .mode = 2, .budget = 10) { two_close(thread_ex{}); }
MC_SCENARIO("C23,C33", two_closers_w, .mode = 2, .mode_thorough = 3) { workers w(1); two_close(w.get()); }
MC_SCENARIO("C23,C33", two_closers_inline, .mode = 3, .mode_thorough = 0) { two_close(inline_ex{}); }
// dropping the receivers: the processes go away, in any state
template <class E> void drop(E ex, int n) {
    probe a, p;
    {
        auto [s, r0] = channel<int>(ex);
        std::optional<receiver<void>> d;
        {
            receiver<int> r = std::move(r0);
            auto m = r | relay(&a, 0);
            d = m | sink{&p};
            m.set_ready(); r.set_ready();
        }
        std::thread t([&] { d.reset(); });
        for (int i = 0; i < n; ++i) s(1 + i);
        t.join();
        mc_quiesce();
        expect_seq(a, a.n, 1); expect_seq(p, p.n, 1);
        MC_CHECK(a.n <= n && p.n <= a.n, "");
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the receiver was dropped", mc_get(70));
        s(9); s.close();
    }
    released();
}
MC_SCENARIO("C23,C33", dropped_1, .mode = 2, .mode_thorough = 3) { drop(thread_ex{}, 1); }
MC_SCENARIO("C23,C33", dropped_2_w, .mode = 2, .mode_thorough = 3) { workers w(2); drop(w.get(), 2); }
MC_SCENARIO("C23,C33", dropped_2_inline, .mode = 3, .mode_thorough = 0) { drop(inline_ex{}, 2); }
MC_SCENARIO("C23,C33", receiver_assigned_over, .mode = 1, .mode_thorough = 2) {
    probe p;
    {
        auto [s, r] = channel<int>(thread_ex{});
        receiver<int> r2 = r;
        auto d = r | sink{&p};
        s(1);
        r.set_ready();
        mc_quiesce();
        MC_CHECK(p.n == 0, "values flow before every receiver is ready");
        r2 = receiver<int>();   // the last one that was not ready is gone
        mc_quiesce();
        expect_seq(p, 1, 1);
        receiver<int> r3 = channel<int>(thread_ex{}).second;
        r3 = r;   // ready ones can be assigned
        MC_CHECK(r3 == r && r3.ready(), "");
        r3.swap(r2);
        MC_CHECK(r2 == r && r3 != r && !r3.ready(), "");
        s(2);
        mc_quiesce();
        expect_seq(p, 2, 1);
    }
    released();
}
// ---- errors
// throws for one value
struct thrower { probe* p; int bad; token t{70}; int operator()(int x) const { scoped s(*p, "function"); p->put(x); if (x == bad) throw err{x}; return x; } };
struct throwing_relay : relay { int bad_await, bad_yield; throwing_relay(probe* p, int a, int y) : relay(p), bad_await(a), bad_yield(y) {}
    void await(int x) { if (x == bad_await) { { scoped s(*p, "await"); p->put(x); } throw err{x}; } relay::await(x); }
    int yield() { int r = relay::yield(); if (r == bad_yield) throw err{r}; return r; } };
// yields some time after it asked for it, or when an await timed out, and throws then
struct timed_relay : throwing_relay { bool await_timeout; timed_relay(probe* p, bool at, int y) : throwing_relay(p, -1, y), await_timeout(at) {}
    int yield() { if (await_timeout) st = yield_immediate; return throwing_relay::yield(); }
    process_state_scheduled state() const {
        if (st.first != process_state::yield) return await_forever;
        return {await_timeout ? process_state::await : process_state::yield, std::chrono::nanoseconds(5)};
    } };
// gets everything, including errors
struct all { probe* p; token t{70}; void await(int x) { scoped s(*p, "await"); p->put(x); } int yield() { MC_CHECK(false, "yield"); return 0; } void set_error(std::exception_ptr e) { scoped s(*p, "set_error"); ++p->errors; p->put(err_code(e)); } void close() { scoped s(*p, "close"); ++p->closed; p->closed_at = p->n; } process_state_scheduled state() const { return await_forever; } };
// gets values, no set_error
struct plain { probe* p; token t{70}; void await(int x) { scoped s(*p, "await"); MC_CHECK(!p->closed, "a value after the close"); p->put(x); } int yield() { MC_CHECK(false, "yield"); return 0; } void close() { scoped s(*p, "close"); ++p->closed; p->closed_at = p->n; } process_state_scheduled state() const { return await_forever; } };
template <class E> void error_event(E ex, int kind, int bad, int n) {
    probe a, p;
    {
        auto [s, r] = channel<int>(ex);
        std::optional<receiver<int>> m;
        if (kind == 0) m = r | thrower{&a, bad}; else if (kind == 1) m = r | throwing_relay(&a, bad, -1); else if (kind >= 3) m = r | (buffer_size(0) & timed_relay(&a, kind == 4, bad)); else m = r | (buffer_size(2) & throwing_relay(&a, -1, bad));
        all q{&p};
        int ref = kind == 2;
        receiver<int> d;
        if (ref) d = *m | std::ref(q); else d = *m | all{&p};
        d.set_ready(); m->set_ready(); r.set_ready();
        for (int i = 0; i < n; ++i) { s(1 + i); if (kind >= 3) mc_quiesce(); }
        s.close();
        mc_quiesce();
        expect_seq(a, n, 1);
        MC_CHECK(p.n == n && p.errors == 1, "%d events, %d errors", p.n, p.errors);
        for (int i = 0; i < n; ++i) MC_CHECK(p.got[i] == (1 + i == bad ? 1001 + i : 1 + i), "event %d is %d", i, p.got[i]);
        closed_after(p, n);
        MC_CHECK(mc_get(70) == 1, "%ld process objects alive after the close", mc_get(70) - 1);
        d = receiver<int>();
    }
    released();
}
MC_SCENARIO("C23", error_inline) { int k = mc_choose(3), n = 1 + mc_choose(3), bad = 1 + mc_choose(n); error_event(inline_ex{}, k, bad, n); }
MC_SCENARIO("C23,C33", error_function, .mode = 2, .mode_thorough = 3) { error_event(thread_ex{}, 0, 1, 2); }
MC_SCENARIO("C23", error_await, .mode = 2, .mode_thorough = 3) { workers w(2); error_event(w.get(), 1, 2, 3); }
MC_SCENARIO("C23", error_yield, .mode = 2, .mode_thorough = 3) { workers w(2); error_event(w.get(), 2, 2, 3); }
MC_SCENARIO("C23", error_timed_inline, .mode = 2, .mode_thorough = 3) { int k = 3 + mc_choose(2), n = 1 + mc_choose(3), bad = 1 + mc_choose(n); error_event(inline_ex{}, k, bad, n); }
MC_SCENARIO("C23", error_timed_yield, .mode = 3, .mode_thorough = 4) { workers w(1); error_event(w.get(), 3, 1, 2); }
MC_SCENARIO("C23", error_await_timeout, .mode = 3, .mode_thorough = 4) { workers w(1); error_event(w.get(), 4, 1, 2); }
// exceptions of every kind, from every place a process can throw, alone, to two branches, or through a merge
struct keeper { std::exception_ptr* e; int* k; int* n; token t{70}; void await(int) { ++*n; } void set_error(std::exception_ptr x) { *e = x; ++*k; } int yield() { return 0; } process_state_scheduled state() const { return await_forever; } };
struct keeper2 : keeper { void await(int, int) { ++*n; } };
struct thrower_of { std::exception_ptr e; int how; int x = 0; bool has = false; token t{70};
    void await(int v) { x = v; has = true; if (x == 2 && how == 0) { has = false; std::rethrow_exception(e); } }
    int yield() { has = false; if (x == 2) std::rethrow_exception(e); return x; }
    process_state_scheduled state() const { return has ? yield_immediate : await_forever; } };
MC_SCENARIO("C23,C22", error_kinds) {
    const std::exception_ptr e0 = any_exc(mc_choose(N_EXC));
    int how = mc_choose(3), shape = mc_choose(5);
    std::exception_ptr got[2]; int k[2] = {}, n[2] = {};
    {
        inline_ex ex;
        auto [s, r] = channel<int>(ex);
        auto [s2, r2] = channel<int>(ex);
        receiver<int> m;
        if (how == 2) m = r | [e0](int x) { if (x == 2) std::rethrow_exception(e0); return x; };
        else m = r | thrower_of{e0, how};
        receiver<int> d, o;
        switch (shape) {
        case 0: d = m | keeper{&got[0], &k[0], &n[0]}; break;
        case 1: d = m | keeper{&got[0], &k[0], &n[0]}; o = m | keeper{&got[1], &k[1], &n[1]}; break;
        case 2: d = zip_with(ex, keeper2{{&got[0], &k[0], &n[0]}}, m, r2); break;
        case 3: d = merge_channel<round_robin_t>(ex, keeper{&got[0], &k[0], &n[0]}, m, r2); break;
        default: d = merge_channel<unordered_t>(ex, keeper{&got[0], &k[0], &n[0]}, m, r2); break;
        }
        d.set_ready(); o.set_ready(); m.set_ready(); r.set_ready(); r2.set_ready();
        for (int i = 1; i <= 3; ++i) { s(i); s2(i); }
        MC_CHECK(k[0] == 1 && got[0] == e0, "%d errors, the one that was thrown: %d", k[0], got[0] == e0);
        MC_CHECK(n[0] == (shape < 3 ? 2 : 5), "%d values", n[0]);
        if (shape == 1) MC_CHECK(k[1] == 1 && got[1] == e0 && n[1] == 2, "%d errors at the other branch, the one that was thrown: %d", k[1], got[1] == e0);
    }
    released();
}
// without set_error: the process is closed by the error, and what is downstream of it; upstream is not held up
template <class E> void error_closes(E ex, int kind, int bad, int n) {
    probe a, b, c, p;
    {
        auto [s, r] = channel<int>(ex);
        auto m = r | thrower{&a, bad};
        auto other = m | all{&c};
        std::optional<receiver<int>> o;
        if (kind == 0) o = m | adder{&b, 0}; else if (kind == 1) o = m | relay(&b); else o = m | plain{&b};
        if (kind == 1) { o = m | (buffer_size(2) & plain{&b}); }
        auto d = *o | plain{&p};
        d.set_ready(); other.set_ready(); o->set_ready(); m.set_ready(); r.set_ready();
        for (int i = 0; i < n; ++i) s(1 + i);
        mc_quiesce();
        expect_seq(a, n, 1);
        expect_seq(b, bad - 1, 1);
        if (kind) closed_after(b, bad - 1); else expect_seq(p, bad - 1, 1);
        closed_after(p, kind ? 0 : bad - 1);
        MC_CHECK(c.n == n && c.errors == 1, "the other branch got %d events", c.n);
        s.close();
        mc_quiesce();
        if (kind) MC_CHECK(b.closed == 1, "close was called %d times", b.closed);
        MC_CHECK(p.closed == 1, "close was called %d times", p.closed);
        closed_after(c, n);
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the close", mc_get(70));
    }
    released();
}
MC_SCENARIO("C23", error_closes_inline) { int k = mc_choose(3), n = 1 + mc_choose(4), bad = 1 + mc_choose(n); error_closes(inline_ex{}, k, bad, n); }
MC_SCENARIO("C23", error_closes_buffered, .mode = 2, .mode_thorough = 3) { workers w(2); error_closes(w.get(), 1, 1, 3); }
MC_SCENARIO("C23", error_closes_buffered_2, .mode = 2, .mode_thorough = 3) { workers w(2); error_closes(w.get(), 1, 2, 4); }
MC_SCENARIO("C23", error_closes_late, .mode = 1) { // everything is in the queue before the process starts
    queue_ex q; probe b, p; int n = 2 + mc_choose(3), bad = 1 + mc_choose(n), bs = mc_choose(3);
    {
        auto [s, r] = channel<int>(inline_ex{});
        probe a;
        auto m = r | (buffer_size(bs) & thrower{&a, bad});
        auto o = m | (executor{q} & buffer_size(bs ? 6 : 0) & plain{&b});
        auto d = o | (executor{inline_ex{}} & plain{&p});
        d.set_ready(); o.set_ready(); m.set_ready(); r.set_ready();
        for (int i = 0; i < n; ++i) s(1 + i);
        q.run_all();
        expect_seq(b, bad - 1, 1); closed_after(b, bad - 1); closed_after(p, 0);
    }
    released();
}
MC_SCENARIO("C23,C33", error_closes_function, .mode = 1, .mode_thorough = 2) { workers w(2); error_closes(w.get(), 0, 1, 3); }
MC_SCENARIO("C23,C33", error_closes_object, .mode = 1, .mode_thorough = 2) { workers w(2); error_closes(w.get(), 2, 2, 4); }
// broken: nothing attached, attached when running
MC_SCENARIO("C23", misuse) {
    int got = 0;
    try { receiver<int> r; (void)(r | [](int) {}); } catch (const channel_error& e) { got = int(e.code()); }
    MC_CHECK(got == int(channel_error_codes::broken_channel), "%d", got);
    got = 0;
    auto [s, r] = channel<int>(inline_ex{});
    r.set_ready(); r.set_ready();
    try { (void)(r | [](int) {}); } catch (const channel_error& e) { got = int(e.code()); }
    MC_CHECK(got == int(channel_error_codes::process_already_running), "%d", got);
    sender<int> e; e(1); e.close(); MC_CHECK(!e.free_buffer(), "");
}
