// PROPS: C21 C33
// several processes attached to one receiver
#include "chan.h"
using namespace stlab;

static void released() {
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
    MC_CHECK(mc_get(900) == 0, "%ld values alive", mc_get(900));
}
// spoils the value it is given: the others must not notice
struct spoiler { probe* p; token t{70}; void operator()(val x) const { scoped s(*p, "sink"); p->put(x.v); x.v = -77; } };
template <int B, class E> void fan(E ex, int n, std::array<int, 3> bs) {
    probe a, b[3];
    {
        auto [s, r] = channel<val>(ex);
        std::vector<receiver<void>> d;
        auto m = r | [t = token(70), p = &a](val x) { scoped s(*p, "function"); p->put(x.v); return val(x.v + 10); };
        for (int i = 0; i < B; ++i) d.push_back(m | (buffer_size(bs[i]) & spoiler{&b[i]}));
        m.set_ready(); r.set_ready();
        for (int i = 0; i < n; ++i) s(val(1 + i));
        mc_quiesce();
        expect_seq(a, n, 1);
        for (int i = 0; i < B; ++i) expect_seq(b[i], n, 11);
    }
    released();
}
MC_SCENARIO("C21,C33", split2_2, .mode = 2, .mode_thorough = 3) { fan<2>(thread_ex{}, 2, {1, 1, 1}); }
MC_SCENARIO("C21,C33", split2_3_b12, .mode = 1, .mode_thorough = 2) { fan<2>(thread_ex{}, 3, {1, 2, 1}); }
MC_SCENARIO("C21", split2_3_b20, .mode = 1, .mode_thorough = 2) { fan<2>(thread_ex{}, 3, {2, 0, 1}); }
MC_SCENARIO("C21", split2_3_w, .mode = 2, .mode_thorough = 3) { workers w(2); fan<2>(w.get(), 3, {2, 1, 1}); }
MC_SCENARIO("C21,C33", split3_2, .mode = 1, .mode_thorough = 2) { fan<3>(thread_ex{}, 2, {1, 1, 2}); }
MC_SCENARIO("C21", split3_3_w, .mode = 1, .mode_thorough = 2) { workers w(3); fan<3>(w.get(), 3, {2, 1, 0}); }
MC_SCENARIO("C21,C33", split_inline) { int x = mc_choose(3), y = mc_choose(3), z = mc_choose(3); fan<3>(inline_ex{}, 4, {x, y, z}); }
// every order of the steps; the branches attached directly to the head
MC_SCENARIO("C21", split_bag, .mode = 1) {
    bag g; probe a, b, c; int x = mc_choose(3), y = mc_choose(3);
    {
        auto [s, r] = channel<int>(g.e);
        auto d1 = r | (buffer_size(x) & adder{&a, 10});
        auto d2 = r | (buffer_size(y) & sink{&b});
        auto d3 = d1 | sink{&c};
        d1.set_ready(); r.set_ready();
        g.drive(2, [&, &s = s](int i) { s(1 + i); });
        expect_seq(a, 2, 1); expect_seq(b, 2, 1); expect_seq(c, 2, 11);
    }
    released();
}
// a branch is dropped while values pass: it sees a prefix, the other branch sees everything
template <class E> void dropped(E ex, int n, int b1, int b2) {
    probe a, b;
    {
        auto [s, r] = channel<int>(ex);
        auto m = r | adder{&a, 0};
        probe k;
        auto d1 = m | (buffer_size(b1) & sink{&k});
        std::optional<receiver<void>> d2 = m | (buffer_size(b2) & sink{&b});
        m.set_ready(); r.set_ready();
        std::thread t([&] { d2.reset(); });
        for (int i = 0; i < n; ++i) s(1 + i);
        t.join();
        mc_quiesce();
        expect_seq(k, n, 1);
        expect_seq(b, b.n, 1);
        MC_CHECK(b.n <= n, "");
        MC_CHECK(mc_get(70) == 2, "%ld process objects, the dropped one is alive", mc_get(70));
        s(1 + n);
        mc_quiesce();
        expect_seq(k, n + 1, 1);
    }
    released();
}
MC_SCENARIO("C21,C33", dropped_2, .mode = 2, .budget = 10) { dropped(thread_ex{}, 2, 1, 1); }
MC_SCENARIO("C21,C33", dropped_3_w, .mode = 2, .budget = 10) { workers w(2); dropped(w.get(), 3, 1, 2); }
MC_SCENARIO("C21", dropped_3_w0, .mode = 2, .budget = 10) { workers w(2); dropped(w.get(), 3, 2, 1); }
MC_SCENARIO("C21,C33", dropped_inline, .mode = 3, .mode_thorough = 0) { dropped(inline_ex{}, 2, 1, 1); }
// dropped at any point between the steps, in particular when its buffer is full
MC_SCENARIO("C21", dropped_bag, .mode = 1) {
    bag g; probe a, b; int n = 3;
    int x = mc_choose(2), y = 1 + mc_choose(2);
    {
        auto [s, r] = channel<int>(g.e);
        auto d1 = r | (buffer_size(x) & sink{&a});
        std::optional<receiver<void>> d2 = r | (buffer_size(y) & sink{&b});
        r.set_ready();
        g.drive(n + 1, [&, &s = s](int i) { if (i == 2) d2.reset(); else s(1 + i - (i > 2)); });
        expect_seq(a, n, 1); expect_seq(b, b.n, 1);
        MC_CHECK(b.n <= 3, "%d values at the dropped branch", b.n);
    }
    released();
}
// the branch that is dropped never runs (its executor does not): it must not hold the others up for ever
MC_SCENARIO("C21", dropped_stuck) {
    probe a, b; queue_ex q; int y = 1 + mc_choose(2), third = mc_choose(2);
    {
        auto [s, r] = channel<int>(inline_ex{});
        auto d1 = r | sink{&a};
        std::optional<receiver<void>> d2 = r | (buffer_size(y) & executor{q} & sink{&b}), d3;
        if (third) d3 = r | (executor{q} & sink{&b});
        r.set_ready();
        for (int i = 0; i < 4; ++i) s(1 + i);
        expect_seq(a, third ? 1 : y, 1);
        d2.reset();
        expect_seq(a, third ? 1 : 4, 1);
        d3.reset();
        expect_seq(a, 4, 1);
        MC_CHECK(mc_get(70) == 1, "%ld process objects, the dropped one is alive", mc_get(70));
        q.run_all();
        MC_CHECK(b.n == 0, "a dropped branch ran");
        s(5);
        expect_seq(a, 5, 1);
    }
    q.run_all();
    released();
}
// dropping the receiver of a branch that continues takes the whole branch away
MC_SCENARIO("C21,C33", dropped_subtree, .mode = 2, .mode_thorough = 3) {
    probe a, b, c;
    {
        auto [s, r] = channel<int>(thread_ex{});
        auto d1 = r | sink{&a};
        std::optional<receiver<int>> m = r | relay(&b);
        std::optional<receiver<void>> d2 = *m | sink{&c};
        m->set_ready(); r.set_ready(); m.reset();
        s(1);
        d2.reset();
        s(2);
        mc_quiesce();
        expect_seq(a, 2, 1); expect_seq(b, b.n, 1); expect_seq(c, c.n, 1);
        MC_CHECK(mc_get(70) == 1, "%ld process objects", mc_get(70));
    }
    released();
}
// move-only values go to one branch, the one attached last
template <class E> void moveonly(E ex, int n) {
    probe a, b;
    {
        auto [s, r] = channel<mval>(ex);
        auto m = r | [t = token(70)](mval x) { return mval(x.v + 10); };
        std::optional<receiver<void>> d1 = m | sink{&a};
        auto d2 = m | sink{&b};
        int drop = mc_choose(2);
        if (drop) d1.reset();
        m.set_ready(); r.set_ready();
        for (int i = 0; i < n; ++i) s(mval(1 + i));
        mc_quiesce();
        expect_seq(a, 0, 1); expect_seq(b, n, 11);
    }
    released();
}
MC_SCENARIO("C21,C33", moveonly_branch, .mode = 2, .mode_thorough = 3) { moveonly(thread_ex{}, 2); }
MC_SCENARIO("C21,C33", moveonly_inline) { moveonly(inline_ex{}, 4); }
// a move-only pipeline whose end is dropped does not hold its start up (nor lose memory)
MC_SCENARIO("C21,C33", moveonly_dropped, .mode = 2) {
    probe a, b;
    {
        auto [s, r] = channel<mval>(thread_ex{});
        auto m = r | [p = &a, t = token(70)](mval x) { scoped s(*p, "function"); p->put(x.v); return x; };
        { auto d = m | sink{&b}; }
        m.set_ready(); r.set_ready();
        s(mval(1)); s(mval(2));
        mc_quiesce();
        expect_seq(a, 2, 1);
    }
    released();
}
// a branch attached through a copy of the receiver
MC_SCENARIO("C21,C33", attached_to_copy, .mode = 1, .mode_thorough = 2) {
    probe a, b;
    {
        auto [s, r] = channel<int>(thread_ex{});
        receiver<int> r2 = r;
        auto d1 = r | sink{&a};
        auto d2 = r2 | sink{&b};
        s(1);
        r2.set_ready();
        mc_quiesce();
        MC_CHECK(a.n == 0 && b.n == 0, "values flow before every receiver is ready");
        r.set_ready(); s(2);
        mc_quiesce();
        expect_seq(a, 2, 1); expect_seq(b, 2, 1);
    }
    released();
}
// errors reach every branch as well
struct catcher { probe* p; token t{70}; void await(int x) { scoped s(*p, "await"); p->put(x); } int yield() { MC_CHECK(false, "yield"); return 0; } void set_error(std::exception_ptr e) { scoped s(*p, "set_error"); ++p->errors; p->put(err_code(e)); } process_state_scheduled state() const { return await_forever; } };
MC_SCENARIO("C21", errors_to_all, .mode = 1, .mode_thorough = 2) {
    probe a, b;
    {
        auto [s, r] = channel<int>(thread_ex{});
        auto m = r | [t = token(70)](int x) { if (x == 2) throw err{4}; return x; };
        auto d1 = m | catcher{&a};
        auto d2 = m | catcher{&b};
        d1.set_ready(); d2.set_ready(); m.set_ready(); r.set_ready();
        s(1); s(2); s(3);
        mc_quiesce();
        for (probe* p : {&a, &b}) { MC_CHECK(p->n == 3 && p->got[0] == 1 && p->got[1] == 1004 && p->got[2] == 3, "%d events", p->n); }
    }
    released();
}
// two threads attach to copies of one receiver at once, and set theirs ready; values are sent meanwhile
template <class E> void attachers(E ex, int n, bool head) {
    probe a, b[2];
    {
        auto [s, r0] = channel<int>(ex);
        std::optional<receiver<int>> m;
        if (head) m = std::move(r0); else { m = r0 | adder{&a, 0}; r0.set_ready(); }
        std::vector<receiver<void>> d(2);
        auto attach = [](receiver<int> r, probe* p, receiver<void>* d) { *d = r | sink{p}; r.set_ready(); };
        std::thread t(attach, *m, &b[0], &d[0]);
        if (n > 1) s(1);
        attach(std::move(*m), &b[1], &d[1]);
        m.reset();
        if (n) s(n);
        t.join();
        mc_quiesce();
        for (auto& x : b) expect_seq(x, n, 1);
    }
    released();
}
MC_SCENARIO("C21,C33", attachers_inline, .mode = 3, .mode_thorough = 0) { int h = mc_choose(2), n = mc_choose(3); attachers(inline_ex{}, n, h); }
MC_SCENARIO("C21,C33", attachers_w, .mode = 2, .mode_thorough = 3) { int h = mc_choose(2); workers w(1); attachers(w.get(), 2, h); }
