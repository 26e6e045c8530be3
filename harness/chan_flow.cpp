// PROPS: C19 C20 C26 C33
// values through channels
#include "chan.h"
#include <stlab/concurrency/serial_queue.hpp>
using namespace stlab;

static void released() {
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
// one stage
template <int N, class E> void one_stage(E ex, int bs, bool ready_first) {
    probe p;
    {
        auto [s, r] = channel<int>(ex);
        receiver<void> d = bs < 0 ? (r | sink{&p}) : (r | (buffer_size(bs) & sink{&p}));
        if (ready_first) r.set_ready();
        for (int i = 0; i < N; ++i) s(1 + i);
        if (!ready_first) r.set_ready();
        mc_quiesce();
        expect_seq(p, N, 1);
    }
    released();
}
MC_SCENARIO("C19,C20,C33", stage1_2, .mode = 3, .mode_thorough = 4) { int b = mc_choose(2); one_stage<2>(thread_ex{}, -1, b); }
MC_SCENARIO("C19,C20,C33", stage1_3, .mode = 2, .mode_thorough = 3) { int b = mc_choose(2); one_stage<3>(thread_ex{}, -1, b); }
MC_SCENARIO("C19,C20,C33", stage1_inline) { int b = mc_choose(2); int bs = mc_choose(4) - 1; one_stage<4>(inline_ex{}, bs, b); }
template <int N, class E> void two_stage(E ex, int b1, int b2) {
    probe a, p;
    {
        auto [s, r] = channel<int>(ex);
        auto m = r | (buffer_size(b1) & adder{&a, 10});
        auto d = m | (buffer_size(b2) & sink{&p});
        m.set_ready();
        r.set_ready();
        for (int i = 0; i < N; ++i) s(1 + i);
        mc_quiesce();
        expect_seq(a, N, 1); expect_seq(p, N, 11);
    }
    released();
}
MC_SCENARIO("C19,C20,C33", stage2_2_b1, .mode = 2, .mode_thorough = 3) { two_stage<2>(thread_ex{}, 1, 1); }
MC_SCENARIO("C19,C20", stage2_2_b2, .mode = 2, .mode_thorough = 3) { two_stage<2>(thread_ex{}, 2, 2); }
MC_SCENARIO("C19,C20,C33", stage2_3_b1, .mode = 2, .mode_thorough = 3) { two_stage<3>(thread_ex{}, 1, 1); }
MC_SCENARIO("C19,C20,C33", stage2_3_b2, .mode = 2, .mode_thorough = 3) { two_stage<3>(thread_ex{}, 1, 2); }
MC_SCENARIO("C19,C20,C33", stage2_3_b0, .mode = 2, .mode_thorough = 3) { two_stage<3>(thread_ex{}, 1, 0); }
MC_SCENARIO("C19,C20", stage2_3_b20, .mode = 2, .mode_thorough = 3) { two_stage<3>(thread_ex{}, 2, 0); }
MC_SCENARIO("C19,C20,C33", stage2_3_w_b1, .mode = 2, .mode_thorough = 3) { workers w(2); two_stage<3>(w.get(), 1, 1); }
MC_SCENARIO("C19,C20,C33", stage2_3_w_b2, .mode = 2, .mode_thorough = 3) { workers w(2); two_stage<3>(w.get(), 1, 2); }
MC_SCENARIO("C19,C20,C33", stage2_3_w_b0, .mode = 2, .mode_thorough = 3) { workers w(2); two_stage<3>(w.get(), 1, 0); }
MC_SCENARIO("C19,C20,C33", stage2_4_w3, .mode = 2, .thorough_only = 1) { workers w(3); int b = mc_choose(3); two_stage<4>(w.get(), b, 2); }
MC_SCENARIO("C19,C20,C33", stage2_inline) { int b = mc_choose(3); int c = mc_choose(3); two_stage<4>(inline_ex{}, b, c); }
// values sent by another thread while the receivers are set ready, in both orders
template <int N, class E> void while_readied(E ex, int stages, bool up_first, int bs) {
    probe a, p;
    {
        auto [s, r] = channel<int>(ex);
        receiver<int> m; receiver<void> d;
        if (stages == 1) d = r | (buffer_size(bs) & sink{&p});
        else { m = r | (buffer_size(bs) & adder{&a, 0}); d = m | (buffer_size(bs) & sink{&p}); }
        std::thread t([&, &s = s] { for (int i = 0; i < N; ++i) s(1 + i); });
        if (up_first) r.set_ready();
        if (stages == 2) m.set_ready();
        if (!up_first) r.set_ready();
        t.join();
        mc_quiesce();
        expect_seq(p, N, 1);
    }
    released();
}
MC_SCENARIO("C19,C20,C26", readied_1, .mode = 3, .mode_thorough = 0) { while_readied<1>(inline_ex{}, 1, false, 1); }
MC_SCENARIO("C19,C20,C26", readied_2, .mode = 3, .mode_thorough = 0) { while_readied<2>(inline_ex{}, 1, false, 1); }
MC_SCENARIO("C19,C20,C26", readied_two, .mode = 3, .mode_thorough = 4) { int b = mc_choose(2), u = mc_choose(2); while_readied<2>(inline_ex{}, 2, u, b); }
MC_SCENARIO("C19,C20,C26", readied_threads, .mode = 2, .mode_thorough = 3) { int u = mc_choose(2); while_readied<2>(thread_ex{}, 2, u, 1); }
MC_SCENARIO("C19,C20,C26", readied_w, .mode = 2, .mode_thorough = 3) { workers w(2); while_readied<2>(w.get(), 2, true, 1); }
// process objects (await / yield) in the middle and at the end
template <int N, int G, class E> void objects(E ex, int b1, int b2) {
    probe a, b, p;
    {
        auto [s, r] = channel<int>(ex);
        auto m = r | (buffer_size(b1) & relay(&a, 10));
        auto n = m | (buffer_size(b2) & summer{&b, G});
        auto d = n | sink{&p};
        n.set_ready(); m.set_ready(); r.set_ready();
        for (int i = 0; i < N; ++i) s(1 + i);
        mc_quiesce();
        expect_seq(a, N, 1); expect_seq(b, N, 11);
        MC_CHECK(p.n == N / G, "%d sums", p.n);
        for (int i = 0, x = 11; i < N / G; ++i) { int t = 0; for (int j = 0; j < G; ++j) t += x++; MC_CHECK(p.got[i] == t, "sum %d is %d", i, p.got[i]); }
    }
    released();
}
MC_SCENARIO("C19,C20,C33", objects_2, .mode = 2, .mode_thorough = 3) { objects<2, 1>(thread_ex{}, 1, 1); }
MC_SCENARIO("C19,C20,C33", objects_3_b2, .mode = 2, .budget = 10) { objects<3, 1>(thread_ex{}, 2, 2); }
MC_SCENARIO("C19,C20", objects_4_w, .mode = 2, .budget = 10) { workers w(2); objects<4, 2>(w.get(), 2, 2); }
MC_SCENARIO("C19,C20", objects_4_w0, .mode = 2, .budget = 10) { workers w(2); objects<4, 2>(w.get(), 0, 0); }
MC_SCENARIO("C19,C20,C33", objects_inline) { int b = mc_choose(4); int c = mc_choose(4); objects<6, 2>(inline_ex{}, b, c); }
// every order in which the executor may run the steps, and the sends between them
MC_SCENARIO("C19,C20", bag_objects, .mode = 1) {
    bag g; probe a, b, p;
    int b1 = mc_choose(3), b2 = mc_choose(3);
    {
        auto [s, r] = channel<int>(g.e);
        auto m = r | (buffer_size(b1) & relay(&a, 10));
        auto n = m | (buffer_size(b2) & adder{&b, 10});
        auto d = n | sink{&p};
        n.set_ready(); m.set_ready(); r.set_ready();
        g.drive(3, [&, &s = s](int i) { s(1 + i); });
        expect_seq(a, 3, 1); expect_seq(b, 3, 11); expect_seq(p, 3, 21);
    }
    released();
}
// two senders: each one's order is kept, nothing is lost
template <class E> void two_senders(E ex, int k1, int k2) {
    probe a, p;
    {
        auto [s, r] = channel<int>(ex);
        auto m = r | adder{&a, 100};
        auto d = m | sink{&p};
        m.set_ready(); r.set_ready();
        {
            std::thread t([&, s2 = s] { for (int i = 0; i < k2; ++i) s2(11 + i); });
            for (int i = 0; i < k1; ++i) s(1 + i);
            t.join();
        }
        mc_quiesce();
        MC_CHECK(p.n == k1 + k2, "%d values arrived", p.n);
        int x = 101, y = 111;
        for (int i = 0; i < p.n; ++i) {
            if (p.got[i] >= 111) MC_CHECK(p.got[i] == y++, "the second sender's values are out of order");
            else MC_CHECK(p.got[i] == x++, "the first sender's values are out of order");
            MC_CHECK(a.got[i] + 100 == p.got[i], "the stages see different orders");
        }
    }
    released();
}
MC_SCENARIO("C19,C20,C33", senders_1_1, .mode = 2, .mode_thorough = 3) { two_senders(thread_ex{}, 1, 1); }
MC_SCENARIO("C19,C20", senders_2_1, .mode = 2, .budget = 10) { two_senders(thread_ex{}, 2, 1); }
MC_SCENARIO("C19,C20", senders_2_1_w, .mode = 2, .mode_thorough = 3) { workers w(1); two_senders(w.get(), 2, 1); }
MC_SCENARIO("C19,C20", senders_2_2_inline, .mode = 3, .mode_thorough = 0) { two_senders(inline_ex{}, 2, 2); }
// processes with executors of their own
MC_SCENARIO("C19,C20,C33", mixed_executors, .mode = 2, .mode_thorough = 3) {
    probe a, b, p;
    {
        auto [s, r] = channel<int>(inline_ex{});
        auto m = r | (executor{thread_ex{}} & adder{&a, 10});
        auto n = m | (executor{inline_ex{}} & relay(&b, 10));
        auto d = n | (executor{thread_ex{}} & sink{&p});
        n.set_ready(); m.set_ready(); r.set_ready();
        s(1); s(2);
        mc_quiesce();
        expect_seq(a, 2, 1); expect_seq(b, 2, 11); expect_seq(p, 2, 21);
    }
    released();
}
MC_SCENARIO("C19,C20,C33", on_serial_queue, .mode = 2, .mode_thorough = 3) {
    probe a, p;
    {
        serial_queue_t q{thread_ex{}};
        auto [s, r] = channel<int>(q.executor());
        auto m = r | adder{&a, 10};
        auto d = m | sink{&p};
        m.set_ready(); r.set_ready();
        s(1); s(2);
        mc_quiesce();
        expect_seq(a, 2, 1); expect_seq(p, 2, 11);
    }
    released();
}
// move-only values
struct mstep { probe* p; int k; token t{70}; mval operator()(mval x) const { scoped s(*p, "function"); p->put(x.v); return mval(x.v + k); } };
struct mrelay {
    probe* p; std::optional<mval> held; token t{70};
    explicit mrelay(probe* p) : p(p) {}
    void await(mval x) { scoped s(*p, "await"); MC_CHECK(!held, "a value while one is held"); p->put(x.v); held = std::move(x); }
    mval yield() { scoped s(*p, "yield"); MC_CHECK(held.has_value(), "nothing to yield"); mval r = std::move(*held); held.reset(); return r; }
    process_state_scheduled state() const { return held ? yield_immediate : await_forever; }
};
template <class E> void moveonly(E ex, int n, int bs) {
    probe a, b, p;
    {
        auto [s, r] = channel<mval>(ex);
        auto m = r | (buffer_size(bs) & mstep{&a, 10});
        auto o = m | (buffer_size(bs) & mrelay(&b));
        auto d = o | (buffer_size(bs) & sink{&p});
        o.set_ready(); m.set_ready(); r.set_ready();
        for (int i = 0; i < n; ++i) s(mval(1 + i));
        mc_quiesce();
        expect_seq(a, n, 1); expect_seq(b, n, 11); expect_seq(p, n, 11);
    }
    released();
    MC_CHECK(mc_get(900) == 0, "%ld values alive", mc_get(900));
}
MC_SCENARIO("C19,C20,C33", moveonly_2, .mode = 2, .budget = 10) { moveonly(thread_ex{}, 2, 1); }
MC_SCENARIO("C19,C20,C33", moveonly_2_b2, .mode = 2, .budget = 10) { moveonly(thread_ex{}, 2, 2); }
MC_SCENARIO("C19,C20,C33", moveonly_inline) { int bs = mc_choose(4); moveonly(inline_ex{}, 4, bs); }
// processes by reference, a sender as process, function_process, a long chain
MC_SCENARIO("C19,C20,C33", by_reference, .mode = 2) {
    probe a, b, p;
    adder f{&a, 10}; summer g{&b, 2}; sink z{&p};
    {
        auto [s, r] = channel<int>(thread_ex{});
        auto m = r | std::ref(f);
        auto n = m | (buffer_size(2) & std::ref(g));
        auto d = n | std::ref(z);
        n.set_ready(); m.set_ready(); r.set_ready();
        s(1); s(2);
        mc_quiesce();
        expect_seq(a, 2, 1); expect_seq(b, 2, 11); expect_seq(p, 1, 23);
        MC_CHECK(f.p == &a, "");
    }
    mc_quiesce();
    MC_CHECK(mc_get(70) == 3, "%ld process objects", mc_get(70));
}
MC_SCENARIO("C19,C20,C33", through_sender, .mode = 2) {
    probe p;
    {
        auto [s2, r2] = channel<int>(thread_ex{});
        auto d2 = r2 | sink{&p};
        r2.set_ready();
        auto [s, r] = channel<int>(inline_ex{});
        auto d = r | std::move(s2);
        r.set_ready();
        s(1); s(2);
        mc_quiesce();
        expect_seq(p, 2, 1);
    }
    released();
}
MC_SCENARIO("C19,C20,C33", function_object_process, .mode = 2) {
    probe p; int b = mc_choose(2);
    {
        auto [s, r] = channel<int>(b ? ex_t{inline_ex{}} : ex_t{thread_ex{}});
        int calls = 0;
        auto m = r | function_process<int(int)>([&](int x) { ++calls; return x * 2; });
        auto d = m | sink{&p};
        m.set_ready(); r.set_ready();
        s(1);
        mc_quiesce();
        if (b) { s(2); s(3); }
        expect_seq(p, b ? 3 : 1, 2, 2);
        MC_CHECK(calls == p.n, "%d calls", calls);
    }
    released();
}
MC_SCENARIO("C19,C20", long_chain, .mode = 1, .mode_thorough = 2) {
    probe a[5], p;
    {
        auto [s, r] = channel<int>(thread_ex{});
        auto r1 = r | adder{&a[0], 1};
        auto r2 = r1 | (buffer_size(2) & relay(&a[1], 1));
        auto r3 = r2 | (buffer_size(0) & adder{&a[2], 1});
        auto d = r3 | sink{&p};
        r3.set_ready(); r2.set_ready(); r1.set_ready(); r.set_ready();
        s(1); s(2);
        mc_quiesce();
        expect_seq(p, 2, 4);
    }
    released();
}
// copies of a sender used one after the other: happens-before order
MC_SCENARIO("C19,C20,C33", handed_over, .mode = 2, .mode_thorough = 3) {
    probe p;
    {
        auto [s, r] = channel<int>(thread_ex{});
        auto d = r | sink{&p};
        r.set_ready();
        s(1);
        std::thread([s2 = s] { s2(2); }).join();
        s(3);
        mc_quiesce();
        expect_seq(p, 3, 1);
    }
    released();
}
