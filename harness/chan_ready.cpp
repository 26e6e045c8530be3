// PROPS: C26 C33
// set_ready, copies of receivers, and annotations
#include "chan.h"
using namespace stlab;

// ---- nothing runs before every receiver is ready; afterwards everything flows
// ops on a chain r | a | b | sink, in every order: send, set_ready / drop / copy each of the three receivers
template <class E> void inert(E ex, bag* q, int ops, bool copies) {
    probe pa, pb, z; int sent = 0;
    {
        auto [s, r] = channel<int>(ex);
        auto m = r | adder{&pa, 10};
        auto o = m | adder{&pb, 100};
        auto d = o | sink{&z};
        int up[3] = {1, 1, 1};   // receivers that are not ready yet
        receiver<int>* main_r[3] = {&r, &m, &o};
        receiver<int> cp[3]; bool live[3] = {}, mine[3] = {1, 1, 1};
        auto check = [&](bool exact) {
            int a = !up[0] && !up[1] ? sent : 0, b = !up[2] ? a : 0;
            MC_CHECK(pa.n <= a && pb.n <= b && z.n <= b, "ran before it was ready: %d %d %d values, expected at most %d %d %d", pa.n, pb.n, z.n, a, b, b);
            if (exact) {
                // the value that a is suspended with is not processed by it, those before are
                MC_CHECK(pb.n == b && z.n == b, "values do not flow: %d %d of %d", pb.n, z.n, b);
                MC_CHECK(pa.n == a || up[2], "values do not flow: %d of %d", pa.n, a);
                MC_CHECK(pa.n >= std::min(a, 1), "the first process does not run");
            }
        };
        auto op = [&, &s = s](int) {
            int k = mc_choose(copies ? 10 : 4);
            if (k == 0) { ++sent; s(sent); return; }
            int i = (k - 1) % 3;
            switch ((k - 1) / 3) {
            case 0: if (mine[i]) { main_r[i]->set_ready(); mine[i] = false; --up[i]; } break;
            case 1: // copy, or make the copy ready
                if (!live[i]) { cp[i] = *main_r[i]; live[i] = true; if (mine[i]) ++up[i]; }
                else if (!cp[i].ready()) { cp[i].set_ready(); --up[i]; } break;
            case 2: // drop the copy
                if (live[i]) { if (!cp[i].ready()) --up[i]; cp[i] = receiver<int>(); live[i] = false; } break;
            }
            mc_visible(&up, 1);
            check(!q);
        };
        if (q) q->drive(ops, op); else for (int i = 0; i < ops; ++i) op(i);
        for (int i = 0; i < 3; ++i) { if (mine[i]) main_r[i]->set_ready(); if (live[i]) cp[i].set_ready(); up[i] = 0; }
        if (q) q->drive(0, [](int) {});
        mc_quiesce();
        check(true);
        expect_seq(z, sent, 111);
    }
    if (q) q->drive(0, [](int) {});
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C26,C33", inert_inline) { inert(inline_ex{}, nullptr, 6, false); }
MC_SCENARIO("C26,C33", inert_copies) { inert(inline_ex{}, nullptr, 4, true); }
MC_SCENARIO("C26", inert_copies_5, .thorough_only = 1) { inert(inline_ex{}, nullptr, 5, true); }
MC_SCENARIO("C26,C33", inert_bag, .mode = 1) { bag q; inert(q.e, &q, 5, false); }
// dropping receivers instead of making them ready counts as ready
MC_SCENARIO("C26,C33", dropped) {
    probe pa, z; int order = mc_choose(6), sent = 2;
    {
        sender<int> s; std::optional<receiver<int>> r; std::optional<receiver<int>> m; receiver<void> d;
        { auto [x, y] = channel<int>(inline_ex{}); s = std::move(x); r.emplace(std::move(y)); }
        m.emplace(*r | adder{&pa, 10});
        d = *m | sink{&z};
        int o[3]; { int k[3] = {0, 1, 2}; for (int i = 0, w = order; i < 3; ++i) { int n = 3 - i, j = w % n; w /= n; o[i] = k[j]; for (; j + 1 < 3; ++j) k[j] = k[j + 1]; } }
        bool up[2] = {1, 1}; int now = 0;
        for (int i = 0; i < 3; ++i) {
            if (o[i] == 0) { r.reset(); up[0] = false; } else if (o[i] == 1) { m.reset(); up[1] = false; } else { s(1); s(2); now = 2; }
            MC_CHECK(z.n == (up[0] || up[1] ? 0 : now), "%d values arrived", z.n);
        }
        expect_seq(z, sent, 11);
    }
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
// ready, send, copy, drop from several threads
template <class E> void racing(E ex, int what) {
    probe pa, z; int sent = 2, stop = 0;
    {
        auto [s, r] = channel<int>(ex);
        auto m = r | adder{&pa, 10};
        auto d = m | sink{&z};
        receiver<int> c;
        if (what & 1) c = m;
        if (what & 2) r.set_ready();
        std::thread t1([&stop, s2 = std::move(s), sent]() mutable { for (int i = 1; i <= sent; ++i) s2(i); mc_await(&stop); });
        std::thread t2([&] { m.set_ready(); });
        if (what & 1) { if (what & 4) c.set_ready(); else c = receiver<int>(); }
        if (!(what & 2)) r.set_ready();
        t2.join();
        mc_quiesce();
        expect_seq(pa, sent, 1); expect_seq(z, sent, 11);
        mc_set(&stop, 1);
        t1.join();
        mc_quiesce();
    }
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C26,C33", racing_0, .mode = 3, .mode_thorough = 0) { racing(inline_ex{}, 0); }
MC_SCENARIO("C26,C33", racing_1, .mode = 3, .mode_thorough = 4) { racing(inline_ex{}, 1); }
MC_SCENARIO("C26,C33", racing_2, .mode = 3, .mode_thorough = 0) { racing(inline_ex{}, 2); }
MC_SCENARIO("C26,C33", racing_3, .mode = 3, .mode_thorough = 0) { racing(inline_ex{}, 3); }
MC_SCENARIO("C26,C33", racing_5, .mode = 3, .mode_thorough = 4) { racing(inline_ex{}, 5); }
MC_SCENARIO("C26,C33", racing_7, .mode = 3, .mode_thorough = 0) { racing(inline_ex{}, 7); }
MC_SCENARIO("C26,C33", racing_w0, .mode = 1, .mode_thorough = 2) { workers w(2); racing(w.get(), 0); }
MC_SCENARIO("C26,C33", racing_w3, .mode = 1, .mode_thorough = 2) { workers w(2); racing(w.get(), 3); }
// a generator is started exactly once, by the last of its receivers
template <class E> void generator(E ex, int copies, bool threads) {
    probe a, z;
    {
        auto r = channel<void>(ex);
        auto m = r | source{&a, 3};
        auto d = m | sink{&z};
        r.set_ready();
        std::vector<receiver<int>> c; std::vector<std::thread> t;
        for (int i = 0; i < copies; ++i) c.push_back(m);
        int left = copies + 1;
        auto done = [&](int i) {
            receiver<int>& x = i ? c[i - 1] : m;
            MC_CHECK(threads || a.n == 0, "started with %d receivers not ready", left);
            if (mc_choose(2)) x.set_ready(); else x = receiver<int>();
            --left;
        };
        if (threads) { for (int i = 1; i <= copies; ++i) t.emplace_back([&, i] { receiver<int>& x = c[i - 1]; if (i & 1) x.set_ready(); else x = receiver<int>(); }); m.set_ready(); for (auto& x : t) x.join(); }
        else for (int i = copies; i >= 0; --i) done(i);
        mc_quiesce();
        expect_seq(a, 3, 1); expect_seq(z, 3, 1);
    }
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C26,C33", generator_inline) { generator(inline_ex{}, mc_choose(3), false); }
MC_SCENARIO("C26,C33", generator_2, .mode = 0) { generator(inline_ex{}, 1, true); }
MC_SCENARIO("C26,C33", generator_3, .mode = 3, .mode_thorough = 0) { generator(inline_ex{}, 2, true); }
MC_SCENARIO("C26,C33", generator_w, .mode = 2, .mode_thorough = 3) { workers w(2); generator(w.get(), 1, true); }
// attaching to nothing, and attaching late
MC_SCENARIO("C26", misuse) {
    probe z;
    auto code = [](auto f) { try { f(); } catch (const channel_error& e) { return (int)e.code(); } catch (...) { return -1; } return 0; };
    auto [s, r] = channel<int>(inline_ex{});
    receiver<int> none;
    queue_ex q;
    MC_CHECK(code([&] { auto d = none | sink{&z}; (void)d; }) == (int)channel_error_codes::broken_channel, "attached to nothing");
    MC_CHECK(code([&] { auto d = none | (buffer_size(2) & sink{&z}); (void)d; }) == (int)channel_error_codes::broken_channel, "attached to nothing");
    auto d = r | sink{&z};
    MC_CHECK(!r.ready(), "ready at once");
    receiver<int> c = r;
    r.set_ready();
    MC_CHECK(r.ready() && !c.ready(), "readiness is per receiver");
    MC_CHECK(code([&] { auto d = r | sink{&z}; (void)d; }) == (int)channel_error_codes::process_already_running, "attached late");
    MC_CHECK(code([&] { auto d = r | (executor{q} & sink{&z}); (void)d; }) == (int)channel_error_codes::process_already_running, "attached late");
    s(1);
    MC_CHECK(z.n == 0, "ran with a receiver not ready");
    c.set_ready(); c.set_ready(); r.set_ready();
    expect_seq(z, 1, 1);
    receiver<int> e = c, f = std::move(c);
    MC_CHECK(e == f && e == r && e != none, "equality");
    s(2);
    expect_seq(z, 2, 1);
}

// ---- annotations
static int cur;      // the executor whose task is running
struct marked { queue_ex q; int id; bool run() { if (!q.size()) return false; auto t = q.take(); int o = cur; cur = id; t(); cur = o; return true; } };
struct where { probe* p; int* on; token t{70}; int operator()(int x) const { scoped s(*p, "function"); MC_CHECK(*on == -1 || *on == cur, "the process ran on executor %d and %d", *on, cur); *on = cur; p->put(x); return x; } };
struct where_obj { // the same as a process object
    probe* p; int* on; token t{70}; int v = 0; process_state_scheduled st = await_forever;
    void at() { MC_CHECK(*on == -1 || *on == cur, "the process ran on executor %d and %d", *on, cur); *on = cur; }
    void await(int x) { scoped s(*p, "await"); at(); p->put(x); v = x; st = yield_immediate; }
    int yield() { scoped s(*p, "yield"); at(); st = await_forever; return v; }
    process_state_scheduled state() const { return st; }
};
// attach(m, process, e1, e2) attaches `process` with some annotation; expect executor `id` (0: inherited) and buffer size bs
template <class P, class A> void annotated(int id, int bs, A attach) {
    probe a, p, z, y; marked q[4]; for (int i = 0; i < 4; ++i) q[i].id = i;
    cur = -2;
    int on = -1, next = -1, other = -1;
    {
        auto r = channel<void>(inline_ex{});
        auto m = r | (executor{q[0].q} & source{&a, 6});
        receiver<int> o = attach(m, P{&p, &on}, q[1].q, q[2].q, q[3].q);
        receiver<int> o2 = o | where{&z, &next};        // the next process inherits the executor, not the buffer size
        receiver<int> b = m | (buffer_size(0) & where{&y, &other});   // another process attached to the same receiver
        b.set_ready(); o2.set_ready(); o.set_ready(); m.set_ready(); r.set_ready();
        // the producer runs as far as the buffers of its consumers let it
        while (q[0].run()) {}
        int room = bs ? std::min(6, bs) : 6;
        MC_CHECK(a.n == room || (id == 0 && a.n >= room), "the producer made %d values, the buffer is %d", a.n, bs);
        if (id) MC_CHECK(p.n == 0, "the process ran on the executor of the one before");
        for (bool more = true; more;) { more = false; for (auto& x : q) while (x.run()) more = true; }
        expect_seq(a, 6, 1); expect_seq(p, 6, 1); expect_seq(z, 6, 1); expect_seq(y, 6, 1);
        MC_CHECK(on == id, "ran on executor %d, not on %d", on, id);
        MC_CHECK(next == id, "the next process ran on executor %d, not on %d", next, id);
        MC_CHECK(other == 0, "the other process ran on executor %d, not on 0", other);
    }
    for (auto& x : q) x.q.drop_all();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
#define ANN(name, id, bs, expr)                                                                                   \
    MC_SCENARIO("C26,C33", ann_##name) {                                                                          \
        auto at = [](auto& m, auto P, auto E1, auto E2, auto E3) { (void)E1; (void)E2; (void)E3; const executor CE{E1}; const buffer_size CB{3}; (void)CE; (void)CB; return m | (expr); }; \
        if (mc_choose(2)) annotated<where>(id, bs, at); else annotated<where_obj>(id, bs, at);                     \
    }
#define MV std::move(P)
ANN(none, 0, 1, MV)
ANN(b0, 0, 0, buffer_size(0) & MV)
ANN(b2, 0, 2, buffer_size(2) & MV)
ANN(b2r, 0, 2, MV & buffer_size(2))
ANN(b_lvalue, 0, 3, CB & MV)
ANN(e, 1, 1, executor{E1} & MV)
ANN(er, 1, 1, MV & executor{E1})
ANN(e_lvalue, 1, 1, CE & MV)
ANN(e_lvalue_r, 1, 1, MV & CE)
ANN(eb, 1, 4, executor{E1} & buffer_size(4) & MV)
ANN(be, 1, 4, buffer_size(4) & executor{E1} & MV)
ANN(eb0, 1, 0, executor{E1} & buffer_size(0) & MV)
ANN(r_eb, 1, 4, MV & (executor{E1} & buffer_size(4)))
ANN(r_be, 1, 4, MV & (buffer_size(4) & executor{E1}))
ANN(l_eb, 1, 3, (CE & CB) & MV)
ANN(l_be, 1, 3, (CB & CE) & MV)
ANN(eFb, 1, 4, executor{E1} & MV & buffer_size(4))
ANN(bFe, 1, 4, buffer_size(4) & MV & executor{E1})
ANN(Feb, 1, 4, MV & executor{E1} & buffer_size(4))
ANN(Fbe, 1, 4, MV & buffer_size(4) & executor{E1})
ANN(b_eF, 1, 4, buffer_size(4) & (executor{E1} & MV))
ANN(b_Fe, 1, 4, buffer_size(4) & (MV & executor{E1}))
// a later annotation of the same kind replaces the earlier
ANN(bFb, 0, 5, buffer_size(2) & MV & buffer_size(5))
ANN(Fbb, 0, 2, MV & buffer_size(5) & buffer_size(2))
ANN(ebFe, 2, 4, executor{E1} & buffer_size(4) & MV & executor{E2})
ANN(beFb, 1, 2, buffer_size(4) & executor{E1} & MV & buffer_size(2))
ANN(ebFbe, 3, 2, executor{E1} & buffer_size(4) & MV & buffer_size(2) & executor{E3})
ANN(bFeb, 2, 5, buffer_size(4) & MV & executor{E2} & buffer_size(5))
// named annotated processes
MC_SCENARIO("C26,C33", ann_named) {
    auto at = [](auto& m, auto P, auto E1, auto, auto) { auto n = buffer_size(4) & MV & executor{E1}; return m | n; };
    annotated<where>(1, 4, at);
}
MC_SCENARIO("C26,C33", ann_named_e) {
    auto at = [](auto& m, auto P, auto E1, auto, auto) { auto n = executor{E1} & MV; return m | n; };
    annotated<where>(1, 1, at);
}
MC_SCENARIO("C26,C33", ann_named_moved) {
    auto at = [](auto& m, auto P, auto E1, auto, auto) { auto n = executor{E1} & buffer_size(4) & MV; return m | std::move(n); };
    annotated<where_obj>(1, 4, at);
}
struct where_ref { probe* p; int* on; int operator()(int x) const { scoped s(*p, "function"); MC_CHECK(*on == -1 || *on == cur, "the process ran on executor %d and %d", *on, cur); *on = cur; p->put(x); return x; } };
MC_SCENARIO("C26,C33", ann_ref) {
    std::unique_ptr<where_ref> keep;
    int k = mc_choose(4);
    annotated<where_ref>(k ? 1 : 0, k ? 4 : 2, [&](auto& m, auto P, auto E1, auto, auto) {
        keep.reset(new where_ref(P));
        switch (k) {
        case 0: return m | (buffer_size(2) & std::ref(*keep));
        case 1: return m | (executor{E1} & buffer_size(4) & std::ref(*keep));
        case 2: return m | (buffer_size(4) & std::ref(*keep) & executor{E1});
        default: return m | (std::ref(*keep) & executor{E1} & buffer_size(4));
        }
    });
}
