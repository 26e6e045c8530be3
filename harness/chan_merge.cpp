// PROPS: C22 C20 C25 C33
// zip_with, round robin and unordered merges
#include "chan.h"
using namespace stlab;

static void released() {
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
    MC_CHECK(mc_get(900) == 0, "%ld values alive", mc_get(900));
}
// the i-th value (from 1) of input k is 100*k+i
template <int K> struct inputs {
    std::vector<sender<int>> s; std::vector<receiver<int>> r;
    template <class E> explicit inputs(E ex) { for (int k = 0; k < K; ++k) { auto [a, b] = channel<int>(ex); s.push_back(std::move(a)); r.push_back(std::move(b)); } }
    void ready() { for (auto& x : r) x.set_ready(); }
    int sent[K] = {};
    void send(int k) { s[k](100 * k + ++sent[k]); }
};
struct zipper { probe* p; token t{70}; template <class... T> int operator()(T... x) const { scoped s(*p, "zip function"); int r = 0; ((r = r * 1000 + x), ...); p->put(r); return r; } };
template <int K> void check_zip(const probe& p, int n) {
    MC_CHECK(p.n == n, "%d tuples, expected %d", p.n, n);
    for (int i = 0; i < n; ++i) { int e = 0; for (int k = 0; k < K; ++k) e = e * 1000 + 100 * k + i + 1; MC_CHECK(p.got[i] == e, "tuple %d is %d, expected %d", i, p.got[i], e); }
}
template <int K> void check_robin(const probe& p, const int (&sent)[K]) {
    int idx[K] = {}, n = 0;
    for (int k = 0; idx[k] < sent[k]; k = (k + 1) % K, ++n) MC_CHECK(n < p.n && p.got[n] == 100 * k + ++idx[k], "value %d of %d is %d, it is input %d's turn", n, p.n, n < p.n ? p.got[n] : 0, k);
    MC_CHECK(p.n == n, "%d values, expected %d", p.n, n);
}
template <int K> void check_unordered(const probe& p, const int (&sent)[K]) {
    int idx[K] = {}, n = 0;
    for (int i = 0; i < p.n; ++i) { int k = p.got[i] / 100; MC_CHECK(k >= 0 && k < K && p.got[i] == 100 * k + ++idx[k], "value %d is %d", i, p.got[i]); }
    for (int k = 0; k < K; ++k) { n += sent[k]; MC_CHECK(idx[k] == sent[k], "%d values of input %d, %d sent", idx[k], k, sent[k]); }
}
enum kind { ZIP, ROBIN, ANY };
// process objects in place of functions
struct zip_object {
    probe* p; token t{70}; int r = 0; bool has = false;
    template <class... T> void await(T... x) { scoped s(*p, "await"); MC_CHECK(!has, "await called on a process that does not await"); r = 0; ((r = r * 1000 + x), ...); p->put(r); has = true; }
    int yield() { scoped s(*p, "yield"); MC_CHECK(has, "yield called on a process that awaits"); has = false; return r; }
    void close() { scoped s(*p, "close"); ++p->closed; }
    process_state_scheduled state() const { return has ? yield_immediate : await_forever; }
};
static bool objects = false;
template <int K> receiver<int> attach(kind q, ex_t ex, probe* p, inputs<K>& in) {
    auto f = [&](auto&... r) {
        if (objects) {
            if (q == ZIP) return zip_with(ex, zip_object{p}, r...);
            if (q == ROBIN) return merge_channel<round_robin_t>(ex, relay(p), r...);
            return merge_channel<unordered_t>(ex, relay(p), r...);
        }
        if (q == ZIP) return zip_with(ex, zipper{p}, r...);
        if (q == ROBIN) return merge_channel<round_robin_t>(ex, adder{p, 0}, r...);
        return merge_channel<unordered_t>(ex, adder{p, 0}, r...);
    };
    if constexpr (K == 1) return f(in.r[0]); else if constexpr (K == 2) return f(in.r[0], in.r[1]); else return f(in.r[0], in.r[1], in.r[2]);
}
template <int K> void verdict(kind q, const probe& p, inputs<K>& in) {
    if (q == ZIP) { int n = in.sent[0]; for (int x : in.sent) n = std::min(n, x); check_zip<K>(p, n); }
    else if (q == ROBIN) check_robin<K>(p, in.sent); else check_unordered<K>(p, in.sent);
}
// every arrival order (values of three inputs, at most M each), one thread
template <int K, int M> void arrivals(kind q) {
    probe p, z;
    {
        inputs<K> in(inline_ex{});
        auto m = attach<K>(q, inline_ex{}, &p, in);
        auto d = m | sink{&z};
        m.set_ready(); in.ready();
        for (int i = 0; i < K * M; ++i) { int k = mc_choose(K); if (in.sent[k] < M) { in.send(k); verdict<K>(q, p, in); } else break; }
        MC_CHECK(z.n == p.n, "%d values passed on, %d made", z.n, p.n);
        for (int i = 0; i < p.n; ++i) MC_CHECK(z.got[i] == p.got[i], "value %d is %d further down", i, z.got[i]);
    }
    released();
}
MC_SCENARIO("C22", zip_arrivals) { arrivals<3, 2>(ZIP); }
MC_SCENARIO("C22", robin_arrivals) { arrivals<3, 2>(ROBIN); }
MC_SCENARIO("C22", any_arrivals) { arrivals<3, 2>(ANY); }
MC_SCENARIO("C22", zip2_arrivals) { arrivals<2, 4>(ZIP); }
MC_SCENARIO("C22", robin2_arrivals) { arrivals<2, 4>(ROBIN); }
MC_SCENARIO("C22", any2_arrivals) { arrivals<2, 4>(ANY); }
MC_SCENARIO("C22", zip3_arrivals, .thorough_only = 1) { arrivals<3, 3>(ZIP); }
MC_SCENARIO("C22", robin3_arrivals, .thorough_only = 1) { arrivals<3, 3>(ROBIN); }
MC_SCENARIO("C22", any3_arrivals, .thorough_only = 1) { arrivals<3, 3>(ANY); }
MC_SCENARIO("C22,C25", object_arrivals) { objects = true; arrivals<3, 2>(kind(mc_choose(3))); }
MC_SCENARIO("C22,C25", object_arrivals_2) { objects = true; arrivals<2, 4>(kind(mc_choose(3))); }
MC_SCENARIO("C22", object_arrivals_3, .thorough_only = 1) { objects = true; arrivals<3, 3>(kind(mc_choose(3))); }
// one input thread per input, steps on other threads
template <int K, class E> void concurrent(kind q, E ex, int n0, int n1) {
    probe p;
    {
        inputs<K> in(inline_ex{});
        auto m = attach<K>(q, ex, &p, in);
        m.set_ready(); in.ready();
        std::thread t([&] { for (int i = 0; i < n1; ++i) in.send(1); });
        for (int i = 0; i < n0; ++i) in.send(0);
        if (K == 3) in.send(2);
        t.join();
        mc_quiesce();
        verdict<K>(q, p, in);
    }
    released();
}
MC_SCENARIO("C22,C33", zip_1_1, .mode = 3) { concurrent<2>(ZIP, thread_ex{}, 1, 1); }
MC_SCENARIO("C22,C33", robin_1_1, .mode = 3) { concurrent<2>(ROBIN, thread_ex{}, 1, 1); }
MC_SCENARIO("C22,C33", any_1_1, .mode = 3) { concurrent<2>(ANY, thread_ex{}, 1, 1); }
MC_SCENARIO("C22,C33", zip_2_2, .mode = 2, .mode_thorough = 3) { concurrent<2>(ZIP, thread_ex{}, 2, 2); }
MC_SCENARIO("C22,C33", robin_2_2, .mode = 2, .mode_thorough = 3) { concurrent<2>(ROBIN, thread_ex{}, 2, 2); }
MC_SCENARIO("C22,C33", any_2_2, .mode = 2, .mode_thorough = 3) { concurrent<2>(ANY, thread_ex{}, 2, 2); }
MC_SCENARIO("C22", zip_3_1_w, .mode = 2, .mode_thorough = 3) { workers w(2); concurrent<2>(ZIP, w.get(), 3, 1); }
MC_SCENARIO("C22", robin_3_2_w, .mode = 2, .mode_thorough = 3) { workers w(2); concurrent<2>(ROBIN, w.get(), 3, 2); }
MC_SCENARIO("C22", any_3_2_w, .mode = 2, .mode_thorough = 3) { workers w(2); concurrent<2>(ANY, w.get(), 3, 2); }
MC_SCENARIO("C22", zip3_w, .mode = 2, .mode_thorough = 3) { workers w(1); concurrent<3>(ZIP, w.get(), 2, 1); }
MC_SCENARIO("C22", robin3_w, .mode = 2, .mode_thorough = 3) { workers w(1); concurrent<3>(ROBIN, w.get(), 2, 1); }
MC_SCENARIO("C22", any3_w, .mode = 2, .mode_thorough = 3) { workers w(1); concurrent<3>(ANY, w.get(), 2, 1); }
MC_SCENARIO("C22,C20,C33", objects_1_1, .mode = 2, .mode_thorough = 3) { objects = true; concurrent<2>(kind(mc_choose(3)), thread_ex{}, 1, 1); }
MC_SCENARIO("C22,C20", objects_2_2_w, .mode = 2, .mode_thorough = 3) { objects = true; kind k = kind(mc_choose(3)); workers w(2); concurrent<2>(k, w.get(), 2, 2); }
MC_SCENARIO("C22", objects_3_w, .mode = 2, .mode_thorough = 3) { objects = true; kind k = kind(mc_choose(3)); workers w(1); concurrent<3>(k, w.get(), 2, 1); }
// the steps in every order
template <int K> void bagged(kind q) {
    bag g; probe p;
    {
        inputs<K> in(g.e);
        auto m = attach<K>(q, g.e, &p, in);
        m.set_ready(); in.ready();
        int seq = mc_choose(3);
        g.drive(4, [&](int i) { in.send(seq == 0 ? i & 1 : seq == 1 ? i >> 1 : i == 2); });
        verdict<K>(q, p, in);
    }
    released();
}
MC_SCENARIO("C22", zip_bag, .mode = 1) { bagged<2>(ZIP); }
MC_SCENARIO("C22", robin_bag, .mode = 1) { bagged<2>(ROBIN); }
MC_SCENARIO("C22", any_bag, .mode = 1) { bagged<2>(ANY); }
MC_SCENARIO("C22,C25", objects_bag, .mode = 1) { objects = true; bagged<2>(kind(mc_choose(3))); }
// inputs that are processes themselves (with a buffer to fill), and a merge of merges
template <class E> void fed(kind q, E ex, int n) {
    probe a, b, p, z;
    {
        auto [s, r] = channel<int>(ex);
        auto x = r | adder{&a, 0};
        auto y = r | relay(&b, 100);
        ex_t e = ex;
        auto m = objects ? (q == ZIP ? zip_with(e, zip_object{&p}, x, y) : q == ROBIN ? merge_channel<round_robin_t>(e, relay(&p), x, y) : merge_channel<unordered_t>(e, relay(&p), x, y)) :
                 q == ZIP ? zip_with(e, zipper{&p}, x, y) : q == ROBIN ? merge_channel<round_robin_t>(e, adder{&p, 0}, x, y) : merge_channel<unordered_t>(e, adder{&p, 0}, x, y);
        auto d = m | sink{&z};
        m.set_ready(); x.set_ready(); y.set_ready(); r.set_ready();
        for (int i = 0; i < n; ++i) s(1 + i);
        mc_quiesce();
        int sent[2] = {n, n};
        if (q == ZIP) check_zip<2>(p, n); else if (q == ROBIN) check_robin<2>(p, sent); else check_unordered<2>(p, sent);
        for (int i = 0; i < p.n; ++i) MC_CHECK(z.n == p.n && z.got[i] == p.got[i], "not passed on");
    }
    released();
}
MC_SCENARIO("C22", zip_fed, .mode = 1, .mode_thorough = 2) { fed(ZIP, thread_ex{}, 2); }
MC_SCENARIO("C22", robin_fed, .mode = 1, .mode_thorough = 2) { workers w(3); fed(ROBIN, w.get(), 2); }
MC_SCENARIO("C22", any_fed, .mode = 1, .mode_thorough = 2) { fed(ANY, thread_ex{}, 2); }
MC_SCENARIO("C22", zip_fed_w, .mode = 2) { workers w(2); fed(ZIP, w.get(), 3); }
MC_SCENARIO("C22", robin_fed_w, .mode = 2) { workers w(2); fed(ROBIN, w.get(), 3); }
MC_SCENARIO("C22", any_fed_w, .mode = 2) { workers w(2); fed(ANY, w.get(), 3); }
MC_SCENARIO("C22", objects_fed_w, .mode = 2) { objects = true; kind k = kind(mc_choose(3)); workers w(2); fed(k, w.get(), 3); }
MC_SCENARIO("C22", objects_fed) { objects = true; fed(kind(mc_choose(3)), inline_ex{}, 5); }
MC_SCENARIO("C22", fed_inline) { kind q = kind(mc_choose(3)); fed(q, inline_ex{}, 5); }
// zip without function
MC_SCENARIO("C22,C33", zip_tuple, .mode = 2, .mode_thorough = 3) {
    int got = 0, n = 0;
    {
        auto [s, r] = channel<int>(inline_ex{});
        auto [s2, r2] = channel<val>(inline_ex{});
        auto m = zip(thread_ex{}, r, r2);
        auto d = m | [&](std::tuple<int, val> t) { ++n; got = got * 1000 + std::get<0>(t) * 100 + std::get<1>(t).v; };
        m.set_ready(); r.set_ready(); r2.set_ready();
        std::thread t([&, &s2 = s2] { s2(val(7)); s2(val(8)); });
        s(1); s(2);
        t.join(); mc_quiesce();
        MC_CHECK(n == 2 && got == 107208, "%d tuples: %d", n, got);
    }
    released();
}
// an exception from one input takes its place in the merged sequence: set_error, or the merge process is closed
struct watcher { probe* p; token t{70}; template <class... T> void await(T... x) { scoped s(*p, "await"); int r = 0; ((r = r * 1000 + x), ...); p->put(r); } int yield() { MC_CHECK(false, "yield"); return 0; } void set_error(std::exception_ptr e) { scoped s(*p, "set_error"); p->put(err_code(e)); } process_state_scheduled state() const { return await_forever; } };
struct thrower { int bad; token t{70}; int operator()(int x) const { if (x == bad) throw err{7}; return x; } };
static void with_error(bool functor) {
    probe p; kind q = kind(mc_choose(3)); int which = mc_choose(2), order = mc_choose(2);
    {
        inputs<2> in(inline_ex{});
        ex_t e = inline_ex{};
        auto x = in.r[0] | thrower{which == 0 ? 2 : -1};
        auto y = in.r[1] | thrower{which == 1 ? 102 : -1};
        std::optional<receiver<int>> m;
        if (functor) { if (q == ZIP) m = zip_with(e, zipper{&p}, x, y); else if (q == ROBIN) m = merge_channel<round_robin_t>(e, adder{&p, 0}, x, y); else m = merge_channel<unordered_t>(e, adder{&p, 0}, x, y); }
        else { if (q == ZIP) m = zip_with(e, watcher{&p}, x, y); else if (q == ROBIN) m = merge_channel<round_robin_t>(e, watcher{&p}, x, y); else m = merge_channel<unordered_t>(e, watcher{&p}, x, y); }
        m->set_ready(); x.set_ready(); y.set_ready(); in.ready();
        for (int i = 0; i < 3; ++i) { in.send(order); in.send(!order); }
        // the expected sequence
        std::vector<int> exp;
        if (q == ZIP) { exp = {1101}; if (!functor) { exp.push_back(1007); exp.push_back(3103); } }
        else for (int i = 1; i <= 3; ++i) for (int j = 0; j < 2; ++j) {
            int k = q == ROBIN ? j : j ? !order : order, v = 100 * k + i;
            if (k == which && i == 2) { if (functor) goto done; v = 1007; }
            exp.push_back(v);
        }
    done:
        MC_CHECK(p.n == (int)exp.size(), "%d results, expected %d", p.n, (int)exp.size());
        for (int i = 0; i < p.n; ++i) MC_CHECK(p.got[i] == exp[i], "result %d is %d, expected %d", i, p.got[i], exp[i]);
    }
    released();
}
MC_SCENARIO("C22", error_closes_merge) { with_error(true); }
MC_SCENARIO("C22", error_in_merge) { with_error(false); }
// closing the inputs closes the merge after the last complete result
MC_SCENARIO("C22,C33", close_inputs, .mode = 1, .mode_thorough = 2) {
    probe p, z; kind q = kind(mc_choose(3));
    {
        inputs<2> in(thread_ex{});
        auto m = attach<2>(q, thread_ex{}, &p, in);
        auto d = m | sink{&z};
        m.set_ready(); in.ready();
        in.send(0); in.send(1);
        std::thread t([&] { in.s[0].close(); });
        in.s[1].close();
        t.join();
        mc_quiesce();
        verdict<2>(q, p, in);
        MC_CHECK(z.n == p.n, "%d values passed on", z.n);
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the close", mc_get(70));
    }
    released();
}
MC_SCENARIO("C22,C25,C33", objects_close, .mode = 1, .mode_thorough = 2) {
    objects = true;
    probe p, z; kind q = kind(mc_choose(3));
    {
        inputs<2> in(thread_ex{});
        auto m = attach<2>(q, thread_ex{}, &p, in);
        auto d = m | sink{&z};
        m.set_ready(); in.ready();
        in.send(0); in.send(1);
        std::thread t([&] { in.s[0].close(); });
        in.s[1].close();
        t.join();
        mc_quiesce();
        verdict<2>(q, p, in);
        MC_CHECK(z.n == p.n && p.closed == 1, "%d values passed on, closed %d times", z.n, p.closed);
        MC_CHECK(mc_get(70) == 0, "%ld process objects alive after the close", mc_get(70));
    }
    released();
}
