// PROPS: C24 C33 C22
// back-pressure: a process that yields on its own against slower ones downstream
#include "chan.h"
using namespace stlab;

static void released() {
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
// values made and not yet begun by the consumer: the buffer, plus one taken out of it and about to be used
struct gauge {
    int k, limit;   // counter, most that is allowed (0: no limit)
    void up() { mc_visible(this, 1); long n = mc_count(k, 1); MC_CHECK(!limit || n <= limit, "%ld values wait for a process that holds at most %d", n, limit - 1); }
    void down() { mc_visible(this, 1); mc_count(k, -1); }
};
struct gen { probe* p; int n; std::vector<gauge*> g; int made = 0; token t{70};
    int yield() { scoped s(*p, "yield"); MC_CHECK(made < n, "yield called on a process that awaits"); p->put(made + 1); for (auto x : g) x->up(); return ++made; }
    process_state_scheduled state() const { return made < n ? yield_immediate : await_forever; } };
struct eater { probe* p; gauge* g; token t{70}; void operator()(int x) const { g->down(); scoped s(*p, "sink"); p->put(x); } };
struct passer { probe* p; gauge *g, *h; token t{70}; int operator()(int x) const { g->down(); scoped s(*p, "function"); p->put(x); if (h) h->up(); return x; } };
struct group { probe* p; gauge* g; int size; token t{70}; int cnt = 0, sum = 0;
    void await(int x) { g->down(); scoped s(*p, "await"); MC_CHECK(cnt < size, "await while it yields"); p->put(x); sum += x; ++cnt; }
    int yield() { scoped s(*p, "yield"); MC_CHECK(cnt == size, "yield while it awaits"); int r = sum; cnt = sum = 0; return r; }
    process_state_scheduled state() const { return cnt == size ? yield_immediate : await_forever; } };

template <class E> void one(E ex, int n, int bs) {
    probe a, p; gauge g{30, bs ? bs + 1 : 0};
    {
        auto r = channel<void>(ex);
        auto m = r | gen{&a, n, {&g}};
        auto d = m | (buffer_size(bs) & eater{&p, &g});
        m.set_ready(); r.set_ready();
        mc_quiesce();
        expect_seq(a, n, 1); expect_seq(p, n, 1);
    }
    released();
}
MC_SCENARIO("C24,C33", gen_3_b1, .mode = 3, .mode_thorough = 4) { workers w(2); one(w.get(), 3, 1); }
MC_SCENARIO("C24,C33", gen_4_b2, .mode = 2, .mode_thorough = 3) { workers w(2); one(w.get(), 4, 2); }
MC_SCENARIO("C24", gen_4_b3, .mode = 2, .mode_thorough = 3) { workers w(2); one(w.get(), 4, 3); }
MC_SCENARIO("C24,C33", gen_3_b0, .mode = 2, .mode_thorough = 3) { workers w(2); one(w.get(), 3, 0); }
MC_SCENARIO("C24,C33", gen_3_threads_b1, .mode = 2, .mode_thorough = 3) { one(thread_ex{}, 3, 1); }
MC_SCENARIO("C24", gen_3_threads_b2, .mode = 2, .mode_thorough = 3) { one(thread_ex{}, 3, 2); }
MC_SCENARIO("C24", gen_4_threads_b1, .mode = 1, .mode_thorough = 2) { one(thread_ex{}, 4, 1); }
MC_SCENARIO("C24", gen_inline) { int n = 1 + mc_choose(6), bs = mc_choose(5); one(inline_ex{}, n, bs); }
MC_SCENARIO("C24", gen_5_w3, .mode = 2, .thorough_only = 1) { workers w(3); one(w.get(), 5, 2); }
// a chain of bounded buffers
template <class E> void chain(E ex, int n, int b1, int b2) {
    probe a, b, p; gauge g{30, b1 ? b1 + 1 : 0}, h{31, b2 ? b2 + 1 : 0};
    {
        auto r = channel<void>(ex);
        auto m = r | gen{&a, n, {&g}};
        auto o = m | (buffer_size(b1) & passer{&b, &g, &h});
        auto d = o | (buffer_size(b2) & eater{&p, &h});
        o.set_ready(); m.set_ready(); r.set_ready();
        mc_quiesce();
        expect_seq(a, n, 1); expect_seq(b, n, 1); expect_seq(p, n, 1);
    }
    released();
}
MC_SCENARIO("C24,C33", chain_3_b1, .mode = 2, .mode_thorough = 3) { workers w(2); chain(w.get(), 3, 1, 1); }
MC_SCENARIO("C24", chain_4_b2, .mode = 2, .mode_thorough = 3) { workers w(2); chain(w.get(), 4, 2, 2); }
MC_SCENARIO("C24", chain_4_b12, .mode = 2, .mode_thorough = 3) { workers w(2); chain(w.get(), 4, 1, 2); }
MC_SCENARIO("C24", chain_4_b21, .mode = 2, .mode_thorough = 3) { workers w(2); chain(w.get(), 4, 2, 1); }
MC_SCENARIO("C24", chain_3_w3, .mode = 1, .mode_thorough = 2) { workers w(3); chain(w.get(), 3, 1, 1); }
MC_SCENARIO("C24", chain_threads, .mode = 1, .mode_thorough = 2) { chain(thread_ex{}, 3, 1, 2); }
MC_SCENARIO("C24", chain_inline) { int n = 1 + mc_choose(5), x = mc_choose(4), y = mc_choose(4); chain(inline_ex{}, n, x, y); }
MC_SCENARIO("C24", chain_bag, .mode = 1) {
    int x = mc_choose(3), y = mc_choose(3), n = 3;
    bag q; probe a, b, p; gauge g{30, x ? x + 1 : 0}, h{31, y ? y + 1 : 0};
    {
        auto r = channel<void>(q.e);
        auto m = r | gen{&a, n, {&g}};
        auto o = m | (buffer_size(x) & passer{&b, &g, &h});
        auto d = o | (buffer_size(y) & eater{&p, &h});
        o.set_ready(); m.set_ready(); r.set_ready();
        q.drive(0, [](int) {});
        expect_seq(a, n, 1); expect_seq(b, n, 1); expect_seq(p, n, 1);
    }
    released();
}
// two branches: the smaller buffer decides
template <class E> void split(E ex, int n, int b1, int b2) {
    probe a, b, p; gauge g{30, b1 ? b1 + 1 : 0}, h{31, b2 ? b2 + 1 : 0};
    {
        auto r = channel<void>(ex);
        auto m = r | gen{&a, n, {&g, &h}};
        auto d1 = m | (buffer_size(b1) & eater{&b, &g});
        auto d2 = m | (buffer_size(b2) & eater{&p, &h});
        m.set_ready(); r.set_ready();
        mc_quiesce();
        expect_seq(a, n, 1); expect_seq(b, n, 1); expect_seq(p, n, 1);
    }
    released();
}
MC_SCENARIO("C24,C33", split_3_b1, .mode = 2, .mode_thorough = 3) { workers w(2); split(w.get(), 3, 1, 1); }
MC_SCENARIO("C24", split_3_b12, .mode = 2, .mode_thorough = 3) { workers w(2); split(w.get(), 3, 1, 2); }
MC_SCENARIO("C24", split_4_b22, .mode = 2, .mode_thorough = 3) { workers w(2); split(w.get(), 4, 2, 2); }
MC_SCENARIO("C24", split_4_b20, .mode = 2, .mode_thorough = 3) { workers w(2); split(w.get(), 4, 2, 0); }
MC_SCENARIO("C24", split_3_w3, .mode = 1, .mode_thorough = 2) { workers w(3); split(w.get(), 3, 1, 1); }
MC_SCENARIO("C24", split_threads, .mode = 1, .mode_thorough = 2) { split(thread_ex{}, 3, 2, 1); }
MC_SCENARIO("C24", split_inline) { int n = 1 + mc_choose(5), x = mc_choose(4), y = mc_choose(4); split(inline_ex{}, n, x, y); }
MC_SCENARIO("C24", split_bag, .mode = 1) {
    int x = mc_choose(3), y = mc_choose(3), n = 3;
    bag q; probe a, b, p; gauge g{30, x ? x + 1 : 0}, h{31, y ? y + 1 : 0};
    {
        auto r = channel<void>(q.e);
        auto m = r | gen{&a, n, {&g, &h}};
        auto d1 = m | (buffer_size(x) & eater{&b, &g});
        auto d2 = m | (buffer_size(y) & eater{&p, &h});
        m.set_ready(); r.set_ready();
        q.drive(0, [](int) {});
        expect_seq(a, n, 1); expect_seq(b, n, 1); expect_seq(p, n, 1);
    }
    released();
}
// the consumer collects several values before it yields
template <class E> void groups(E ex, int n, int size, int bs) {
    probe a, b, p; gauge g{30, bs ? bs + 1 : 0};
    {
        auto r = channel<void>(ex);
        auto m = r | gen{&a, n, {&g}};
        auto o = m | (buffer_size(bs) & group{&b, &g, size});
        auto d = o | sink{&p};
        o.set_ready(); m.set_ready(); r.set_ready();
        mc_quiesce();
        expect_seq(a, n, 1); expect_seq(b, n, 1);
        MC_CHECK(p.n == n / size, "%d sums", p.n);
    }
    released();
}
MC_SCENARIO("C24", groups_4_b1, .mode = 2, .mode_thorough = 3) { workers w(2); groups(w.get(), 4, 2, 1); }
MC_SCENARIO("C24", groups_4_b2, .mode = 2, .mode_thorough = 3) { workers w(2); groups(w.get(), 4, 2, 2); }
MC_SCENARIO("C24", groups_4_b3, .mode = 1, .mode_thorough = 2) { workers w(3); groups(w.get(), 4, 3, 3); }
MC_SCENARIO("C24", groups_inline) { int n = 1 + mc_choose(5), s = 1 + mc_choose(3), bs = mc_choose(4); groups(inline_ex{}, n, s, bs); }
// exactly how far the producer gets while the consumer is not run, and after each step of it
MC_SCENARIO("C24", exact) {
    int bs = mc_choose(5), n = 6, two = mc_choose(2), b2 = two ? mc_choose(4) : 0;
    probe a, p, z; gauge g{30, 0}; queue_ex q;
    {
        auto r = channel<void>(inline_ex{});
        auto m = r | gen{&a, n, {&g}};
        auto d = m | (buffer_size(bs) & executor{q} & eater{&p, &g});
        receiver<void> d2;
        queue_ex q2;
        if (two) d2 = m | (executor{q2} & buffer_size(b2) & sink{&z});
        m.set_ready();
        r.set_ready();
        auto room = [&](int b, int done) { return b ? std::min(n, b + done) : n; };
        for (int i = 0; i <= n; ++i) {
            int e = two ? std::min(room(bs, p.n), room(b2, z.n)) : room(bs, p.n);
            MC_CHECK(a.n == e, "%d values made, expected %d (buffers %d, %d; %d and %d consumed)", a.n, e, bs, b2, p.n, z.n);
            q.run_one(); 
            if (two) {
                e = std::min(room(bs, p.n), room(b2, z.n));
                MC_CHECK(a.n == e, "%d values made, expected %d (buffers %d, %d; %d and %d consumed)", a.n, e, bs, b2, p.n, z.n);
                q2.run_one();
            }
        }
        expect_seq(p, n, 1);
        if (two) expect_seq(z, n, 1);
    }
    q.run_all();
    released();
}
// merged sources: a buffer of one per input
static void merged(int kind, ex_t ex, int n) {
    probe a, b, p; gauge g{30, 2}, h{31, 2};
    {
        auto r = channel<void>(ex);
        auto r2 = channel<void>(ex);
        auto x = r | gen{&a, n, {&g}};
        auto y = r2 | gen{&b, n, {&h}};
        auto f1 = [&, t = token(70)](int v, int w) { g.down(); h.down(); scoped s(p, "zip"); MC_CHECK(v == w, "%d with %d", v, w); p.put(v); };
        int c[2] = {};
        auto f2 = [&, t = token(70)](int v) { scoped s(p, "merge"); MC_CHECK(v == c[0] + 1 || v == c[1] + 1, "value %d out of order", v); if (v == c[0] + 1) ++c[0]; else ++c[1]; p.put(v); };
        g.limit = h.limit = kind ? 0 : 2;
        receiver<void> d;
        if (kind == 0) d = zip_with(ex, f1, x, y); else if (kind == 1) d = merge_channel<round_robin_t>(ex, f2, x, y); else d = merge_channel<unordered_t>(ex, f2, x, y);
        x.set_ready(); y.set_ready(); r.set_ready(); r2.set_ready();
        mc_quiesce();
        expect_seq(a, n, 1); expect_seq(b, n, 1);
        MC_CHECK(p.n == (kind ? 2 * n : n), "%d results", p.n);
    }
    released();
}
MC_SCENARIO("C24", merged_zip, .mode = 2, .mode_thorough = 3) { workers w(2); merged(0, w.get(), 2); }
MC_SCENARIO("C24", merged_robin, .mode = 2, .mode_thorough = 3) { workers w(2); merged(1, w.get(), 2); }
MC_SCENARIO("C24", merged_any, .mode = 2, .mode_thorough = 3) { workers w(2); merged(2, w.get(), 2); }
MC_SCENARIO("C24", merged_inline) { int k = mc_choose(3), n = 1 + mc_choose(4); merged(k, inline_ex{}, n); }
// the same into process objects; the inputs need not be equally long
struct pair_sum { probe* p; gauge *g, *h; token t{70}; bool has = false; int v = 0;
    void await(int x, int y) { g->down(); h->down(); scoped s(*p, "await"); MC_CHECK(!has && x == y, "%d with %d", x, y); has = true; v = x; }
    int yield() { scoped s(*p, "yield"); MC_CHECK(has, "yield while it awaits"); has = false; p->put(v); return v; }
    process_state_scheduled state() const { return has ? yield_immediate : await_forever; } };
struct any_in { probe* p; token t{70}; bool has = false; int v = 0;
    void await(int x) { scoped s(*p, "await"); MC_CHECK(!has, "await while it yields"); has = true; v = x; }
    int yield() { scoped s(*p, "yield"); MC_CHECK(has, "yield while it awaits"); has = false; p->put(v); return v; }
    process_state_scheduled state() const { return has ? yield_immediate : await_forever; } };
template <class E> void merged_object(int kind, E ex, int n1, int n2) {
    probe a, b, p, z; gauge g{30, 2}, h{31, 2};
    {
        auto r = channel<void>(ex);
        auto r2 = channel<void>(ex);
        auto x = r | gen{&a, n1, kind ? std::vector<gauge*>{} : std::vector<gauge*>{&g}};
        auto y = r2 | gen{&b, n2, kind ? std::vector<gauge*>{} : std::vector<gauge*>{&h}};
        receiver<void> d; receiver<int> m;
        if (kind == 0) m = zip_with(ex, pair_sum{&p, &g, &h}, x, y);
        else if (kind == 1) m = merge_channel<round_robin_t>(ex, any_in{&p}, x, y); else m = merge_channel<unordered_t>(ex, any_in{&p}, x, y);
        d = m | sink{&z};
        m.set_ready(); x.set_ready(); y.set_ready(); r.set_ready(); r2.set_ready();
        mc_quiesce();
        int e = kind == 0 ? std::min(n1, n2) : kind == 1 ? std::min(2 * n1, 2 * n2 + 1) : n1 + n2;
        MC_CHECK(p.n == e && z.n == e, "%d results and %d at the end, expected %d", p.n, z.n, e);
        if (kind == 2) { MC_CHECK(a.n == n1 && b.n == n2, "%d and %d made", a.n, b.n); }
        g.limit = h.limit = 0; // nothing waits for a consumer that is gone
    }
    released();
}
MC_SCENARIO("C24,C22", merged_object_inline) { int k = mc_choose(3), n = mc_choose(5), m = mc_choose(5); merged_object(k, inline_ex{}, n, m); }
MC_SCENARIO("C24,C22", merged_object_zip, .mode = 2, .mode_thorough = 3) { workers w(2); merged_object(0, w.get(), 2, 3); }
MC_SCENARIO("C24,C22", merged_object_robin, .mode = 2, .mode_thorough = 3) { workers w(2); merged_object(1, w.get(), 2, 2); }
MC_SCENARIO("C24,C22", merged_object_any_a, .mode = 2, .mode_thorough = 3) { workers w(2); merged_object(2, w.get(), 3, 0); }
MC_SCENARIO("C24,C22", merged_object_any_b, .mode = 2, .mode_thorough = 3) { workers w(2); merged_object(2, w.get(), 0, 3); }
MC_SCENARIO("C24,C22", merged_object_any_ab, .mode = 2, .mode_thorough = 3) { workers w(2); merged_object(2, w.get(), 1, 2); }
MC_SCENARIO("C24", merged_bag, .mode = 1) {
    int kind = mc_choose(3);
    bag q; probe a, b, p; gauge g{30, 0};
    {
        auto r = channel<void>(q.e);
        auto r2 = channel<void>(q.e);
        auto x = r | gen{&a, 2, {}};
        auto y = r2 | gen{&b, 2, {}};
        ex_t e = q.e;
        receiver<void> d;
        if (kind == 0) d = zip_with(e, [&](int v, int) { p.put(v); }, x, y);
        else if (kind == 1) d = merge_channel<round_robin_t>(e, [&](int v) { p.put(v); }, x, y); else d = merge_channel<unordered_t>(e, [&](int v) { p.put(v); }, x, y);
        x.set_ready(); y.set_ready(); r.set_ready(); r2.set_ready();
        q.drive(0, [](int) {});
        MC_CHECK(p.n == (kind ? 4 : 2), "%d results", p.n);
    }
    released();
}
// a sender is never held up; what it sees of the buffer
MC_SCENARIO("C24", free_buffer_of_sender) {
    int bs = mc_choose(3); probe p;
    auto [s, r] = channel<int>(inline_ex{});
    auto d = r | (buffer_size(bs) & sink{&p});
    (void)bs;
    std::optional<size_t> f = s.free_buffer();
    MC_CHECK(f && *f == 1, "%zu", f.value_or(99));
    for (int i = 1; i < 4; ++i) { s(i); f = s.free_buffer(); MC_CHECK(f && *f == 0, "%zu slots free with %d values in a buffer of one", f.value_or(99), i); }
    r.set_ready();
    MC_CHECK(p.n == 3 && *s.free_buffer() == 1, "%d values, %zu free", p.n, *s.free_buffer());
}
