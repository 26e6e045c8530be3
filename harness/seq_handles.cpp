// PROPS: C35
// handles (futures, packaged tasks, senders, receivers) as values: every sequence of copies, moves, assignments, swaps, comparisons,
// resets and uses, against a reference model that knows what each handle refers to.   USES_LIB
#define WANT_FUTURE
#include "common.h"
#include <stlab/concurrency/channel.hpp>
#include <stlab/concurrency/ready_future.hpp>
using namespace stlab;

// ------------------------------------------------------------------ futures and their packaged tasks
struct hmo { int v; explicit hmo(int v) : v(v) {} hmo(hmo&& x) noexcept : v(x.v) { x.v = -1; } hmo& operator=(hmo&& x) noexcept { v = x.v; x.v = -1; return *this; } };
template <class T> struct hval;
template <> struct hval<int> { static int make(int k) { return k; } static bool is(const std::optional<int>& o, int k) { return o && *o == k; } };
template <> struct hval<hmo> { static hmo make(int k) { return hmo{k}; } static bool is(const std::optional<hmo>& o, int k) { return o && o->v == k; } };
template <> struct hval<void> { static void make(int) {} static bool is(bool o, int) { return o; } };

template <class T> struct fut_machine {
    using F = future<T>; using P = packaged_task<>;
    static constexpr bool copyable = !std::is_same_v<T, hmo>;
    static constexpr int S = 3, K = 12;
    enum { pending, ran, broken, failed };
    struct fn { int k; token t; fn(int k) : k(k), t(60 + 0) { mc_count(40 + k, 1); } fn(fn&& x) noexcept : k(x.k), t(std::move(x.t)) { mc_count(40 + k, 1); } ~fn() { mc_count(40 + k, -1); }
        T operator()() { mc_count(20 + k, 1); return hval<T>::make(k); } };
    F f[S]; int m[S] = {-1, -1, -1};         // what each future refers to, -1: nothing
    P p[2]; int pm[2] = {-1, -1};            // the same for the tasks
    int n = 0, state[K] = {}; bool detached[K] = {}, lost[K] = {}; 
    int refs(int k) const { int r = 0; for (int x : m) r += x == k; return r; }
    void abandon(int& slot) { if (slot >= 0 && state[slot] == pending) state[slot] = broken; slot = -1; }
    bool stop = false;
    void check() {
        for (int i = 0; i < S; ++i) {
            MC_CHECK(f[i].valid() == (m[i] >= 0), "future %d valid: %d", i, f[i].valid());
            for (int j = 0; j < S; ++j) {
                MC_CHECK((f[i] == f[j]) == (m[i] == m[j]), "futures %d and %d of %d and %d compare %d", i, j, m[i], m[j], f[i] == f[j]);
                MC_CHECK((f[i] != f[j]) == (m[i] != m[j]), "futures %d and %d of %d and %d compare unequal %d", i, j, m[i], m[j], f[i] != f[j]);
            }
            if (m[i] < 0) { MC_CHECK(!f[i].is_ready(), "an empty future is ready"); continue; }
            int st = state[m[i]];
            MC_CHECK(f[i].is_ready() == (st != pending), "future %d ready: %d, its task: %d", i, f[i].is_ready(), st);
            if (st == ran) {
                MC_CHECK(!f[i].exception(), "an exception");
                if constexpr (copyable) MC_CHECK(hval<T>::is(std::as_const(f[i]).get_try(), m[i]), "the value of %d", m[i]);
            } else if (st != pending) MC_CHECK(err_code(f[i].exception()) == (st == broken ? BROKEN : 1005), "the exception of %d: %d", m[i], err_code(f[i].exception()));
            else if constexpr (copyable) MC_CHECK(!std::as_const(f[i]).get_try(), "a value before the task ran");
        }
        for (int i = 0; i < 2; ++i) {
            // a task that was run, failed, or moved from refers to nothing
            bool c = pm[i] < 0 || (!refs(pm[i]) && !detached[pm[i]]);
            MC_CHECK(p[i].canceled() == c, "task %d of %d canceled: %d, futures: %d", i, pm[i], p[i].canceled(), pm[i] < 0 ? 0 : refs(pm[i]));
        }
        for (int k = 0; k < n; ++k) {
            bool alive = state[k] == pending && (refs(k) || detached[k]);
            MC_CHECK(mc_get(40 + k) == alive, "the function of %d: %ld alive, expected %d", k, mc_get(40 + k), alive);
            MC_CHECK(mc_get(20 + k) == (state[k] == ran && !lost[k]), "function %d ran %ld times", k, mc_get(20 + k));
        }
    }
    void op() {
        int o = mc_choose(11);
        switch (o) {
        case 0: { // a new pair, assigned over what was there
            int i = mc_choose(S), j = mc_choose(2), k = n++;
            auto [t, x] = package<T()>(inline_ex{}, fn{k});
            f[i] = std::move(x); m[i] = k;
            abandon(pm[j]); p[j] = std::move(t); pm[j] = k;
            break; }
        case 1: { int i = mc_choose(S), j = mc_choose(S); if (i == j) { F t = std::move(f[i]); f[i] = std::move(t); } else { f[i] = std::move(f[j]); m[i] = m[j]; m[j] = -1; } break; }
        case 2: { int i = mc_choose(S), j = i + mc_choose(S - i); if (mc_choose(2)) f[i].swap(f[j]); else { using std::swap; swap(f[i], f[j]); } std::swap(m[i], m[j]); break; }
        case 3: { int i = mc_choose(S); switch (mc_choose(3)) { case 0: f[i].reset(); break; case 1: f[i] = F(); break; default: { F t = std::move(f[i]); } } m[i] = -1; break; }
        case 4: // copies
            if constexpr (copyable) { int i = mc_choose(S), j = mc_choose(S); if (mc_choose(2)) f[i] = std::as_const(f[j]); else { F t{std::as_const(f[j])}; MC_CHECK(t == f[j] && t.valid() == f[j].valid(), "a copy differs"); f[i] = std::move(t); } m[i] = m[j]; }
            else stop = true;
            break;
        case 5: { int j = mc_choose(2); int k = pm[j]; bool live = k >= 0 && !p[j].canceled(); p[j](); if (live) { state[k] = ran; } else if (k >= 0) state[k] = broken; pm[j] = -1; break; }
        case 6: { int j = mc_choose(2); int k = pm[j]; p[j].set_exception(std::make_exception_ptr(err{5})); if (k >= 0) state[k] = failed; pm[j] = -1; break; }
        case 7: { int j = mc_choose(3); if (j == 2) { p[0] = std::move(p[1]); abandon(pm[0]); pm[0] = pm[1]; pm[1] = -1; } else { p[j] = P(); abandon(pm[j]); } break; }
        case 8: { std::swap(p[0], p[1]); std::swap(pm[0], pm[1]); break; }
        case 9: { int i = mc_choose(S); if (m[i] < 0) { stop = true; return; } f[i].detach(); if (state[m[i]] == pending) detached[m[i]] = true; break; }
        default: { // ready from the start
            int i = mc_choose(S), k = n++;
            switch (mc_choose(3)) {
            case 0: lost[k] = true; state[k] = ran; if constexpr (std::is_void_v<T>) f[i] = make_ready_future(inline_ex{}); else f[i] = make_ready_future(hval<T>::make(k), inline_ex{}); break;
            case 1: state[k] = failed; f[i] = make_exceptional_future<T>(std::make_exception_ptr(err{5}), inline_ex{}); break;
            default: state[k] = broken; f[i] = future_with_broken_promise<T>(inline_ex{}); break;
            }
            m[i] = k;
        } }
        check();
    }
    void run(int steps, bool prune) {
        check();
        for (int s = 0; s < steps && !stop; ++s) {
            op();
            if (prune) { // the same state, but for the names
                int id[K], c = 0; for (int& x : id) x = -1;
                uint64_t h = steps - s;
                auto add = [&](int k) { if (k >= 0 && id[k] < 0) id[k] = c++; h = h * 1000003 + (k < 0 ? 0 : 1 + id[k] + 32 * (state[k] * 4 + 2 * detached[k] + lost[k])); };
                for (int x : m) add(x); for (int x : pm) add(x);
                if (mc_seen(h)) break;
            }
        }
        // the values that are left come out of the last handle of each
        for (int i = 0; i < S; ++i) if (m[i] >= 0 && state[m[i]] == ran && refs(m[i]) == 1) MC_CHECK(hval<T>::is(std::move(f[i]).get_try(), m[i]), "the value of %d, moved out", m[i]);
    }
};
template <class T> static void futures(int steps, bool prune = false) {
    { fut_machine<T> x; x.run(steps, prune); }
    for (int k = 0; k < 12; ++k) MC_CHECK(mc_get(40 + k) == 0, "function %d is alive at the end", k);
}
MC_SCENARIO("C35", futures_int, .budget = 90) { futures<int>(2); }
MC_SCENARIO("C35", futures_int_states, .budget = 90) { futures<int>(5, true); }
MC_SCENARIO("C35", futures_int_long, .thorough_only = 1) { futures<int>(3); }
MC_SCENARIO("C35", futures_int_deep, .thorough_only = 1) { futures<int>(7, true); }
MC_SCENARIO("C35", futures_void, .budget = 90) { futures<void>(2); }
MC_SCENARIO("C35", futures_void_states, .budget = 90) { futures<void>(5, true); }
MC_SCENARIO("C35", futures_void_long, .thorough_only = 1) { futures<void>(3); }
MC_SCENARIO("C35", futures_void_deep, .thorough_only = 1) { futures<void>(7, true); }
MC_SCENARIO("C35", futures_move_only, .budget = 90) { futures<hmo>(2); }
MC_SCENARIO("C35", futures_move_only_states, .budget = 90) { futures<hmo>(5, true); }
MC_SCENARIO("C35", futures_move_only_long, .thorough_only = 1) { futures<hmo>(3); }
MC_SCENARIO("C35", futures_move_only_deep, .thorough_only = 1) { futures<hmo>(7, true); }

// ------------------------------------------------------------------ senders
struct rec { // counters: 20+k closed, 30+k values, 60+k alive
    int k; int* next; token t; 
    rec(int k, int* next) : k(k), next(next), t(60 + k) {}
    template <class X> void take(X& x) { MC_CHECK(mc_get(20 + k) == 0, "a value after close"); MC_CHECK(hval<std::decay_t<X>>::is(std::optional<std::decay_t<X>>(std::move(x)), *next), "the wrong value"); mc_count(30 + k, 1); }
    void close() { mc_count(20 + k, 1); }
    int yield() { return 0; }
    process_state_scheduled state() const { return await_forever; }
};
struct rec_int : rec { using rec::rec; void await(int x) { take(x); } };
struct rec_mo : rec { using rec::rec; void await(hmo x) { take(x); } };
template <class T> struct send_machine {
    static constexpr bool copyable = !std::is_same_v<T, hmo>;
    static constexpr int S = 3, C = 2;
    using R = std::conditional_t<copyable, rec_int, rec_mo>;
    sender<T> s[S]; int m[S] = {-1, -1, -1};
    std::optional<receiver<T>> r[C]; std::optional<receiver<int>> d[C];
    bool alive[C] = {1, 1}; int values[C] = {}, next = 0; bool closed[C] = {};
    int of(int i) const { return m[i] >= 0 && alive[m[i]] ? m[i] : -1; }   // what it still reaches
    bool stop = false;
    void check() {
        for (int i = 0; i < S; ++i) {
            for (int j = 0; j < S; ++j) {
                MC_CHECK((s[i] == s[j]) == (of(i) == of(j)), "senders %d and %d of %d and %d compare %d", i, j, of(i), of(j), s[i] == s[j]);
                MC_CHECK((s[i] != s[j]) == (of(i) != of(j)), "senders %d and %d of %d and %d compare unequal %d", i, j, of(i), of(j), s[i] != s[j]);
            }
            auto b = s[i].free_buffer();
            MC_CHECK(b.has_value() == (of(i) >= 0), "sender %d knows a buffer: %d", i, b.has_value());
        }
        for (int k = 0; k < C; ++k) {
            if (alive[k] && std::find(m, m + S, k) == m + S) closed[k] = true;
            MC_CHECK(mc_get(20 + k) == closed[k], "channel %d was closed %ld times, expected %d", k, mc_get(20 + k), closed[k]);
            MC_CHECK(mc_get(30 + k) == values[k], "channel %d has %ld values of %d", k, mc_get(30 + k), values[k]);
            if (!closed[k]) MC_CHECK(mc_get(60 + k) == alive[k], "process %d alive: %ld", k, mc_get(60 + k));
        }
    }
    uint64_t hash() const { uint64_t h = 1; for (int x : m) h = h * 31 + x + 1; for (int k = 0; k < C; ++k) h = h * 31 + alive[k] + 2 * closed[k] + 4 * std::min(values[k], 2); return h; }
    void op() {
        switch (mc_choose(7)) {
        case 0: { int i = mc_choose(S), j = mc_choose(S); if (i == j && mc_choose(2)) { auto& a = s[i]; s[i] = std::move(a); } else if (i == j) { auto t = std::move(s[i]); s[i] = std::move(t); } else { s[i] = std::move(s[j]); m[i] = m[j]; m[j] = -1; } break; }
        case 1: { int i = mc_choose(S), j = i + mc_choose(S - i); if (mc_choose(2)) s[i].swap(s[j]); else { using std::swap; swap(s[i], s[j]); } std::swap(m[i], m[j]); break; }
        case 2: { int i = mc_choose(S); switch (mc_choose(3)) { case 0: s[i].close(); break; case 1: s[i] = sender<T>(); break; default: { auto t = std::move(s[i]); } } m[i] = -1; break; }
        case 3: if constexpr (copyable) { int i = mc_choose(S), j = mc_choose(S), how = mc_choose(2);
                if (i == j || how) { sender<T> t{std::as_const(s[j])}; MC_CHECK(t == s[j], "a copy differs"); s[i] = std::move(t); } else s[i] = std::as_const(s[j]);
                m[i] = m[j]; } else stop = true;
            break;
        case 4: { int i = mc_choose(S); next++; int k = of(i); if (k >= 0) ++values[k]; s[i](hval<T>::make(next)); break; }
        case 5: { int k = mc_choose(C); if (!d[k]) { stop = true; return; } d[k].reset(); r[k].reset(); alive[k] = false; break; }
        default: { int i = mc_choose(S); s[i].close(); s[i].close(); m[i] = -1; break; }
        }
        check();
    }
    void run(int steps, bool prune) {
        for (int k = 0; k < C; ++k) {
            auto c = channel<T>(inline_ex{});
            s[k] = std::move(c.first); m[k] = k; r[k] = std::move(c.second);
            d[k] = *r[k] | R{k, &next};
            d[k]->set_ready();
            r[k]->set_ready();
        }
        check();
        for (int i = 0; i < steps && !stop; ++i) {
            op();
            if (prune && mc_seen(hash() * 1000003 + (steps - i))) break;
        }
    }
};
template <class T> static void senders(int steps, bool prune = false) {
    { send_machine<T> x; x.run(steps, prune); }
    MC_CHECK(mc_get(60) == 0 && mc_get(61) == 0, "a process is alive at the end");
}
MC_SCENARIO("C35", senders_int, .budget = 90) { senders<int>(3); }
MC_SCENARIO("C35", senders_int_states, .budget = 90) { senders<int>(7, true); }
MC_SCENARIO("C35", senders_int_long, .thorough_only = 1) { senders<int>(4); }
MC_SCENARIO("C35", senders_int_deep, .thorough_only = 1) { senders<int>(9, true); }
MC_SCENARIO("C35", senders_move_only, .budget = 90) { senders<hmo>(3); }
MC_SCENARIO("C35", senders_move_only_states, .budget = 90) { senders<hmo>(7, true); }
MC_SCENARIO("C35", senders_move_only_long, .thorough_only = 1) { senders<hmo>(4); }
MC_SCENARIO("C35", senders_move_only_deep, .thorough_only = 1) { senders<hmo>(9, true); }

// ------------------------------------------------------------------ receivers
template <class T> struct recv_machine {
    static constexpr int S = 3, C = 2;
    using R = std::conditional_t<!std::is_same_v<T, hmo>, rec_int, rec_mo>;
    receiver<T> r[S]; int m[S] = {-1, -1, -1}, ready[S] = {};   // 2: not known (moved from)
    std::optional<sender<T>> s[C]; std::optional<receiver<int>> d[C];
    int values[C] = {}, next = 0; bool started[C] = {};
    int attached = 0;
    bool stop = false;
    void check() {
        for (int i = 0; i < S; ++i) {
            for (int j = 0; j < S; ++j) {
                MC_CHECK((r[i] == r[j]) == (m[i] == m[j]), "receivers %d and %d of %d and %d compare %d", i, j, m[i], m[j], r[i] == r[j]);
                MC_CHECK((r[i] != r[j]) == (m[i] != m[j]), "receivers %d and %d of %d and %d compare unequal %d", i, j, m[i], m[j], r[i] != r[j]);
            }
            if (ready[i] != 2) MC_CHECK(r[i].ready() == ready[i], "receiver %d ready: %d", i, r[i].ready());
        }
        for (int k = 0; k < C; ++k) {
            bool wait = false;
            for (int i = 0; i < S; ++i) wait |= m[i] == k && !ready[i];
            started[k] |= !wait;
            MC_CHECK(mc_get(30 + k) == (started[k] ? values[k] : 0), "%ld of %d values came through channel %d, which is %s", mc_get(30 + k), values[k], k, started[k] ? "ready" : "not ready");
            MC_CHECK(mc_get(20 + k) == 0, "closed");
        }
    }
    // attaching to a receiver that is empty or ready fails, and does nothing
    void attach(int i) {
        bool ok = m[i] >= 0 && !ready[i]; int e = 0;
        try { auto h = r[i] | [t = token(62)](T) {}; } catch (const channel_error& x) { e = x.code() == channel_error_codes::broken_channel ? 1 : 2; }
        MC_CHECK(e == (ok ? 0 : m[i] < 0 ? 1 : 2), "attaching to receiver %d of %d, ready %d: error %d", i, m[i], ready[i], e);
    }
    uint64_t hash() const { uint64_t h = 1; for (int i = 0; i < S; ++i) h = h * 31 + (m[i] + 1) * 3 + ready[i]; for (int k = 0; k < C; ++k) h = h * 31 + started[k] + 2 * values[k]; return h; }
    void op() {
        switch (mc_choose(7)) {
        case 0: { int i = mc_choose(S), j = mc_choose(S); if (i == j && mc_choose(2)) { auto& a = r[i]; r[i] = std::move(a); if (m[i] < 0) ready[i] = 2; } else if (i == j) { auto t = std::move(r[i]); r[i] = std::move(t); }
                  else { r[i] = std::move(r[j]); m[i] = m[j]; ready[i] = ready[j]; m[j] = -1; ready[j] = 2; } break; }
        case 1: { int i = mc_choose(S), j = i + mc_choose(S - i); if (mc_choose(2)) r[i].swap(r[j]); else { using std::swap; swap(r[i], r[j]); } std::swap(m[i], m[j]); std::swap(ready[i], ready[j]); break; }
        case 2: { int i = mc_choose(S); if (mc_choose(2)) { r[i] = receiver<T>(); ready[i] = 0; } else { { auto t = std::move(r[i]); } ready[i] = 2; } m[i] = -1; break; }
        case 3: { int i = mc_choose(S), j = mc_choose(S), how = mc_choose(2);
                  if (i == j || how) { receiver<T> t{std::as_const(r[j])}; MC_CHECK(t == r[j] && t.ready() == r[j].ready(), "a copy differs"); r[i] = std::move(t); } else r[i] = std::as_const(r[j]);
                  m[i] = m[j]; ready[i] = ready[j]; break; }
        case 4: { int k = mc_choose(C); if (values[k]) { stop = true; return; } ++values[k]; (*s[k])(hval<T>::make(next)); break; }
        case 5: { int i = mc_choose(S); r[i].set_ready(); ready[i] = 1; break; }
        default: { int i = mc_choose(S); if (std::is_same_v<T, hmo> && m[i] >= 0 && !ready[i]) { stop = true; return; } attach(i); }
        }
        check();
    }
    void run(int steps, bool prune) {
        for (int k = 0; k < C; ++k) {
            auto c = channel<T>(inline_ex{});
            s[k] = std::move(c.first); r[k] = std::move(c.second); m[k] = k;
            d[k] = r[k] | R{k, &next};
            d[k]->set_ready();
        }
        check();
        for (int i = 0; i < steps && !stop; ++i) {
            op();
            if (prune && mc_seen(hash() * 1000003 + (steps - i))) break;
        }
    }
};
template <class T> static void receivers(int steps, bool prune = false) {
    { recv_machine<T> x; x.run(steps, prune); }
    MC_CHECK(mc_get(60) == 0 && mc_get(61) == 0 && mc_get(62) == 0, "a process is alive at the end");
}
MC_SCENARIO("C35", receivers_int, .budget = 90) { receivers<int>(3); }
MC_SCENARIO("C35", receivers_int_states, .budget = 90) { receivers<int>(6, true); }
MC_SCENARIO("C35", receivers_int_deep, .thorough_only = 1) { receivers<int>(8, true); }
MC_SCENARIO("C35", receivers_move_only, .budget = 90) { receivers<hmo>(3); }
MC_SCENARIO("C35", receivers_move_only_states, .budget = 90) { receivers<hmo>(6, true); }
MC_SCENARIO("C35", receivers_move_only_deep, .thorough_only = 1) { receivers<hmo>(8, true); }
