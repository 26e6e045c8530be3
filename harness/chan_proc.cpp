// PROPS: C25 C19 C20 C22 C33
// process objects: the await / yield / state / close protocol, with timeouts
#include "chan.h"
#include <stlab/concurrency/default_executor.hpp>
using namespace stlab;
using std::chrono::nanoseconds;

constexpr long long D = 10, FOREVER = 0x7fffffffffffffffll;
enum menu_t { FOREVER_ = 1, YIELD = 2, TIMED = 4, DELAYED = 8, TRY = 16, AT_ONCE = 32, THROWS = 64 };
// the process chooses its next state after every call; every sequence of choices is explored
struct script {
    int menu = 0, budget = 0;
    probe p;                     // what it was given, who is in it
    process_state_scheduled st = await_forever;
    long long since = 0;
    int yielded = 0, thrown = 0, closed = 0, dead = 0, woken = 0;
    const int* sent = nullptr;   // if set: values sent so far (same thread), for await_try
    long long prompt = -1;       // if set: the time of every send (time passes only when nothing else can happen), values do not wait for a timeout
    bool exact = false;          // time passes only when nothing else can happen: wakes are punctual
    void choose() {
        since = mc_now();
        st = await_forever;
        if (budget <= 0) return;
        process_state_scheduled o[6]; int n = 0;
        auto add = [&](int k, process_state s, nanoseconds d) { if (menu & k) o[n++] = {s, d}; };
        add(FOREVER_, process_state::await, nanoseconds::max());
        add(YIELD, process_state::yield, nanoseconds::min());
        add(TIMED, process_state::await, nanoseconds(D));
        add(DELAYED, process_state::yield, nanoseconds(D));
        add(TRY, process_state::await, nanoseconds::min());
        add(AT_ONCE, process_state::await, nanoseconds(0));
        st = o[n == 1 ? 0 : mc_choose(n)];
        if (st.first != process_state::await || st.second != nanoseconds::max()) --budget;
    }
};
struct machine {
    script* s; token t{70};
    void await(int x) {
        scoped g(s->p, "await");
        MC_CHECK(s->st.first == process_state::await, "await called on a process that yields");
        MC_CHECK(!s->closed, "await called after close");
        MC_CHECK(s->prompt < 0 || mc_now() == s->prompt, "value %d was given to the process %lld ns after it was sent", x, mc_now() - s->prompt);
        s->p.put(x);
        s->choose();
        if ((s->menu & THROWS) && mc_choose(2)) { ++s->thrown; throw err{s->thrown}; }
    }
    int yield() {
        scoped g(s->p, "yield");
        if (s->exact && s->st.second.count() > 0 && s->st.second.count() != FOREVER) MC_CHECK(mc_now() <= s->since + s->st.second.count(), "yield %lld ns late", mc_now() - s->since - s->st.second.count());
        long long d = s->st.second.count();
        if (s->st.first == process_state::yield) { if (d > 0) MC_CHECK(mc_now() >= s->since + d, "yield %lld ns before the time that the process asked for", s->since + d - mc_now()); }
        else {
            MC_CHECK(d != FOREVER, "yield called on a process that awaits a value");
            if (d >= 0) MC_CHECK(mc_now() >= s->since + d, "woken %lld ns before its timeout", s->since + d - mc_now());
            else if (s->sent) MC_CHECK(s->p.n == *s->sent, "yield although a value was available");
            ++s->woken;
        }
        s->choose();
        if ((s->menu & THROWS) && mc_choose(2)) { ++s->thrown; throw err{s->thrown}; }
        return ++s->yielded;
    }
    void close() {
        scoped g(s->p, "close");
        MC_CHECK(!s->closed, "closed twice");
        s->closed = 1;
        s->choose();
    }
    process_state_scheduled state() const { return s->st; }
};
struct err_sink {
    probe* p; bool y = false; token t{70};
    void await(int x) { scoped s(*p, "sink"); p->put(x); }
    void set_error(std::exception_ptr) { scoped s(*p, "sink error"); ++p->errors; }
    int yield() { mc_fail("the sink does not yield"); return 0; }
    void close() { scoped s(*p, "sink close"); ++p->closed; }
    process_state_scheduled state() const { return await_forever; }
};
static void drain(bag* q) { for (int i = 0; i < 12; ++i) { if (q) q->drive(0, [](int) {}); mc_quiesce(); pass_time(D); mc_quiesce(); } if (q) q->drive(0, [](int) {}); mc_quiesce(); }
static void settled(script& s, probe& z, int sent, bool closed) {
    MC_CHECK(s.p.n == sent, "%d of %d values were given to the process", s.p.n, sent);
    for (int i = 0; i < sent; ++i) MC_CHECK(s.p.got[i] == i + 1, "value %d is %d", i + 1, s.p.got[i]);
    expect_seq(z, s.yielded, 1);
    MC_CHECK(z.errors == s.thrown, "%d exceptions were thrown, %d arrived", s.thrown, z.errors);
    // a process with an input starts with its first value or its close
    MC_CHECK(s.st.first != process_state::yield || (!sent && !closed), "the process was not asked for the value that it has");
    MC_CHECK(s.closed == closed, "close called %d times, closed %d", s.closed, closed);
    if (!closed) MC_CHECK(s.st.second == nanoseconds::max() || !s.p.n, "the process was not woken at its timeout");
    MC_CHECK(z.closed == closed, "the next process was closed %d times", z.closed);
}
// single thread: programs of sends, waits and a close, against all scripts
template <class E> void program(E ex, bag* q, int menu, int budget, int len, bool timers, bool initial = false) {
    script s; probe z; int sent = 0; bool closed = false;
    s.menu = menu; s.budget = budget;
    s.exact = !q && !initial;
    if (initial) s.choose();
    if (!timers) s.sent = &sent;
    {
        auto [snd, r] = channel<int>(inline_ex{});
        auto m = r | (executor{ex} & machine{&s});
        auto d = m | (executor{inline_ex{}} & err_sink{&z});
        d.set_ready(); m.set_ready(); r.set_ready();
        auto op = [&, &snd = snd](int) {
            switch (closed ? (timers ? 2 : 3) : mc_choose(timers ? 3 : 2)) {
            case 0: ++sent; snd(sent); break;
            case 1: snd.close(); closed = true; break;
            case 2: mc_quiesce(); pass_time(D); break;
            default: ;
            }
        };
        if (q) q->drive(len, op); else for (int i = 0; i < len; ++i) op(i);
        drain(timers ? q : q);
        settled(s, z, sent, closed);
        if (closed) MC_CHECK(mc_get(70) == 0, "a closed process is alive");
    }
    drain(q);
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C25,C33", inline_plain, .mode = 1, .timeouts = 0) { program(inline_ex{}, nullptr, FOREVER_ | YIELD | TRY, 4, 4, false); }
MC_SCENARIO("C25,C33", inline_throws, .mode = 1, .timeouts = 0) { program(inline_ex{}, nullptr, FOREVER_ | YIELD | THROWS, 3, 3, false); }
MC_SCENARIO("C25,C33", inline_timed, .mode = 1, .timeouts = 0) { program(inline_ex{}, nullptr, FOREVER_ | YIELD | TIMED | DELAYED, 2, 3, true); }
MC_SCENARIO("C25", inline_timed_4, .mode = 1, .timeouts = 0) { program(inline_ex{}, nullptr, FOREVER_ | TIMED, 3, 4, true); }
MC_SCENARIO("C25", inline_delayed_4, .mode = 1, .timeouts = 0) { program(inline_ex{}, nullptr, YIELD | DELAYED, 3, 4, true); }
MC_SCENARIO("C25", inline_try, .mode = 1, .timeouts = 0) { program(inline_ex{}, nullptr, TRY | AT_ONCE | TIMED, 2, 3, true); }
MC_SCENARIO("C25", inline_all, .mode = 1, .timeouts = 0, .thorough_only = 1) { program(inline_ex{}, nullptr, FOREVER_ | YIELD | TIMED | DELAYED | TRY | AT_ONCE, 3, 4, true); }
MC_SCENARIO("C25,C20,C33", bag_plain, .mode = 1, .timeouts = 0) { bag q; program(q.e, &q, FOREVER_ | YIELD | TRY, 4, 3, false); }
MC_SCENARIO("C25,C20,C33", bag_timed, .mode = 1, .timeouts = 0) { bag q; program(q.e, &q, FOREVER_ | TIMED, 2, 4, true); }
MC_SCENARIO("C25,C20", bag_delayed, .mode = 1, .timeouts = 0) { bag q; program(q.e, &q, YIELD | DELAYED | TIMED, 2, 3, true); }

MC_SCENARIO("C25", inline_initial, .mode = 1, .timeouts = 0) { program(inline_ex{}, nullptr, FOREVER_ | YIELD | TIMED | DELAYED, 3, 3, true, true); }
MC_SCENARIO("C25", bag_initial, .mode = 1, .timeouts = 0) { bag q; program(q.e, &q, FOREVER_ | YIELD | TIMED | DELAYED, 2, 3, true, true); }
MC_SCENARIO("C25", inline_throws_timed, .mode = 1, .timeouts = 0) { program(inline_ex{}, nullptr, YIELD | TIMED | DELAYED | THROWS, 2, 3, true); }
MC_SCENARIO("C25", bag_all, .mode = 1, .timeouts = 0, .thorough_only = 1) { bag q; program(q.e, &q, FOREVER_ | YIELD | TIMED | DELAYED | TRY | AT_ONCE, 2, 4, true, true); }

// a generator: yields n values, each after its own delay
struct ticker {
    probe* p; int n; int delays; int made = 0; token t{70};
    process_state_scheduled st = await_forever;
    long long since = 0; bool exact = false;
    void choose() {
        since = mc_now();
        if (made == n) { st = await_forever; return; }
        int k = mc_choose(delays);
        st = k ? process_state_scheduled{process_state::yield, nanoseconds(k * D)} : yield_immediate;
    }
    ticker(probe* p, int n, int delays, bool exact = false) : p(p), n(n), delays(delays), exact(exact) { choose(); }
    int yield() {
        scoped s(*p, "yield");
        MC_CHECK(made < n, "yield called on a process that awaits");
        long long due = st.second.count() > 0 ? since + st.second.count() : 0;
        MC_CHECK(mc_now() >= due, "yield %lld ns early", due - mc_now());
        if (exact && due && made) MC_CHECK(mc_now() == due, "yield %lld ns late", mc_now() - due);
        ++made; choose();
        return made;
    }
    process_state_scheduled state() const { return st; }
};
template <class E> void ticks(E ex, bag* q, int n, int delays) {
    probe a, z;
    {
        auto r = channel<void>(inline_ex{});
        auto m = r | (executor{ex} & ticker{&a, n, delays, !q});
        auto d = m | (executor{inline_ex{}} & sink{&z});
        MC_CHECK(z.n == 0, "a value before the process was ready");
        m.set_ready(); r.set_ready();
        drain(q);
        expect_seq(z, n, 1);
    }
    drain(q);
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C25,C33", ticks_inline, .mode = 1, .timeouts = 0) { ticks(inline_ex{}, nullptr, 4, 3); }
MC_SCENARIO("C25,C33", ticks_bag, .mode = 1, .timeouts = 0) { bag q; ticks(q.e, &q, 4, 3); }
MC_SCENARIO("C25,C33", ticks_workers, .mode = 2, .mode_thorough = 3, .timeouts = 1) { workers w(2); ticks(w.get(), nullptr, 2, 2); }

// a timed accumulator under real threads: the timeout may expire at any moment between and during the sends
template <class E> void race(E ex, int menu, int budget, int sends, int closes, int senders, int back, bool prompt = false) {
    script s; probe z; bool closed = false;
    s.menu = menu; s.budget = budget; if (prompt) s.prompt = mc_now();
    {
        auto [snd, r] = channel<int>(inline_ex{});
        auto m = r | (executor{ex} & machine{&s});
        auto d = m | (executor{back ? ex_t(ex) : ex_t(inline_ex{})} & err_sink{&z});
        d.set_ready(); m.set_ready(); r.set_ready();
        if (senders == 1) for (int i = 0; i < sends; ++i) snd(i + 1);
        else {
            std::vector<std::thread> t;
            for (int k = 0; k < senders; ++k) t.emplace_back([&, k, snd2 = snd] { for (int i = 0; i < sends; ++i) snd2(10 * (k + 1) + i); });
            for (auto& x : t) x.join();
        }
        if (closes) { snd.close(); closed = true; }
        drain(nullptr);
        MC_CHECK(s.p.n == sends * senders, "%d of %d values were given to the process", s.p.n, sends * senders);
        if (senders == 1) for (int i = 0; i < sends; ++i) MC_CHECK(s.p.got[i] == i + 1, "value %d is %d", i + 1, s.p.got[i]);
        expect_seq(z, s.yielded, 1);
        MC_CHECK(s.st.first != process_state::yield, "the process was not asked for the value that it has");
        MC_CHECK(s.closed == closed && z.closed == closed, "close called %d, %d times", s.closed, z.closed);
        if (!closed) MC_CHECK(s.st.second == nanoseconds::max(), "the process was not woken at its timeout");
        if (closed) MC_CHECK(mc_get(70) == 0, "a closed process is alive");
    }
    drain(nullptr);
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C25,C20,C33", race_timed_2, .mode = 3, .mode_thorough = 4, .timeouts = 1) { race(inline_ex{}, TIMED, 1, 2, 0, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_timed_3, .mode = 2, .mode_thorough = 3, .timeouts = 1) { race(inline_ex{}, FOREVER_ | TIMED, 2, 3, 0, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_timed_w, .mode = 2, .mode_thorough = 3, .timeouts = 1) { workers w(2); race(w.get(), TIMED, 1, 2, 0, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_timed_2w, .mode = 1, .mode_thorough = 2, .timeouts = 1) { workers w(2); race(w.get(), FOREVER_ | TIMED, 2, 3, 0, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_timed_close, .mode = 2, .mode_thorough = 3, .timeouts = 1) { workers w(2); race(w.get(), TIMED, 1, 1, 1, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_timed_close_2, .mode = 2, .mode_thorough = 3, .timeouts = 1) { race(inline_ex{}, TIMED, 2, 2, 1, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_delayed, .mode = 2, .mode_thorough = 3, .timeouts = 1) { workers w(2); race(w.get(), DELAYED, 1, 2, 1, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_delayed_2, .mode = 2, .mode_thorough = 3, .timeouts = 1) { race(inline_ex{}, DELAYED | TIMED, 2, 2, 0, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_try, .mode = 2, .mode_thorough = 3, .timeouts = 1) { workers w(2); race(w.get(), TRY | AT_ONCE, 2, 2, 0, 1, 0); }
MC_SCENARIO("C25,C20,C33", race_senders, .mode = 2, .mode_thorough = 3, .timeouts = 1) { race(inline_ex{}, TIMED, 1, 1, 0, 2, 0); }
MC_SCENARIO("C25,C20,C33", race_senders_w, .mode = 1, .mode_thorough = 2, .timeouts = 1) { workers w(2); race(w.get(), TIMED, 2, 1, 0, 2, 0); }
MC_SCENARIO("C25,C20,C33", race_back, .mode = 2, .mode_thorough = 3, .timeouts = 1) { workers w(2); race(w.get(), YIELD | TIMED, 2, 2, 0, 1, 1); }
MC_SCENARIO("C25,C19,C20,C33", prompt_w, .mode = 3, .mode_thorough = 4, .timeouts = 0) { workers w(1); race(w.get(), TIMED, 1, 2, 0, 1, 0, true); }
MC_SCENARIO("C25,C19,C20,C33", prompt_2w, .mode = 2, .mode_thorough = 3, .timeouts = 0) { workers w(2); race(w.get(), FOREVER_ | TIMED, 2, 2, 0, 1, 0, true); }
MC_SCENARIO("C25,C20,C33", prompt_senders, .mode = 2, .mode_thorough = 3, .timeouts = 0) { race(inline_ex{}, TIMED, 1, 1, 0, 2, 0, true); }
MC_SCENARIO("C25,C20,C33", race_plain, .mode = 2, .mode_thorough = 3, .timeouts = 0) { workers w(2); race(w.get(), FOREVER_ | YIELD, 2, 2, 1, 1, 1); }

// function_process: one call per value, in order
template <class E> void fun(E ex, bag* q, int n) {
    probe a, z;
    {
        auto [snd, r] = channel<int>(inline_ex{});
        auto m = r | (executor{ex} & function_process<int(int)>{[&a, t = token(70)](int x) { scoped s(a, "function"); a.put(x); return 2 * x; }});
        auto d = m | (executor{inline_ex{}} & sink{&z});
        m.set_ready(); r.set_ready();
        if (q) q->drive(n, [&, &snd = snd](int i) { snd(i + 1); });
        else for (int i = 0; i < n; ++i) snd(i + 1);
        mc_quiesce();
        expect_seq(a, n, 1); expect_seq(z, n, 2, 2);
    }
    if (q) q->drive(0, [](int) {});
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C25,C33", function_inline) { fun(inline_ex{}, nullptr, mc_choose(5)); }
MC_SCENARIO("C25,C33", function_bag, .mode = 1) { bag q; fun(q.e, &q, 4); }
MC_SCENARIO("C25,C33", function_workers, .mode = 3, .mode_thorough = 4) { workers w(2); fun(w.get(), nullptr, 2); }
// an accumulator of pairs behind a zip
struct pairs {
    probe* p; int group; int sum = 0, cnt = 0; bool over = false; token t{70};
    process_state_scheduled st = await_forever;
    void await(int a, int b) {
        scoped s(*p, "await");
        MC_CHECK(st.first == process_state::await, "await called on a process that does not await");
        MC_CHECK(a == b, "%d with %d", a, b);
        p->put(a); sum += a + b; if (++cnt == group) st = yield_immediate;
    }
    int yield() { scoped s(*p, "yield"); MC_CHECK(st.first == process_state::yield, "yield called on a process that awaits"); int r = sum; sum = cnt = 0; st = await_forever; return r; }
    void close() { scoped s(*p, "close"); ++p->closed; if (cnt) st = yield_immediate; }
    process_state_scheduled state() const { return st; }
};
template <class E> void zipped(E ex, bag* q, int n, int group, bool closes) {
    probe a, z;
    {
        auto [s1, r1] = channel<int>(inline_ex{});
        auto [s2, r2] = channel<int>(inline_ex{});
        auto m = zip_with(ex_t(ex), pairs{&a, group}, r1, r2);
        auto d = m | (executor{inline_ex{}} & sink{&z});
        m.set_ready(); r1.set_ready(); r2.set_ready();
        int i = 0, j = 0;
        auto op = [&, &s1 = s1, &s2 = s2](int) { if (i < n && (j == n || mc_choose(2))) s1(++i); else s2(++j); };
        if (q) q->drive(2 * n, op); else for (int k = 0; k < 2 * n; ++k) op(k);
        if (closes) { s1.close(); s2.close(); }
        if (q) q->drive(0, [](int) {});
        mc_quiesce();
        expect_seq(a, n, 1);
        int full = n / group, rest = closes && n % group;
        MC_CHECK(z.n == full + rest, "%d sums, expected %d", z.n, full + rest);
        int want = 0, got = 0;
        for (int k = 1; k <= (rest ? n : full * group); ++k) want += 2 * k;
        for (int k = 0; k < z.n; ++k) got += z.got[k];
        MC_CHECK(got == want, "the sums add up to %d, expected %d", got, want);
        MC_CHECK(a.closed == closes, "closed %d times", a.closed);
    }
    if (q) q->drive(0, [](int) {});
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C25,C22,C33", zip_inline, .mode = 1) { int g = 1 + mc_choose(2), c = mc_choose(2); zipped(inline_ex{}, nullptr, 3, g, c); }
MC_SCENARIO("C25,C22,C33", zip_bag, .mode = 1) { bag q; int g = 1 + mc_choose(2), c = mc_choose(2); zipped(q.e, &q, 2, g, c); }
MC_SCENARIO("C25,C22,C33", zip_workers, .mode = 2, .mode_thorough = 3) { workers w(2); zipped(w.get(), nullptr, 2, 2, true); }
// an accumulator behind a round robin or unordered merge
template <class E> void accumulated(E ex, bag* q, int n, int group, bool robin, bool closes) {
    probe a, z;
    {
        auto [s1, r1] = channel<int>(inline_ex{});
        auto [s2, r2] = channel<int>(inline_ex{});
        receiver<int> m = robin ? merge_channel<round_robin_t>(ex_t(ex), summer{&a, group}, r1, r2) : merge_channel<unordered_t>(ex_t(ex), summer{&a, group}, r1, r2);
        auto d = m | (executor{inline_ex{}} & sink{&z});
        m.set_ready(); r1.set_ready(); r2.set_ready();
        int i = 0, j = 0;
        auto op = [&, &s1 = s1, &s2 = s2](int) { if (i < n && (j == n || mc_choose(2))) { ++i; s1(2 * i - 1); } else { ++j; s2(2 * j); } };
        if (q) q->drive(2 * n, op); else for (int k = 0; k < 2 * n; ++k) op(k);
        if (closes) { s1.close(); s2.close(); }
        if (q) q->drive(0, [](int) {});
        mc_quiesce();
        MC_CHECK(a.n == 2 * n, "%d values arrived, %d expected", a.n, 2 * n);
        if (robin) for (int k = 0; k < a.n; ++k) MC_CHECK(a.got[k] == k + 1, "value %d is %d", k, a.got[k]);
        int full = 2 * n / group, rest = closes && 2 * n % group, want = 0, got = 0;
        MC_CHECK(z.n == full + rest, "%d sums, expected %d", z.n, full + rest);
        for (int k = 0; k < (rest ? 2 * n : full * group); ++k) want += a.got[k];
        for (int k = 0; k < z.n; ++k) got += z.got[k];
        MC_CHECK(got == want, "the sums add up to %d, expected %d", got, want);
        MC_CHECK(a.closed == closes, "closed %d times", a.closed);
    }
    if (q) q->drive(0, [](int) {});
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0, "%ld process objects alive", mc_get(70));
}
MC_SCENARIO("C25,C22,C33", merge_inline, .mode = 1) { int g = 1 + mc_choose(3), c = mc_choose(2), r = mc_choose(2); accumulated(inline_ex{}, nullptr, 3, g, r, c); }
MC_SCENARIO("C25,C22,C33", merge_bag, .mode = 1) { bag q; int g = 1 + mc_choose(3), c = mc_choose(2), r = mc_choose(2); accumulated(q.e, &q, 2, g, r, c); }
MC_SCENARIO("C25,C22,C33", merge_workers, .mode = 2, .mode_thorough = 3) { int r = mc_choose(2); workers w(2); accumulated(w.get(), nullptr, 2, 3, r, true); }
