// shared pieces of the channel harnesses
#ifndef CHAN_H
#define CHAN_H
#define WANT_FUTURE
#include "common.h"
#include <stlab/concurrency/channel.hpp>
using stlab::await_forever;
using stlab::buffer_size;
using stlab::channel;
using stlab::executor;
using stlab::process_state;
using stlab::process_state_scheduled;
using stlab::receiver;
using stlab::sender;
using stlab::yield_immediate;
using ex_t = stlab::executor_t;

// one process: every call into it goes through enter()/leave(), plain memory watched by the race detector
struct probe {
    int busy = 0;
    int n = 0, got[16] = {};
    int closed = 0, errors = 0, last_error = 0, closed_at = -1;
    const char* in = "";
    void enter(const char* what) {
        MC_CHECK(busy == 0, "%s called while %s is running", what, in);
        busy = 1; in = what;
        mc_visible(this, 1);
    }
    void leave() { mc_visible(this, 1); busy = 0; }
    void put(int x) { MC_CHECK(n < 16, "too many values"); got[n++] = x; }
};
struct scoped { probe& p; scoped(probe& p, const char* w) : p(p) { p.enter(w); } ~scoped() { p.leave(); } };

template <class T> int value_of(const T& t) { if constexpr (std::is_same_v<T, int>) return t; else return t.v; }

// the last process of a chain
struct sink {
    probe* p; token t{70};
    template <class T> void operator()(T x) const { scoped s(*p, "sink"); p->put(value_of(x)); }
};
// a function process in the middle: adds k
struct adder {
    probe* p; int k; token t{70};
    int operator()(int x) const { scoped s(*p, "function"); p->put(x); return x + k; }
};
// a full process object: sums `group` values and yields the sum; gives a partial sum when closed
struct summer {
    probe* p; int group; int k = 0;
    token t{70};
    int sum = 0, cnt = 0; bool closing = false;
    process_state_scheduled st = await_forever;
    void await(int x) {
        scoped s(*p, "await");
        MC_CHECK(st.first == process_state::await, "await called on a process that does not await");
        MC_CHECK(!closing, "a value after close");
        p->put(x); sum += x; if (++cnt == group) st = yield_immediate;
    }
    int yield() {
        scoped s(*p, "yield");
        MC_CHECK(st.first == process_state::yield, "yield called on a process that awaits");
        int r = sum + k; sum = cnt = 0; st = await_forever;
        return r;
    }
    void set_error(std::exception_ptr e) { scoped s(*p, "set_error"); ++p->errors; p->last_error = err_code(e); p->closed_at = p->n; }
    void close() { scoped s(*p, "close"); ++p->closed; p->closed_at = p->n; closing = true; if (cnt) st = yield_immediate; }
    process_state_scheduled state() const { return st; }
};
// passes every value on (await/yield)
struct relay : summer { relay(probe* p, int k = 0) : summer{p, 1, k} {} };
// a process that only consumes
inline void expect_seq(const probe& p, int n, int first, int k = 1) {
    MC_CHECK(p.n == n, "%d values arrived, %d expected", p.n, n);
    for (int i = 0; i < n; ++i) MC_CHECK(p.got[i] == first + i * k, "value %d is %d, expected %d", i, p.got[i], first + i * k);
}
// waits (in virtual time)
inline void pass_time(long long ns) {
    std::mutex m; std::condition_variable c;
    std::unique_lock<std::mutex> l(m);
    c.wait_for(l, std::chrono::nanoseconds(ns));
}
// yields 1..n, then awaits for ever
struct source {
    probe* p; int n; int made = 0;
    token t{70};
    int yield() { scoped s(*p, "yield"); MC_CHECK(made < n, "yield called on a process that awaits"); mc_count(20, 1); p->put(made + 1); return ++made; }
    process_state_scheduled state() const { return made < n ? yield_immediate : await_forever; }
};
// a bag of tasks on one thread: drive() runs them in every order, interleaved with the scenario's own steps in theirs
struct bag {
    queue_ex e;
    template <class F> void drive(int ops, F op) {
        for (int i = 0;;) {
            int k = (int)e.size(), more = i < ops;
            if (!k && !more) return;
            int c = k + more == 1 ? 0 : mc_choose(k + more);
            if (c < k) e.run_one(c); else op(i++);
        }
    }
};
// a pool of worker threads, as an executor; joined and emptied at the end of the scenario
struct workers {
    std::mutex m; std::condition_variable c; std::vector<task_t> q; bool done = false; std::vector<std::thread> t;
    explicit workers(int n) { for (int i = 0; i < n; ++i) t.emplace_back([this] { run(); }); }
    void run() {
        while (true) {
            task_t f;
            { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return done || !q.empty(); }); if (q.empty()) return; f = std::move(q.front()); q.erase(q.begin()); }
            f();
        }
    }
    void stop() { { std::lock_guard<std::mutex> l(m); done = true; } c.notify_all(); for (auto& x : t) x.join(); t.clear(); }
    ~workers() { if (!t.empty()) stop(); }
    struct ex { workers* w; void operator()(task_t f) const { { std::lock_guard<std::mutex> l(w->m); w->q.push_back(std::move(f)); } w->c.notify_one(); } };
    ex get() { return ex{this}; }
};
#endif
