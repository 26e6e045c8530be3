// Shared pieces of the harnesses: value types, executors, oracles.
#ifndef COMMON_H
#define COMMON_H
#include "mc.h"
#include <array>
#include <condition_variable>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

// a copyable value whose reads, writes, moves and copies are all plain memory accesses that the engine watches
struct val {
    int v;
    explicit val(int x = 0) : v(x) { mc_count(900, 1); }
    val(const val& o) : v(o.v) { mc_count(900, 1); }
    val(val&& o) noexcept : v(o.v) { o.v = -1; mc_count(900, 1); }
    val& operator=(const val& o) { v = o.v; return *this; }
    val& operator=(val&& o) noexcept { int t = o.v; o.v = -1; v = t; return *this; }
    ~val() { v = -9; mc_count(900, -1); }
};
// move-only
struct mval {
    int v;
    explicit mval(int x = 0) : v(x) { mc_count(900, 1); }
    mval(mval&& o) noexcept : v(o.v) { o.v = -1; mc_count(900, 1); }
    mval& operator=(mval&& o) noexcept { int t = o.v; o.v = -1; v = t; return *this; }
    mval(const mval&) = delete;
    mval& operator=(const mval&) = delete;
    ~mval() { v = -9; mc_count(900, -1); }
};
// counts how many live copies of a captured token exist (counter k)
struct token {
    int k;
    explicit token(int k) : k(k) { mc_count(k, 1); }
    token(const token& o) : k(o.k) { mc_count(k, 1); }
    token(token&& o) noexcept : k(o.k) { mc_count(k, 1); }
    token& operator=(const token& o) { if (k != o.k) { mc_count(k, -1); k = o.k; mc_count(k, 1); } return *this; }
    ~token() { mc_count(k, -1); }
};
struct err {
    int code;
};
inline std::exception_ptr mkerr(int c) { return std::make_exception_ptr(err{c}); }

#ifdef WANT_FUTURE
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/immediate_executor.hpp>
#include <stlab/concurrency/ready_future.hpp>
using stlab::future;
using stlab::package;
using task_t = stlab::task<void() noexcept>;

template <class T> struct mk { static T make(int v) { return T(v); } static int get(const T& t) { return t.v; } };
template <> struct mk<int> { static int make(int v) { return v; } static int get(int t) { return t; } };
template <> struct mk<void> { static void make(int) {} };

// outcome of a ready future as an int: value, or 1000+code for err{code}, or -100 for a broken promise, -200 otherwise
inline int err_code(const std::exception_ptr& e) {
    try { std::rethrow_exception(e); }
    catch (const err& x) { return 1000 + x.code; }
    catch (const stlab::future_error& x) { return x.code() == stlab::future_error_codes::broken_promise ? -100 : -101; }
    catch (...) { return -200; }
}
constexpr int BROKEN = -100;
// exceptions of every kind a step may end with: the one that was thrown has to arrive, not a copy and nothing in its place
struct derived_error : stlab::future_error { derived_error() : stlab::future_error(stlab::future_error_codes::no_state) {} };
constexpr int N_EXC = 7;
inline std::exception_ptr any_exc(int kind) {
    switch (kind) {
    case 0: return mkerr(5);
    case 1: return std::make_exception_ptr(stlab::future_error(stlab::future_error_codes::no_state));
    case 2: return std::make_exception_ptr(stlab::future_error(stlab::future_error_codes::broken_promise));
    case 3: return std::make_exception_ptr(derived_error());
    case 4: return std::make_exception_ptr(42);
    case 5: return std::make_exception_ptr(std::bad_alloc());
    default: return std::make_exception_ptr(std::bad_function_call());
    }
}

template <class T> int outcome_of(future<T>&& f, int void_value = 0) {
    if (auto e = f.exception()) return err_code(e);
    if constexpr (std::is_void_v<T>) { (void)f.get_try(); return void_value; }
    else return mk<T>::get(*std::move(f).get_try());
}
template <class T> int outcome_of(const future<T>& f, int void_value = 0) {
    if (auto e = f.exception()) return err_code(e);
    if constexpr (std::is_void_v<T>) { f.get_ready(); return void_value; }
    else return mk<T>::get(f.get_ready());
}

// ---- executors
// runs the task at once, on the caller's thread; counts hand-overs in counter k
struct inline_ex {
    int k = 800;
    void operator()(task_t t) const { mc_count(k, 1); t(); }
};
// runs every task on a thread of its own
struct thread_ex {
    int k = 801;
    void operator()(task_t t) const {
        mc_count(k, 1);
        std::thread([t = std::move(t)]() mutable { t(); }).detach();
    }
};
// keeps tasks until the scenario runs or drops them
struct queue_state {
    std::mutex m;
    std::vector<task_t> q;
};
struct queue_ex {
    std::shared_ptr<queue_state> s = std::make_shared<queue_state>();
    void operator()(task_t t) const { std::lock_guard<std::mutex> l(s->m); s->q.push_back(std::move(t)); }
    size_t size() const { std::lock_guard<std::mutex> l(s->m); return s->q.size(); }
    task_t take(size_t i = 0) const {
        std::lock_guard<std::mutex> l(s->m);
        task_t t = std::move(s->q[i]);
        s->q.erase(s->q.begin() + i);
        return t;
    }
    bool run_one(size_t i = 0) const { if (i >= size()) return false; take(i)(); return true; }
    bool drop_one(size_t i = 0) const { if (i >= size()) return false; { auto t = take(i); } return true; }
    void run_all() const { while (run_one()) {} }
    void drop_all() const { while (drop_one()) {} }
};
// an executor that throws its task away
struct drop_ex {
    void operator()(task_t) const {}
};
#endif

// every other thread has finished or is blocked: nobody may be left
inline void all_done() {
    mc_quiesce();
    MC_CHECK(mc_threads_alive() == 1, "%d threads still blocked", mc_threads_alive() - 1);
}
#endif
