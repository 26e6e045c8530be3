// litmus programs with known answers for the engine itself
#include "mc.h"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
using namespace std;
MC_SCENARIO("SELF", two_writers) { // 2 traces, 2 outcomes
    atomic<int> x{0}; thread a([&] { x.store(1); }); thread b([&] { x.store(2); }); a.join(); b.join(); mc_outcome("%d", x.load());
}
MC_SCENARIO("SELF", lost_update) {
    atomic<int> x{0}; auto f = [&] { int v = x.load(); x.store(v + 1); }; thread a(f), b(f); a.join(); b.join(); mc_outcome("%d", x.load());
}
MC_SCENARIO("SELF", lost_update3) {
    atomic<int> x{0}; auto f = [&] { int v = x.load(); x.store(v + 1); }; thread a(f), b(f), c(f); a.join(); b.join(); c.join(); mc_outcome("%d", x.load());
}
MC_SCENARIO("SELF", sb) { // SC: 3 outcomes
    atomic<int> x{0}, y{0}; int r1 = 0, r2 = 0; thread a([&] { x = 1; r1 = y; }); thread b([&] { y = 1; r2 = x; }); a.join(); b.join(); mc_outcome("%d%d", r1, r2);
}
MC_SCENARIO("SELF", mutex3) { // 6 traces
    mutex m; int c = 0; vector<int> o; auto f = [&](int i) { lock_guard<mutex> l(m); o.push_back(i); ++c; };
    thread a(f, 1), b(f, 2), d(f, 3); a.join(); b.join(); d.join(); mc_outcome("%d%d%d", o[0], o[1], o[2]);
}
MC_SCENARIO("SELF", mutex2x2) { // 6 traces
    mutex m; vector<int> o; auto f = [&](int i) { for (int k = 0; k < 2; ++k) { lock_guard<mutex> l(m); o.push_back(i); } };
    thread a(f, 1), b(f, 2); a.join(); b.join(); mc_outcome("%d%d%d%d", o[0], o[1], o[2], o[3]);
}
MC_SCENARIO("SELF", independent) { // 1 trace
    atomic<int> x{0}, y{0}; thread a([&] { for (int i = 0; i < 5; ++i) x.store(i); }); thread b([&] { for (int i = 0; i < 5; ++i) y.store(i); }); a.join(); b.join();
}
MC_SCENARIO("SELF", trylock) { // outcomes 00? both succeed sequentially or one fails
    mutex m; int r[2] = {0, 0}; auto f = [&](int i) { if (m.try_lock()) { r[i] = 1; m.unlock(); } };
    thread a(f, 0), b(f, 1); a.join(); b.join(); mc_outcome("%d%d", r[0], r[1]);
}
MC_SCENARIO("SELFBAD", deadlock_ab) {
    mutex m, n; thread a([&] { lock_guard<mutex> l(m); lock_guard<mutex> k(n); }); thread b([&] { lock_guard<mutex> l(n); lock_guard<mutex> k(m); }); a.join(); b.join();
}
MC_SCENARIO("SELFBAD", race_plain) { int x = 0; thread a([&] { x = 1; }); thread b([&] { x = 2; }); a.join(); b.join(); }
MC_SCENARIO("SELFBAD", race_relaxed) { // publication with relaxed store
    int x = 0; atomic<int> f{0}; thread a([&] { x = 1; f.store(1, memory_order_relaxed); }); thread b([&] { if (f.load(memory_order_acquire)) mc_outcome("%d", x); }); a.join(); b.join();
}
MC_SCENARIO("SELF", publish_ok) { int x = 0; atomic<int> f{0}; thread a([&] { x = 1; f.store(1, memory_order_release); }); thread b([&] { if (f.load(memory_order_acquire)) mc_outcome("%d", x); }); a.join(); b.join(); }
MC_SCENARIO("SELFBAD", lost_wakeup) { // notification before the wait, predicate not under the lock
    mutex m; condition_variable c; atomic<bool> r{false};
    thread a([&] { unique_lock<mutex> l(m); if (!r) c.wait(l); }); thread b([&] { r = true; c.notify_one(); }); a.join(); b.join();
}
MC_SCENARIO("SELF", cv_ok) {
    mutex m; condition_variable c; bool r{false};
    thread a([&] { unique_lock<mutex> l(m); while (!r) c.wait(l); }); thread b([&] { { lock_guard<mutex> l(m); r = true; } c.notify_one(); }); a.join(); b.join();
}
MC_SCENARIO("SELF", cv_timed) {
    mutex m; condition_variable c; bool r{false};
    thread a([&] { unique_lock<mutex> l(m); bool ok = c.wait_for(l, chrono::seconds(1), [&] { return r; }); mc_outcome("%d", ok); }); thread b([&] { { lock_guard<mutex> l(m); r = true; } c.notify_one(); }); a.join(); b.join();
}
MC_SCENARIO("SELF", shared_ptr2) { // increments and decrements commute
    auto p = make_shared<int>(1); thread a([q = p] { auto r = q; }); thread b([q = p] { auto r = q; }); p.reset(); a.join(); b.join();
}
MC_SCENARIO("SELF", weak_race) {
    auto p = make_shared<int>(1); weak_ptr<int> w = p; int got = 0; thread a([&] { if (auto q = w.lock()) got = *q; }); p.reset(); a.join(); mc_outcome("%d", got);
}
MC_SCENARIO("SELFBAD", leak) { static int* volatile p; p = new int(3); p = nullptr; }
MC_SCENARIO("SELFBAD", uaf) { auto p = new atomic<int>(3); thread a([&] { p->load(); }); delete p; a.join(); }
MC_SCENARIO("SELFBAD", uncaught) { thread a([] { throw 1; }); a.join(); }
MC_SCENARIO("SELF", caught) { thread a([] { try { throw 1; } catch (int) { } }); try { this_thread::yield(); throw 2; } catch (int x) { mc_outcome("%d", x); } a.join(); }
MC_SCENARIO("SELF", choose) { int a = mc_choose(3), b = mc_choose(2); mc_outcome("%d%d", a, b); }
struct S { int v; S() : v(7) {} ~S() { mc_count(0, 1); } };
static S& st() { static S s; return s; }
MC_SCENARIO("SELF", statics) { thread a([] { mc_count(1, st().v); }); thread b([] { mc_count(1, st().v); }); a.join(); b.join(); mc_outcome("%ld", mc_get(1)); }
MC_SCENARIO("SELF", spin) { atomic<int> x{0}; thread a([&] { while (!x.load()) {} }); x = 1; a.join(); }
thread_local int tl = 5;
MC_SCENARIO("SELF", tls) { thread a([] { mc_choose(1); tl++; this_thread::yield(); mc_count(0, tl); }); tl = 9; this_thread::yield(); mc_count(1, tl); a.join(); mc_outcome("%ld %ld", mc_get(0), mc_get(1)); }
MC_SCENARIO("SELF", signal_choice) { // two waiters, either may be woken
    mutex m; condition_variable c; int tok = 0, w = 0, first = -1;
    auto f = [&](int i) { unique_lock<mutex> l(m); ++w; while (!tok) c.wait(l); --tok; if (first < 0) first = i; };
    thread a(f, 0), b(f, 1); for (int k = 0; k < 2; ++k) { { lock_guard<mutex> l(m); ++tok; } c.notify_one(); } a.join(); b.join(); mc_outcome("%d", first);
}
