// PROPS: C30 C33
// progress tracking under concurrency
#include "common.h"
#include <stlab/concurrency/progress.hpp>
using namespace stlab;

struct fn { int id; token t{70}; int operator()(int a) const { mc_count(20 + id, 1); return 10 * id + a; } };
using client = decltype(std::declval<progress_tracker&>()(std::declval<fn>()));
// n threads call one wrapped function each, `copies` of them copy it first and call the copy too
static void calls(int n, int copies, bool keep) {
    std::mutex m; int seen = 0, best = 0;
    {
        progress_tracker t([&](size_t s, size_t d) {
            std::lock_guard<std::mutex> l(m);
            ++seen; MC_CHECK((int)d >= 1 && (int)d <= n + copies, "%zu completed", d);
            MC_CHECK((int)s <= n + copies && (!keep || (int)s >= n), "%zu steps", s);
            if ((int)d > best) best = (int)d;
        });
        std::vector<client> kept; kept.reserve(8);
        std::vector<std::thread> th;
        if (keep) for (int i = 0; i < n; ++i) kept.push_back(t(fn{i}));
        for (int i = 0; i < n; ++i) {
            if (keep) { th.emplace_back([&, i] { client* c = &kept[i]; if (i < copies) { client d = *c; MC_CHECK(d(2) == 10 * i + 2, "result"); } MC_CHECK((*c)(1) == 10 * i + 1, "result"); }); }
            else { client c = t(fn{i}); th.emplace_back([i, copies, c = std::move(c)]() mutable { client x = std::move(c); if (i < copies) { client d = x; MC_CHECK(d(2) == 10 * i + 2, "result"); } MC_CHECK(x(1) == 10 * i + 1, "result"); }); }
        }
        for (auto& x : th) x.join();
        MC_CHECK((int)t.completed() == n + copies, "%zu completed, %d calls", t.completed(), n + copies);
        th.clear();
        MC_CHECK((int)t.steps() == (keep ? n : 0), "%zu steps, %d functions alive", t.steps(), keep ? n : 0);
        MC_CHECK(seen == n + copies && best == n + copies, "%d callbacks, the last one with %d completed, after %d calls", seen, best, n + copies);
        kept.clear();
        MC_CHECK(t.steps() == 0, "%zu steps", t.steps());
    }
    MC_CHECK(mc_get(70) == 0, "%ld functions alive", mc_get(70));
}
MC_SCENARIO("C30,C33", calls_2, .mode = 0) { calls(2, 0, true); }
MC_SCENARIO("C30,C33", calls_2_moved, .mode = 0) { calls(2, 0, false); }
MC_SCENARIO("C30", calls_3, .mode = 3, .mode_thorough = 0) { calls(3, 0, true); }
MC_SCENARIO("C30,C33", copies_2, .mode = 3, .mode_thorough = 0) { calls(2, 1, false); }
MC_SCENARIO("C30", copies_2_2, .mode = 3, .mode_thorough = 0) { calls(2, 2, true); }
// wrapping, copying and destroying from several threads
static void wraps(int kind) {
    {
        progress_tracker t;
        std::vector<std::thread> th;
        for (int k = 0; k < 2; ++k) th.emplace_back([t, k, kind]() mutable {
            client a = t(fn{k});
            if (kind == 1) { client b = a; client c = std::move(a); b(1); }
            if (kind == 2) { client b = t(fn{k}); b = a; a = std::move(b); a(1); }
        });
        for (auto& x : th) x.join();
        MC_CHECK(t.steps() == 0 && (int)t.completed() == (kind ? 2 : 0), "%zu steps, %zu completed", t.steps(), t.completed());
    }
    MC_CHECK(mc_get(70) == 0, "%ld functions alive", mc_get(70));
}
MC_SCENARIO("C30,C33", wraps_0, .mode = 3, .mode_thorough = 0) { wraps(0); }
MC_SCENARIO("C30,C33", wraps_1, .mode = 3, .mode_thorough = 5) { wraps(1); }
MC_SCENARIO("C30", wraps_2, .mode = 3, .mode_thorough = 5) { wraps(2); }
// the tracker goes while a function is called
MC_SCENARIO("C30,C33", tracker_gone, .mode = 0) {
    int seen = 0; std::mutex m;
    {
        std::optional<progress_tracker> t;
        t.emplace([&](size_t s, size_t d) { std::lock_guard<std::mutex> l(m); ++seen; MC_CHECK(s == 1 && d == 1, "%zu of %zu", d, s); });
        client c = (*t)(fn{1});
        std::thread th([&] { MC_CHECK(c(1) == 11, "result"); });
        t.reset();
        th.join();
        MC_CHECK(seen <= 1, "%d callbacks", seen);
        mc_outcome("%d", seen);
    }
    MC_CHECK(mc_get(70) == 0, "%ld functions alive", mc_get(70));
}
