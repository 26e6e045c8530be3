// PROPS: C30
// progress tracking, sequentially: every sequence of wrap, copy, move, assign, call and destroy
#include "common.h"
#include <stlab/concurrency/progress.hpp>
using namespace stlab;

struct fn { int id; token t{70}; int operator()(int a, int b) const { mc_count(20 + id, 1); return 100 * id + 10 * a + b; } };
using client = decltype(std::declval<progress_tracker&>()(std::declval<fn>()));
struct ref { int tracker = -1, id = -1; };   // -1: not tracked
static void run(int depth, int slots, int trackers) {
    std::optional<progress_tracker> tr[2]; std::optional<client> c[3]; ref m[3];
    int steps[2] = {}, completed[2] = {}, calls[2] = {}, ids = 0; size_t last[2][2] = {};
    bool gone[2] = {};
    for (int k = 0; k < trackers; ++k) {
        if (k == 0) tr[k].emplace([&, k](size_t s, size_t d) { ++calls[k]; last[k][0] = s; last[k][1] = d; });
        else tr[k].emplace();
    }
    auto drop = [&](ref& r) { if (r.tracker >= 0) --steps[r.tracker]; r = ref(); };
    for (int d = 0; d < depth; ++d) {
        // the operations that are possible now
        int ops[64][3], nops = 0;
        for (int o = 0; o < 8; ++o) for (int i = 0; i < slots; ++i) for (int j = 0; j < (o >= 1 && o <= 4 ? slots : 1); ++j) {
            bool ok = o == 0 ? !c[i] : o <= 2 ? !c[i] && c[j] : o <= 4 ? c[i] && c[j] && i != j : o <= 6 ? !!c[i] : c[i] || (i < trackers && !gone[i]);
            if (ok) { ops[nops][0] = o; ops[nops][1] = i; ops[nops++][2] = j; }
        }
        if (!nops) break;
        int w = mc_choose(nops), op = ops[w][0], i = ops[w][1], j = ops[w][2];
        switch (op) {
        case 0: { // wrap (on a copy of the tracker or on itself)
            int k = trackers > 1 ? mc_choose(trackers) : 0;
            if (gone[k] || c[i]) continue;
            if (ids & 1) { progress_tracker t2 = *tr[k]; c[i].emplace(t2(fn{ids % 3})); } else c[i].emplace((*tr[k])(fn{ids % 3}));
            m[i] = {k, ids % 3}; ++steps[k]; ++ids;
            break; }
        case 1: if (c[i] || !c[j]) continue; c[i].emplace(*c[j]); m[i] = m[j]; if (m[i].tracker >= 0) ++steps[m[i].tracker]; break;
        case 2: if (c[i] || !c[j]) continue; c[i].emplace(std::move(*c[j])); m[i] = m[j]; m[j].tracker = -1; break;
        case 3: if (!c[i] || !c[j] || i == j) continue; { *c[i] = *c[j]; drop(m[i]); m[i] = m[j]; if (m[i].tracker >= 0) ++steps[m[i].tracker]; } break;
        case 4: if (!c[i] || !c[j] || i == j) continue; { *c[i] = std::move(*c[j]); drop(m[i]); m[i] = m[j]; m[j].tracker = -1; } break;
        case 5: case 6: { // call (twice as often in the alphabet: const and through a copy of the object)
            if (!c[i]) continue;
            long n = mc_get(20 + m[i].id); int k = m[i].tracker, before = k >= 0 ? calls[k] : 0;
            const client& q = *c[i];
            int r = op == 5 ? (*c[i])(1, 2) : q(3, 4);
            MC_CHECK(r == 100 * m[i].id + (op == 5 ? 12 : 34), "the result is %d", r);
            MC_CHECK(mc_get(20 + m[i].id) == n + 1, "the function was called %ld times", mc_get(20 + m[i].id) - n);
            if (k >= 0 && !gone[k]) {
                ++completed[k];
                if (k == 0) MC_CHECK(calls[0] == before + 1 && (int)last[0][0] == steps[0] && (int)last[0][1] == completed[0], "%d callbacks, %zu of %zu, expected %d of %d", calls[0] - before, last[0][1], last[0][0], completed[0], steps[0]);
            } else if (k == 0) MC_CHECK(calls[0] == before, "callback of a tracker that is gone");
            break; }
        case 7: // destroy a function, or the tracker
            if (c[i]) { c[i].reset(); drop(m[i]); }
            else if (i < trackers && !gone[i]) { tr[i].reset(); gone[i] = true; }
            else continue;
            break;
        }
        for (int k = 0; k < trackers; ++k) if (!gone[k]) {
            MC_CHECK((int)tr[k]->steps() == steps[k], "%zu steps, expected %d", tr[k]->steps(), steps[k]);
            MC_CHECK((int)tr[k]->completed() == completed[k], "%zu completed, expected %d", tr[k]->completed(), completed[k]);
        }
    }
    for (auto& x : c) x.reset();
    for (auto& x : tr) x.reset();
    MC_CHECK(mc_get(70) == 0, "%ld functions alive", mc_get(70));
}
MC_SCENARIO("C30", sequences_2_5) { run(5, 2, 1); }
MC_SCENARIO("C30", sequences_3_4) { run(4, 3, 2); }
MC_SCENARIO("C30", sequences_3_5) { run(5, 3, 2); }
MC_SCENARIO("C30", sequences_2_7) { run(7, 2, 1); }
MC_SCENARIO("C30", sequences_3_6, .thorough_only = 1) { run(6, 3, 2); }
