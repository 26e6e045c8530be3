// PROPS: C34
// faults in forests, tasks and progress trackers: any copy of a value or function may throw
#include "fault.h"
#include <algorithm>
#include <stlab/concurrency/progress.hpp>
#include <stlab/concurrency/task.hpp>
#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>
using namespace stlab;
using F = forest<fval>;
using Ch = F::child_iterator;
struct ev { int id; bool lead; bool operator==(const ev& o) const { return id == o.id && lead == o.lead; } };
using evs = std::vector<ev>;
// the forest as its edges; well-formed, the same backwards, and of the size it says
static evs edges(F& f) {
    evs e; std::vector<int> open;
    for (auto it = f.begin(); it != f.end(); ++it) {
        MC_CHECK(it->v > 0, "a dead value in the forest");
        if (is_leading(it)) open.push_back(it->v); else { MC_CHECK(!open.empty() && open.back() == it->v, "edges do not nest"); open.pop_back(); }
        e.push_back({it->v, is_leading(it)});
        MC_CHECK(e.size() < 100, "endless forest");
    }
    MC_CHECK(open.empty(), "edges do not nest");
    size_t i = e.size(); for (auto it = f.end(); it != f.begin();) { --it; MC_CHECK(i > 0 && e[i - 1] == (ev{it->v, is_leading(it)}), "backwards, the forest is another one"); --i; }
    MC_CHECK(i == 0 && f.size() == e.size() / 2 && f.empty() == e.empty(), "size is %d, there are %d nodes", (int)f.size(), (int)e.size() / 2);
    return e;
}
static void grow(F& f, int n, int& ids) {
    auto pos = f.end(); int open = 0;
    while (n > 0 || open > 0) {
        bool lead = n > 0 && (open == 0 || mc_choose(2) == 0);
        if (lead) { pos = trailing_of(f.insert(pos, fval(++ids))); --n; ++open; } else { --open; ++pos; }
    }
}
static F::iterator at(F& f, int i) { auto it = f.begin(); while (i--) ++it; return it; }
static void forest_ops(int n, int faults) {
    {
        F a, b; int ids = 0; budget = fired = 0;
        grow(a, n, ids); ids = 20; int nb = mc_choose(2) * 2; grow(b, nb, ids);
        evs ea = edges(a), eb = edges(b);
        fval x(50); const F& ca = a;
        budget = faults;
        int op = mc_choose(12), p = 0;
        bool same = true;                       // whether the operation leaves a as it was when it throws
        auto pos = [&] { return at(a, p = mc_choose((int)ea.size() + 1)); };
        evs want = ea, got_b = eb; bool b_same = true;
        auto put = [&](int where) { want.insert(want.begin() + where, {ev{50, true}, ev{50, false}}); };
        int c = 0;
        switch (op) {
        case 0: { auto i = pos(); put(p); c = thrown([&] { a.insert(i, x); }); break; }
        case 1: put(0); c = thrown([&] { a.push_front(x); }); break;
        case 2: put((int)ea.size()); c = thrown([&] { a.push_back(x); }); break;
        case 3: { if (ea.empty()) return; auto first = Ch(a.begin()), last = Ch(a.end()); int k = mc_choose(2); if (k) last = std::next(first);
                int stop = (int)ea.size(); if (k) { stop = 1; while (ea[stop].id != ea[0].id) ++stop; ++stop; }
                want.insert(want.begin() + stop, ev{50, false}); want.insert(want.begin(), ev{50, true}); c = thrown([&] { a.insert_parent(first, last, x); }); break; }
        case 4: c = thrown([&] { F t(a); budget = 0; MC_CHECK(edges(t) == ea, "the copy differs"); }); break;
        case 5: c = thrown([&] { b = a; }); if (!c) got_b = ea; break;
        case 6: c = thrown([&] { a = std::as_const(b); }); want = eb; break;
        case 7: { auto i = pos(); same = false; c = thrown([&] { b.size(); a.insert(i, F::const_child_iterator(std::as_const(b).begin()), F::const_child_iterator(std::as_const(b).end())); }); want.insert(want.begin() + p, eb.begin(), eb.end()); break; }
        case 8: c = thrown([&] { std::swap(a, b); }); want = eb; if (!c) got_b = ea; MC_CHECK(!fired, "swapping copies"); break;
        case 9: { F t; std::vector<std::optional<fval>> flat; flat.reserve(20); c = thrown([&] { forests::flatten(ca.begin(), ca.end(), std::back_inserter(flat)); forests::unflatten(flat.begin(), flat.end(), t); }); budget = 0; evs et = edges(t); MC_CHECK(et.size() <= ea.size() && (c || et == ea), "flattened"); break; }
        case 10: { F t; c = thrown([&] { forests::transcribe(ca, forests::transcriber(t), [](const fval& v) { return v; }); }); budget = 0; evs et = edges(t); MC_CHECK(et.size() <= ea.size() && (c || et == ea), "transcribed"); break; }
        case 11: c = thrown([&] { F t(std::move(a)); a = std::move(t); }); MC_CHECK(!fired, "moving copies"); break;
        }
        budget = 0;
        MC_CHECK(c ? is_fault(c) && fired == 1 : fired == 0, "%d copies threw, the call threw %d", fired, c);
        evs now = edges(a);
        if (!c) MC_CHECK(now == want, "operation %d: another forest", op);
        else if (same) MC_CHECK(now == ea, "operation %d threw and changed the forest", op);
        else {  // a part of the range may be there
            evs old; for (auto& e : now) if (e.id < 20) old.push_back(e);
            MC_CHECK(old == ea, "operation %d threw and changed other nodes", op);
        }
        (void)b_same; MC_CHECK(edges(b) == got_b, "operation %d: the other forest", op);
        // still usable
        a.push_back(fval(60)); a.push_front(fval(61)); evs use = edges(a); MC_CHECK(use.size() == now.size() + 4, "not usable");
        a.erase(a.begin(), a.end()); MC_CHECK(a.empty() && a.size() == 0, "erase");
    }
    MC_CHECK(mc_get(900) == 0, "%ld values alive at the end", mc_get(900));
}
MC_SCENARIO("C34", forests_3) { forest_ops(mc_choose(4), 1); }
MC_SCENARIO("C34", forests_5, .thorough_only = 1) { forest_ops(mc_choose(6), 1); }

// copies of a tracked function: one that throws is no step
static void progress(int faults) {
    {
        budget = fired = 0;
        int last_steps = -1, last_done = -1, calls = 0;
        progress_tracker tr([&](size_t s, size_t d) { last_steps = (int)s; last_done = (int)d; });
        fcopy t; auto fn = [t, &calls](int x) { ++calls; return x + 1; };
        using W = decltype(tr(std::move(fn)));
        budget = faults;
        std::optional<W> w[3]; int live = 0, done = 0, lost = 0;
        w[0].emplace(tr(std::move(fn))); live = 1;
        for (int k = 0; k < 4; ++k) {
            int i = mc_choose(3), j = mc_choose(3);
            if (mc_choose(2)) { if (!w[i]) return (void)(budget = 0); MC_CHECK((*w[i])(k) == k + 1, "result"); ++done; MC_CHECK(last_steps == live && last_done == done, "the callback was told %d of %d", last_done, last_steps); }
            else { if (!w[i] || i == j) return (void)(budget = 0); bool was = (bool)w[j]; w[j].reset(); live -= was; int c = thrown([&] { w[j].emplace(std::as_const(*w[i])); }); if (c) ++lost; else ++live; }
            MC_CHECK((int)tr.steps() == live && (int)tr.completed() == done, "%d steps and %d completed, expected %d and %d", (int)tr.steps(), (int)tr.completed(), live, done);
        }
        MC_CHECK(lost == fired && calls == done, "exceptions got lost");
        for (auto& x : w) x.reset();
        MC_CHECK(tr.steps() == 0, "steps at the end");
    }
}
MC_SCENARIO("C34", progress_2) { progress(2); MC_CHECK(mc_get(70) == 0, "functions alive at the end"); }
// a vector of tasks made of functions whose copies throw
MC_SCENARIO("C34", tasks) {
    {
        budget = fired = 0;
        int calls = 0; fcopy t; auto fn = [t, &calls](int x) { ++calls; return x + 1; };
        struct big_t { decltype(fn) f; char pad[64]; int operator()(int x) { return f(x); } } big{fn, {}};
        task<int(int)> a = [](int) { return 77; }, b;
        budget = 2;
        for (int k = 0; k < 3; ++k) {
            int was = fired, c = 0; task<int(int)>& d = mc_choose(2) ? a : b; bool full = (bool)d; int before = full ? d(1) : 0;
            switch (mc_choose(4)) {
            case 0: c = thrown([&] { d = fn; }); break;
            case 1: c = thrown([&] { d = big; }); break;
            case 2: c = thrown([&] { task<int(int)> e(fn); d = std::move(e); }); break;
            case 3: c = thrown([&] { task<int(int)> e(big); swap(d, e); }); break;
            }
            MC_CHECK((c != 0) == (fired != was), "an exception got lost");
            if (c) MC_CHECK((bool)d == full && (!full || d(1) == before), "an assignment that threw changed the task");
            else MC_CHECK(d && d(1) == 2, "assigned");
        }
    }
    MC_CHECK(mc_get(70) == 0, "%ld functions alive at the end", mc_get(70));
}
