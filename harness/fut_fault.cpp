// PROPS: C34 C33
// faults: any copy of a value or of a function object that the library makes may throw
#define WANT_FUTURE
#include "common.h"
#include "fault.h"
#include <stlab/concurrency/await.hpp>
#include <stlab/concurrency/serial_queue.hpp>
using namespace stlab;
template <> struct mk<fval> { static fval make(int v) { return fval(v); } static int get(const fval& t) { return t.v; } };
static int out(const future<fval>& f) { if (!f.is_ready()) return -1; if (auto e = f.exception()) return err_code(e); return f.get_ready().v; }
static int out(const future<int>& f) { if (!f.is_ready()) return -1; if (auto e = f.exception()) return err_code(e); return f.get_ready(); }
static int out(const future<void>& f) { if (!f.is_ready()) return -1; if (auto e = f.exception()) return err_code(e); return 1; }
static void clean() { MC_CHECK(mc_get(900) == 0, "%ld values alive at the end", mc_get(900)); MC_CHECK(mc_get(70) == 0, "%ld functions alive at the end", mc_get(70)); }

// several readers of one value: each gets it, or the exception of its own copy
static void readers(int n, int faults) {
    budget = faults;
    {
        auto [p, f] = package<fval()>(inline_ex{}, [] { return fval(7); });
        future<int> r[3]; int direct = 0;
        bool early = mc_choose(2), last_moves = false;
        if (early) p();
        for (int i = 0; i < n; ++i) {
            bool last = i == n - 1;
            switch (mc_choose(last ? 7 : 5)) {
            case 0: r[i] = f.then([](fval x) { return x.v; }); break;
            case 1: r[i] = f.then([](const fval& x) { return x.v; }); break;
            case 2: r[i] = f.recover([](future<fval> g) { return (*std::move(g).get_try()).v; }); break;
            case 3: r[i] = future<fval>(f).then([](fval x) { return x; }).then([](fval x) { return x.v; }); break;
            case 4: { auto g = f.recover([](const future<fval>& g) { return g.get_ready(); }); r[i] = g.then([](fval&& x) { return x.v; }); break; }
            case 5: r[i] = std::move(f).then([](fval x) { return x.v; }); last_moves = true; break;
            case 6: r[i] = std::move(f).recover([](future<fval>&& g) { return std::move(g).get_ready().v; }); last_moves = true; break;
            }
        }
        if (!early) p();
        int bad = 0;
        for (int i = 0; i < n; ++i) { int o = out(r[i]); MC_CHECK(o == 7 || is_fault(o), "reader %d got %d", i, o); bad += o != 7; }
        MC_CHECK(bad == fired, "%d copies threw, %d readers were told", fired, bad);
        if (!last_moves) {
            int k = mc_choose(3), before = fired;
            int c = thrown([&] {
                if (k == 0) MC_CHECK((*f.get_try()).v == 7, "get_try");
                if (k == 1) MC_CHECK(fval(f.get_ready()).v == 7, "get_ready");
                if (k == 2) MC_CHECK(await(future<fval>(f)).v == 7, "await");
            });
            MC_CHECK(c ? is_fault(c) && fired == before + 1 : fired == before, "a direct reader got %d", c);
            budget = 0;
            MC_CHECK(out(f) == 7, "the value is damaged: %d", out(f));
        }
        (void)direct;
    }
    clean();
}
MC_SCENARIO("C34,C33", readers_1) { readers(1, 1); }
MC_SCENARIO("C34,C33", readers_2) { readers(2, 2); }
MC_SCENARIO("C34", readers_3) { readers(3, 1); }
MC_SCENARIO("C34", readers_3_2, .thorough_only = 1) { readers(3, 2); }

// combinations of n inputs, other copies of which may exist, resolved in any order, before or after attaching
static void combine(int n, int faults, int any, int range) {
    budget = faults;
    {
        packaged_task<> p[3]; future<fval> f[3]; int kind[3]; bool held = mc_choose(2); bool done[3] = {};
        for (int i = 0; i < n; ++i) { kind[i] = mc_choose(2); auto pr = package<fval()>(inline_ex{}, [i, k = kind[i]]() -> fval { if (k) throw err{i}; return fval(70 + i); }); p[i] = std::move(pr.first); f[i] = std::move(pr.second); }
        auto resolve = [&] { int c = mc_choose(n); for (int i = 0; i < n; ++i) { int j = (c + i) % n; if (!done[j]) { done[j] = true; p[j](); return; } } };
        int early = mc_choose(n + 1);
        for (int i = 0; i < early; ++i) resolve();
        std::vector<future<fval>> keep(f, f + n); if (!held) keep.clear();
        future<int> r;
        auto all2 = [](const fval& a, const fval& b) { return a.v == 70 && b.v == 71 ? 5 : 6; };
        auto all3 = [](const fval& a, const fval& b, const fval& c) { return a.v == 70 && b.v == 71 && c.v == 72 ? 5 : 6; };
        auto any1 = [](fval x, size_t i) { return x.v == 70 + (int)i ? 5 + (int)i : 4; };
        if (range) {
            std::vector<future<fval>> v; for (int i = 0; i < n; ++i) v.push_back(std::move(f[i]));
            auto rg = std::make_pair(v.begin(), v.end());
            if (any) r = when_any(inline_ex{}, any1, rg);
            else r = when_all(inline_ex{}, [n](const std::vector<fval>& x) { int ok = (int)x.size() == n; for (int i = 0; i < (int)x.size(); ++i) ok = ok && x[i].v == 70 + i; return ok ? 5 : 6; }, rg);
        } else if (any) r = n == 2 ? when_any(inline_ex{}, any1, std::move(f[0]), std::move(f[1])) : when_any(inline_ex{}, any1, std::move(f[0]), std::move(f[1]), std::move(f[2]));
        else r = n == 2 ? when_all(inline_ex{}, all2, std::move(f[0]), std::move(f[1])) : when_all(inline_ex{}, all3, std::move(f[0]), std::move(f[1]), std::move(f[2]));
        for (int i = early; i < n; ++i) resolve();
        int o = out(r), bad = 0; for (int i = 0; i < n; ++i) bad += kind[i];
        MC_CHECK(o != -1, "the result is never ready (%d copies threw)", fired);
        bool input_error = o >= 1000 && o < 1000 + n && kind[o - 1000];
        if (!any) {
            if (!bad && !fired) MC_CHECK(o == 5, "when_all gave %d", o);
            else MC_CHECK(input_error || is_fault(o) || (!bad && o == 5 && budget < faults && false), "when_all gave %d with %d failed inputs and %d copies that threw", o, bad, fired);
        } else {
            bool value = o >= 5 && o < 5 + n && !kind[o - 5];
            if (bad == n) MC_CHECK(input_error && !fired, "when_any gave %d", o);
            else if (!fired) MC_CHECK(value, "when_any gave %d", o);
            else MC_CHECK(value || input_error || is_fault(o), "when_any gave %d", o);
        }
        budget = 0;
        for (int i = 0; held && i < n; ++i) { int w = out(keep[i]); MC_CHECK(w == (kind[i] ? 1000 + i : 70 + i), "input %d is damaged: %d", i, w); }
    }
    clean();
}
MC_SCENARIO("C34,C33", all_args_2) { combine(2, 2, 0, 0); }
MC_SCENARIO("C34", all_args_3) { combine(3, 1, 0, 0); }
MC_SCENARIO("C34,C33", all_range_2) { combine(2, 2, 0, 1); }
MC_SCENARIO("C34", all_range_3) { combine(3, 1, 0, 1); }
MC_SCENARIO("C34,C33", any_args_2) { combine(2, 2, 1, 0); }
MC_SCENARIO("C34", any_args_3) { combine(3, 2, 1, 0); }
MC_SCENARIO("C34,C33", any_range_2) { combine(2, 2, 1, 1); }
MC_SCENARIO("C34", any_range_3) { combine(3, 2, 1, 1); }

// a future of a future, with other copies of the inner one
static void reduce(int faults) {
    budget = faults;
    {
        auto [pi, fi] = package<fval()>(inline_ex{}, [] { return fval(7); });
        future<fval> keep; if (mc_choose(2)) keep = fi;
        int when = mc_choose(3), how = mc_choose(2);
        if (when == 0) pi();
        auto fn = [g = std::move(fi)]() mutable -> future<fval> { if (true) return std::move(g); };
        queue_ex q;
        future<fval> o = how ? async(q, std::move(fn)) : future<fval>();
        if (!how) { auto [p, f] = package<future<fval>()>(inline_ex{}, std::move(fn)); if (when == 1) pi(); p(); o = std::move(f); if (when == 2) pi(); }
        else { if (when == 1) pi(); q.run_all(); if (when == 2) pi(); }
        budget = 0; int c = out(o);
        MC_CHECK(fired ? is_fault(c) : c == 7, "the outer future gave %d (%d copies threw)", c, fired);
        if (keep.valid()) { budget = 0; MC_CHECK(out(keep) == 7, "the inner value is damaged"); }
    }
    clean();
}
MC_SCENARIO("C34,C33", reduction) { reduce(1); }

// functions and arguments that are copied at the call: the call throws, nothing is attached, and everything stays usable
static void attach(int kind) {
    budget = 1;
    {
        int calls = 0; fcopy t; budget = 0;
        auto fn = [t, &calls](auto&&...) { ++calls; return 5; };
        auto fv = [t, &calls](auto&&...) noexcept { ++calls; };
        budget = 1;
        auto [p, f] = package<fval()>(inline_ex{}, [] { return fval(7); });
        bool early = mc_choose(2);
        if (early) p();
        future<int> r; queue_ex q; fval arg(3);
        int c = thrown([&] {
            switch (kind) {
            case 0: r = f.then(fn); break;
            case 1: r = f.then(inline_ex{}, fn); break;
            case 2: r = f.recover(fn); break;
            case 3: r = f.recover(inline_ex{}, fn); break;
            case 4: r = async(inline_ex{}, fn); break;
            case 5: r = async(inline_ex{}, fn, arg, 4); break;
            case 6: { auto [p2, f2] = package<int()>(inline_ex{}, fn); r = f2; p2(); break; }
            case 7: r = when_all(inline_ex{}, fn, future<fval>(f), future<fval>(f)); break;
            case 8: r = when_any(inline_ex{}, fn, future<fval>(f), future<fval>(f)); break;
            case 9: { std::vector<future<fval>> v{f, f}; r = when_all(inline_ex{}, fn, std::make_pair(v.begin(), v.end())); break; }
            case 10: { std::vector<future<fval>> v{f, f}; r = when_any(inline_ex{}, fn, std::make_pair(v.begin(), v.end())); break; }
            case 11: future<fval>(f).detach(fv); break;
            case 12: r = std::as_const(f) | fn; break;
            case 13: { task<int()> tk(fn); r = async(inline_ex{}, std::move(tk)); break; }
            case 14: { serial_queue_t s(inline_ex{}); auto ex = s.executor(); int d = thrown([&] { ex(fv); }); int was = calls; budget = 0; ex([&calls]() noexcept { ++calls; }); MC_CHECK(calls == was + 1 && was == !d, "the queue is stuck"); --calls; if (d) throw err{d - 1000}; break; }
            }
        });
        if (c) MC_CHECK(is_fault(c) && !r.valid(), "the call threw %d", c);
        budget = 0;
        if (!early) p();
        bool ran = kind != 7 && kind != 8 && kind != 9 && kind != 10;
        if (c) MC_CHECK(calls == 0, "the function of a call that threw ran");
        else if (kind == 11 || kind == 14) MC_CHECK(calls == 1 && !fired, "called %d times", calls);
        else if (ran) { int o = out(r); MC_CHECK(fired ? is_fault(o) && !calls : o == 5 && calls == 1, "the result is %d after %d calls", o, calls); }
        else { int o = out(r); MC_CHECK(o != -1 && (fired ? is_fault(o) || o == 5 : o == 5), "the result is %d", o); }
        // the future is as usable as before
        auto g = f.then([](const fval& x) { return x.v; });
        MC_CHECK(out(g) == 7 && out(f) == 7, "the future is damaged");
    }
    clean();
}
MC_SCENARIO("C34,C33", attach_functions) { attach(mc_choose(15)); }
// blocking waits, with the value copied because another copy of the future exists
MC_SCENARIO("C34,C33", waits, .timeouts = 0) {
    {
        auto f = async(thread_ex{}, [] { return fval(7); });
        budget = 1; int how = mc_choose(2);
        int c = thrown([&] { fval x = how ? await(future<fval>(f)) : await(f); MC_CHECK(x.v == 7, "await gave %d", x.v); });
        MC_CHECK(fired ? is_fault(c) : c == 0, "await threw %d", c);
        budget = 0;
        MC_CHECK(f.is_ready() && out(f) == 7, "the future is damaged");
    }
    pre_exit();
    all_done();
    clean();
}
