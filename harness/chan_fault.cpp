// PROPS: C34 C33
// faults in channels: any copy of a value that is sent, queued or broadcast may throw
#include "chan.h"
#include "fault.h"
using namespace stlab;
// passes every value on
struct fpass {
    probe* p; std::optional<fval> x; token t{70};
    void await(fval v) { scoped s(*p, "await"); p->put(v.v); x = std::move(v); }
    fval yield() { scoped s(*p, "yield"); fval r = std::move(*x); x.reset(); return r; }
    void set_error(std::exception_ptr e) { scoped s(*p, "set_error"); ++p->errors; p->last_error = err_code(e); }
    void close() { scoped s(*p, "close"); ++p->closed; }
    process_state_scheduled state() const { return x ? yield_immediate : await_forever; }
};
// yields 1..n on its own
struct fsource {
    probe* p; int n, made = 0; token t{70};
    fval yield() { scoped s(*p, "yield"); MC_CHECK(made < n, "yield called on a process that awaits"); p->put(++made); return fval(made); }
    process_state_scheduled state() const { return made < n ? yield_immediate : await_forever; }
};
struct fsink {
    probe* p; token t{70};
    void await(const fval& x) { scoped s(*p, "sink"); p->put(x.v); }
    void set_error(std::exception_ptr e) { scoped s(*p, "sink error"); ++p->errors; p->last_error = err_code(e); MC_CHECK(is_fault(p->last_error), "an error of nobody: %d", p->last_error); }
    int yield() { mc_fail("the sink does not yield"); return 0; }
    void close() { scoped s(*p, "sink close"); ++p->closed; }
    process_state_scheduled state() const { return await_forever; }
};
// what a branch received is what was sent, in order, with at most one value missing per error
static void branch(const probe& z, int sent, int faults, int before = 0) {
    MC_CHECK(z.errors == faults, "%d copies threw upstream, %d errors arrived", faults, z.errors);
    MC_CHECK(z.n <= sent - before && z.n >= sent - before - faults, "%d of %d values arrived with %d errors", z.n, sent, before + faults);
    for (int i = 1; i < z.n; ++i) MC_CHECK(z.got[i] > z.got[i - 1], "value %d after %d", z.got[i], z.got[i - 1]);
    for (int i = 0; i < z.n; ++i) MC_CHECK(z.got[i] >= 1 && z.got[i] <= sent, "value %d was not sent", z.got[i]);
}
// a sender, a process and its branches; values that come after the faults reach everybody
template <class E> void split(E ex, bag* q, int branches, int n, int faults, int buf) {
    probe a, z[3]; int refused = 0, sent = 0;
    {
        auto [snd, r] = channel<fval>(inline_ex{});
        auto m = r | (executor{ex} & buffer_size{(size_t)buf} & fpass{&a});
        std::vector<receiver<int>> d;
        for (int i = 0; i < branches; ++i) d.push_back(m | (executor{i == 1 ? ex_t(inline_ex{}) : ex_t(ex)} & buffer_size{(size_t)buf} & fsink{&z[i]}));
        for (auto& x : d) x.set_ready();
        m.set_ready(); r.set_ready();
        budget = faults;
        auto op = [&, &snd = snd](int i) {
            if (i == n) budget = 0;
            fval v(sent + 1);
            if (thrown([&] { if (mc_choose(2)) snd(v); else snd(std::move(v)); })) ++refused; else ++sent;
        };
        if (q) q->drive(n + 2, op); else for (int i = 0; i < n + 2; ++i) op(i);
        mc_quiesce();
        int in = fired - refused - a.errors;
        MC_CHECK(a.n == sent - a.errors, "%d of %d values were given to the process with %d errors", a.n, sent, a.errors);
        for (int i = 0; i < branches; ++i) { branch(z[i], sent, in, a.errors); MC_CHECK(z[i].n > 1 && z[i].got[z[i].n - 1] == sent && z[i].got[z[i].n - 2] == sent - 1, "values sent after the faults did not arrive"); }
        snd.close();
        if (q) q->drive(0, [](int) {});
        mc_quiesce();
        for (int i = 0; i < branches; ++i) MC_CHECK(z[i].closed == 1, "branch %d was closed %d times", i, z[i].closed);
    }
    if (q) q->drive(0, [](int) {});
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0 && mc_get(900) == 0, "%ld process objects, %ld values alive", mc_get(70), mc_get(900));
}
MC_SCENARIO("C34,C33", split_inline, .mode = 1) { int b = mc_choose(3); split(inline_ex{}, nullptr, 1 + mc_choose(3), 2, 2, b); }
MC_SCENARIO("C34,C33", split_bag, .mode = 1, .budget = 60) { bag q; int b = mc_choose(3); split(q.e, &q, 2, 2, 1, b); }
// a process that yields on its own
template <class E> void gen(E ex, bag* q, int branches, int n, int faults, int buf) {
    probe a, z[3];
    {
        budget = 0;
        auto r = channel<void>(inline_ex{});
        auto m = r | (executor{ex} & fsource{&a, n});
        std::vector<receiver<int>> d;
        for (int i = 0; i < branches; ++i) d.push_back(m | (executor{i == 1 ? ex_t(inline_ex{}) : ex_t(ex)} & buffer_size{(size_t)buf} & fsink{&z[i]}));
        for (auto& x : d) x.set_ready();
        budget = faults;
        m.set_ready(); r.set_ready();
        if (q) q->drive(0, [](int) {});
        mc_quiesce();
        MC_CHECK(a.n == n, "the process was asked for %d of %d values", a.n, n);
        for (int i = 0; i < branches; ++i) branch(z[i], n, fired);
    }
    if (q) q->drive(0, [](int) {});
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0 && mc_get(900) == 0, "%ld process objects, %ld values alive", mc_get(70), mc_get(900));
}
MC_SCENARIO("C34,C33", gen_inline, .mode = 1) { int b = mc_choose(4); gen(inline_ex{}, nullptr, 1 + mc_choose(3), 4, 2, b); }
MC_SCENARIO("C34,C33", gen_bag, .mode = 1) { bag q; int b = mc_choose(4); gen(q.e, &q, 2, 3, 1, b); }
// merges: an item that could not be copied is an error in its place, the merge goes on
struct fmerge {
    probe* p; std::optional<fval> x; token t{70};
    void await(fval v) { scoped s(*p, "await"); p->put(v.v); x = std::move(v); }
    fval yield() { scoped s(*p, "yield"); fval r = std::move(*x); x.reset(); return r; }
    void set_error(std::exception_ptr e) { scoped s(*p, "set_error"); ++p->errors; p->last_error = err_code(e); MC_CHECK(is_fault(p->last_error), "an error of nobody: %d", p->last_error); }
    void close() { scoped s(*p, "close"); ++p->closed; }
    process_state_scheduled state() const { return x ? yield_immediate : await_forever; }
};
struct fzip {
    probe* p; std::optional<fval> x; token t{70};
    void await(fval a, fval b) { scoped s(*p, "await"); MC_CHECK(b.v == a.v + 100, "%d is paired with %d", a.v, b.v); p->put(a.v); x = std::move(a); }
    fval yield() { scoped s(*p, "yield"); fval r = std::move(*x); x.reset(); return r; }
    void set_error(std::exception_ptr e) { scoped s(*p, "set_error"); ++p->errors; p->last_error = err_code(e); MC_CHECK(is_fault(p->last_error), "an error of nobody: %d", p->last_error); }
    void close() { scoped s(*p, "close"); ++p->closed; }
    process_state_scheduled state() const { return x ? yield_immediate : await_forever; }
};
template <class E> void merged(int kind, E ex, bag* q, int n, int faults, int branches) {
    probe a, z[2]; int refused[2] = {}, sent[2] = {};
    {
        std::vector<sender<fval>> s; std::vector<receiver<fval>> r;
        for (int k = 0; k < 2; ++k) { auto [x, y] = channel<fval>(inline_ex{}); s.push_back(std::move(x)); r.push_back(std::move(y)); }
        receiver<fval> m = kind == 0 ? zip_with(ex, fzip{&a}, r[0], r[1]) : kind == 1 ? merge_channel<round_robin_t>(ex, fmerge{&a}, r[0], r[1]) : merge_channel<unordered_t>(ex, fmerge{&a}, r[0], r[1]);
        std::vector<receiver<int>> d;
        for (int i = 0; i < branches; ++i) d.push_back(m | (executor{ex} & fsink{&z[i]}));
        for (auto& x : d) x.set_ready();
        m.set_ready(); for (auto& x : r) x.set_ready();
        budget = faults;
        auto send = [&](int k) {
            fval v(k * 100 + sent[k] + 1);
            if (thrown([&] { if (budget && mc_choose(2)) s[k](v); else s[k](std::move(v)); })) ++refused[k]; else ++sent[k];
        };
        // any arrival order while copies throw, then two more of each
        auto op = [&](int) { int k = mc_choose(2); if (sent[k] < n) send(k); };
        if (q) q->drive(2 * n, op); else for (int i = 0; i < 2 * n; ++i) op(i);
        budget = 0;
        int before = std::max(sent[0], sent[1]), first = 0;
        for (int k = 0; k < 2; ++k) while (sent[k] < before) send(k);
        if (q) q->drive(0, [](int) {});
        mc_quiesce(); first = a.n;
        for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k) send(k);
        if (q) q->drive(0, [](int) {});
        mc_quiesce();
        int total = kind == 0 ? sent[0] : sent[0] + sent[1], lost = fired - refused[0] - refused[1];
        MC_CHECK(a.n - first == (kind == 0 ? 2 : 4), "%d values arrived after the faults", a.n - first);
        MC_CHECK(a.n + a.errors <= total && a.n >= total - lost && a.errors <= lost, "%d values and %d errors arrived of %d, %d copies threw", a.n, a.errors, total, lost);
        if (kind == 1) { int last[2] = {}; for (int i = 0; i < a.n; ++i) { int k = a.got[i] / 100, v = a.got[i] % 100; MC_CHECK(v > last[k], "input %d: %d after %d", k, v, last[k]); MC_CHECK(v <= last[1 - k] + 1 + lost && v + lost >= last[1 - k], "not its turn"); last[k] = v; } }
        for (int i = 0; i < branches; ++i) {
            MC_CHECK(a.errors + z[i].errors >= lost - (kind == 0), "%d errors at the merge and %d after it, %d copies threw", a.errors, z[i].errors, lost);
            MC_CHECK(a.errors + z[i].errors <= lost, "%d errors at the merge and %d after it, %d copies threw", a.errors, z[i].errors, lost);
            MC_CHECK(z[i].n >= a.n - z[i].errors && z[i].n <= a.n, "%d values of %d passed on with %d errors", z[i].n, a.n, z[i].errors);
        }
        for (auto& x : s) x.close();
        if (q) q->drive(0, [](int) {});
        mc_quiesce();
        MC_CHECK(a.closed == 1, "closed %d times", a.closed);
        for (int i = 0; i < branches; ++i) MC_CHECK(z[i].closed == 1, "branch %d was closed %d times", i, z[i].closed);
    }
    if (q) q->drive(0, [](int) {});
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0 && mc_get(900) == 0, "%ld process objects, %ld values alive", mc_get(70), mc_get(900));
}
MC_SCENARIO("C34,C33", zip_inline, .mode = 1) { merged(0, inline_ex{}, nullptr, 2, 1, 1 + mc_choose(2)); }
MC_SCENARIO("C34,C33", robin_inline, .mode = 1) { merged(1, inline_ex{}, nullptr, 2, 1, 1 + mc_choose(2)); }
MC_SCENARIO("C34,C33", any_inline, .mode = 1) { merged(2, inline_ex{}, nullptr, 2, 1, 1 + mc_choose(2)); }
MC_SCENARIO("C34", zip_bag, .mode = 1) { bag q; merged(0, q.e, &q, 1, 1, 2); }
MC_SCENARIO("C34", robin_bag, .mode = 1) { bag q; merged(1, q.e, &q, 1, 1, 2); }
MC_SCENARIO("C34", any_bag, .mode = 1) { bag q; merged(2, q.e, &q, 1, 1, 2); }
// merges into a function: it goes on until an error comes to it, which closes it
template <class E> void merged_function(bool robin, E ex, bag* q, int n) {
    probe a, z; int refused = 0, sent[2] = {};
    {
        std::vector<sender<fval>> s; std::vector<receiver<fval>> r;
        for (int k = 0; k < 2; ++k) { auto [x, y] = channel<fval>(inline_ex{}); s.push_back(std::move(x)); r.push_back(std::move(y)); }
        auto fn = [&a](fval v) { scoped s(a, "function"); a.put(v.v); return fval(v.v); };
        receiver<fval> m = robin ? merge_channel<round_robin_t>(ex, fn, r[0], r[1]) : merge_channel<unordered_t>(ex, fn, r[0], r[1]);
        auto d = m | (executor{ex} & fsink{&z});
        d.set_ready(); m.set_ready(); for (auto& x : r) x.set_ready();
        budget = 1;
        auto op = [&](int i) {
            int k = robin ? i % 2 : mc_choose(2);
            fval v(k * 100 + sent[k] + 1);
            if (thrown([&] { s[k](std::move(v)); })) ++refused; else ++sent[k];
        };
        if (q) q->drive(n, op); else for (int i = 0; i < n; ++i) op(i);
        budget = 0;
        mc_quiesce();
        int total = sent[0] + sent[1], lost = fired - refused;
        MC_CHECK(a.n <= total && (fired || a.n == total), "%d values of %d arrived", a.n, total);
        MC_CHECK(lost || (z.n == a.n && !z.errors), "%d values passed on of %d", z.n, a.n);
        MC_CHECK(z.errors <= lost, "%d errors, %d copies threw", z.errors, lost);
        for (auto& x : s) x.close();
        if (q) q->drive(0, [](int) {});
        mc_quiesce();
        MC_CHECK(z.closed == 1, "closed %d times", z.closed);
    }
    if (q) q->drive(0, [](int) {});
    mc_quiesce();
    MC_CHECK(mc_get(70) == 0 && mc_get(900) == 0, "%ld process objects, %ld values alive", mc_get(70), mc_get(900));
}
MC_SCENARIO("C34,C33", functions_inline, .mode = 1) { merged_function(mc_choose(2), inline_ex{}, nullptr, 4); }
MC_SCENARIO("C34", functions_bag, .mode = 1) { bag q; merged_function(mc_choose(2), q.e, &q, 3); }
