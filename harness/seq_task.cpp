// PROPS: C18
// the type-erased task, against a reference model: every sequence of operations over every kind of callable
#include "common.h"
#include <cstring>
#include <stlab/concurrency/task.hpp>
using namespace stlab;

// counter 70: live callables that have not been moved from; 71: all live callable objects
struct own {
    int id;                                     // 0: moved from
    explicit own(int id) : id(id) { mc_count(70, 1); mc_count(71, 1); }
    own(const own& o) : id(o.id) { mc_count(71, 1); if (id) mc_count(70, 1); }
    own(own&& o) noexcept : id(o.id) { o.id = 0; mc_count(71, 1); }
    own& operator=(const own&) = delete;
    ~own() { mc_count(71, -1); if (id) mc_count(70, -1); id = -77; }
};
static bool throw_on_copy = false, throw_on_move = false;
// a callable of (at least) N bytes
template <size_t N, size_t A = 8> struct callable {
    own o; int calls = 0;
    alignas(A) unsigned char pad[N - 8];
    explicit callable(int id) : o(id) { memset(pad, id, sizeof pad); }
    callable(const callable& c) : o(c.o), calls(c.calls) { memcpy(pad, c.pad, sizeof pad); if (throw_on_copy) throw err{7}; }
    callable(callable&& c) noexcept : o(std::move(c.o)), calls(c.calls) { memcpy(pad, c.pad, sizeof pad); }
    int operator()(int x) noexcept {
        MC_CHECK(o.id > 0, "a callable that is %s was called", o.id ? "destroyed" : "moved from");
        MC_CHECK((uintptr_t)this % alignof(callable) == 0, "misaligned callable");
        for (auto c : pad) MC_CHECK(c == (unsigned char)o.id, "damaged callable");
        return 1000 * o.id + 100 * ++calls + x;
    }
};
// the same, made of bytes only: the callables that task keeps in place are those whose alignment is that of its array of bytes
struct own_byte {
    signed char id;
    explicit own_byte(int id) : id((signed char)id) { mc_count(70, 1); mc_count(71, 1); }
    own_byte(const own_byte& o) : id(o.id) { mc_count(71, 1); if (id) mc_count(70, 1); }
    own_byte(own_byte&& o) noexcept : id(o.id) { o.id = 0; mc_count(71, 1); }
    own_byte& operator=(const own_byte&) = delete;
    ~own_byte() { mc_count(71, -1); if (id) mc_count(70, -1); id = -77; }
};
template <size_t N> struct bytes {
    own_byte o; unsigned char calls = 0, pad[N - 2];
    explicit bytes(int id) : o(id) { memset(pad, id, sizeof pad); }
    bytes(const bytes& c) : o(c.o), calls(c.calls) { memcpy(pad, c.pad, sizeof pad); if (throw_on_copy) throw err{7}; }
    bytes(bytes&& c) noexcept : o(std::move(c.o)), calls(c.calls) { memcpy(pad, c.pad, sizeof pad); memset(c.pad, 99, sizeof pad); }
    int operator()(int x) noexcept {
        MC_CHECK(o.id > 0, "a callable that is %s was called", o.id ? "destroyed" : "moved from");
        for (auto c : pad) MC_CHECK(c == (unsigned char)o.id, "damaged callable");
        return 1000 * o.id + 100 * ++calls + x;
    }
};
static_assert(alignof(bytes<48>) == 1 && sizeof(bytes<48>) == 48);
// holds memory of its own
struct heap_callable {
    own o; std::shared_ptr<int> calls = std::make_shared<int>(0);
    explicit heap_callable(int id) : o(id) {}
    int operator()(int x) noexcept { MC_CHECK(o.id > 0 && calls, "a dead callable was called"); return 1000 * o.id + 100 * ++*calls + x; }
};
struct str_callable {
    own o; std::string calls;
    explicit str_callable(int id) : o(id) {}
    int operator()(int x) noexcept { MC_CHECK(o.id > 0, "a dead callable was called"); calls += 'x'; return 1000 * o.id + 100 * (int)calls.size() + x; }
};
using at_limit = callable<48>;
using over_limit = callable<56>;
using over_aligned = callable<64, 64>;
using tiny = callable<16>;
static int function_1(int x) noexcept { return 9000 + x; }
using fp_t = int (*)(int);
using fpn_t = int (*)(int) noexcept;
using fun_t = std::function<int(int)>;

struct ref { int kind = -1, id = 0, calls = 0; };     // kind -1: empty, -2: moved from (may only be assigned to, swapped, moved and destroyed)
template <bool NX> struct machine {
    using T = std::conditional_t<NX, task<int(int) noexcept>, task<int(int)>>;
    using FP = std::conditional_t<NX, fpn_t, fp_t>;
    static constexpr int MAKERS = NX ? 11 : 14;
    std::optional<T> s[3]; ref m[3]; int ids = 0;
    // kinds 0..: makes callable number k (for slots i), by construction or by assignment
    template <class F> void put(int i, bool assign, F&& f) { if (assign) *s[i] = std::forward<F>(f); else { s[i].reset(); m[i] = ref(); s[i].emplace(std::forward<F>(f)); } }
    void make(int i, int k, bool assign) {
        int id = ++ids % 8 + 1; ref r{k, id, 0};
        switch (k) {
        case 0: put(i, assign, tiny(id)); break;
        case 1: { at_limit f(id); put(i, assign, f); break; }          // copies
        case 2: put(i, assign, over_limit(id)); break;
        case 3: put(i, assign, over_aligned(id)); break;
        case 4: put(i, assign, heap_callable(id)); break;
        case 5: put(i, assign, str_callable(id)); break;
        case 6: put(i, assign, FP(function_1)); r.id = 9; r.calls = -1; break;
        case 7: put(i, assign, FP(nullptr)); r = ref(); break;
        case 8: { over_limit f(id); if constexpr (NX) put(i, assign, f); else put(i, assign, std::as_const(f)); r.kind = 2; break; }
        case NX ? 9 : 12: put(i, assign, bytes<48>(id)); r.kind = 12; break;
        case NX ? 10 : 13: { bytes<16> f(id); put(i, assign, f); r.kind = 13; break; }
        case NX ? 112 : 9: if constexpr (!NX) put(i, assign, fun_t(function_1)); r.id = 9; r.calls = -1; break;
        case NX ? 113 : 10: if constexpr (!NX) put(i, assign, fun_t()); r = ref(); break;
        case NX ? 114 : 11: if constexpr (!NX) { auto f = over_limit(id); put(i, assign, fun_t(f)); } break;
        }
        m[i] = r;
    }
    // a constructor that throws leaves the task as it was
    void make_throws(int i, int k, bool assign) {
        over_limit big(1); bytes<48> small(1);
        throw_on_copy = true;
        try {
            if (assign) { if (k) *s[i] = big; else *s[i] = small; }
            else { T t = k ? T(big) : T(small); (void)t; }
            throw_on_copy = false;
            mc_fail("the exception of a copy constructor got lost");
        } catch (const err& e) { throw_on_copy = false; MC_CHECK(e.code == 7, "another exception"); }
    }
    void call(int i) {
        if (m[i].kind == -1) {
            if constexpr (!NX) { try { (*s[i])(5); mc_fail("calling an empty task returned"); } catch (const std::bad_function_call&) {} }
            return;
        }
        int r = (*s[i])(5);
        int want = 1000 * m[i].id + 5 + (m[i].calls < 0 ? 0 : 100 * ++m[i].calls);
        MC_CHECK(r == want, "called: %d, expected %d", r, want);
    }
    template <class F> void is(int i, int k) {
        const T& c = *s[i];
        bool here = m[i].kind == k;
        MC_CHECK((s[i]->target_type() == typeid(F)) == here, "target_type of kind %d asked for %d", m[i].kind, k);
        auto* p = s[i]->template target<F>(); auto* q = c.template target<F>();
        MC_CHECK((p != nullptr) == here && p == q, "target of kind %d asked for %d", m[i].kind, k);
        if constexpr (requires { p->o; }) if (p) {
            MC_CHECK(p->o.id == m[i].id, "target of callable %d is %d", m[i].id, p->o.id);
            if constexpr (requires { p->pad; }) MC_CHECK(p->calls == m[i].calls, "target's state is %d, expected %d", p->calls, m[i].calls);
        }
    }
    void look(int i) {
        if (!s[i] || m[i].kind == -2) return;
        const T& c = *s[i]; bool e = m[i].kind == -1;
        MC_CHECK((bool)c == !e, "bool of a task that is %s", e ? "empty" : "not empty");
        MC_CHECK((c == nullptr) == e && (nullptr == c) == e && (c != nullptr) == !e && (nullptr != c) == !e, "comparison with nullptr");
        if (e) MC_CHECK(c.target_type() == typeid(void), "target_type of an empty task");
        is<tiny>(i, 0); is<at_limit>(i, 1); is<over_limit>(i, 2); is<over_aligned>(i, 3); is<heap_callable>(i, 4); is<str_callable>(i, 5); is<FP>(i, 6); is<bytes<48>>(i, 12); is<bytes<16>>(i, 13);
        if constexpr (!NX) { if (m[i].kind == 11) { auto k = m[i].kind; m[i].kind = 9; is<fun_t>(i, 9); m[i].kind = k; } else is<fun_t>(i, 9); }
    }
    void check(int slots) {
        int live = 0;
        for (int i = 0; i < slots; ++i) { look(i); if (s[i] && m[i].kind >= 0 && m[i].calls >= 0) ++live; }
        MC_CHECK(mc_get(70) == live, "%ld callables alive, %d held", mc_get(70), live);
    }
    // prune: sequences that reach a state of the model (with as many operations to go) that was explored before end there
    void run(int slots, int depth, bool prune = false, int max_calls = 9) {
        for (int i = 0; i < slots; ++i) { s[i].emplace(); }
        check(slots);
        for (int d = 0; d < depth; ++d) {
            int op = mc_choose(2 * MAKERS + 4 + 4 + 3), i = mc_choose(slots);
            if (op < 2 * MAKERS) make(i, op / 2, op & 1);
            else if (op < 2 * MAKERS + 4) make_throws(i, op & 1, (op - 2 * MAKERS) / 2);
            else switch (op - 2 * MAKERS - 4) {
            case 0: { int j = mc_choose(slots); if (i == j) { T t = std::move(*s[i]); *s[i] = std::move(t); } else { s[j].reset(); s[j].emplace(std::move(*s[i])); m[j] = m[i]; if (m[i].kind >= 0) m[i].kind = -2; } break; }   // move construct
            case 1: { int j = mc_choose(slots); T& a = *s[i]; T& b = *s[j]; a = std::move(b); if (i != j) { m[i] = m[j]; if (m[j].kind >= 0) m[j].kind = -2; } break; }  // move assign (also to itself)
            case 2: { int j = mc_choose(slots); s[i]->swap(*s[j]); std::swap(m[i], m[j]); break; }
            case 3: { int j = mc_choose(slots); using std::swap; swap(*s[i], *s[j]); std::swap(m[i], m[j]); break; }
            case 4: *s[i] = nullptr; m[i] = ref(); break;
            case 5: s[i].reset(); s[i].emplace(nullptr); m[i] = ref(); break;
            case 6: if (m[i].kind != -2) call(i); break;
            }
            check(slots);
            if (prune) {
                uint64_t h = depth - d;
                for (int i = 0; i < slots; ++i) h = h * 1000003 + (m[i].kind + 3) * 16 + (m[i].kind >= 0 ? m[i].calls + 1 : 0);
                bool over = false;
                for (int i = 0; i < slots; ++i) over = over || m[i].calls > max_calls;
                if (over || mc_seen(h)) break;
            }
        }
        for (int i = 0; i < slots; ++i) if (m[i].kind != -2) { call(i); }
        for (auto& x : s) x.reset();
        MC_CHECK(mc_get(70) == 0 && mc_get(71) == 0, "%ld callables alive at the end", mc_get(71));
    }
};
MC_SCENARIO("C18", sequences_2, .budget = 60) { machine<false> m; m.run(2, 3); }
MC_SCENARIO("C18", sequences_nx_2, .budget = 60) { machine<true> m; m.run(2, 3); }
MC_SCENARIO("C18", states_2) { machine<false> m; m.run(2, 6, true, 1); }
MC_SCENARIO("C18", states_nx_2) { machine<true> m; m.run(2, 6, true, 2); }
MC_SCENARIO("C18", sequences_3) { machine<true> m; m.run(3, 2); }
MC_SCENARIO("C18", states_2_10, .thorough_only = 1) { machine<false> m; m.run(2, 10, true, 3); }
MC_SCENARIO("C18", states_3_4, .thorough_only = 1) { machine<false> m; m.run(3, 4, true, 1); }
MC_SCENARIO("C18", states_nx_3_5, .thorough_only = 1) { machine<true> m; m.run(3, 5, true, 1); }
MC_SCENARIO("C18", sequences_nx_3, .thorough_only = 1) { machine<true> m; m.run(3, 3); }
MC_SCENARIO("C18", sequences_2_4, .thorough_only = 1) { machine<false> m; m.run(2, 4); }
// the storage boundary: every size of a callable
template <size_t N, class F = callable<N>> void size_n() {
    int how = mc_choose(4);
    {
        task<int(int)> t{F(3)}, u;
        MC_CHECK(t.target<F>() && t.target_type() == typeid(F), "target");
        if (how & 1) { task<int(int)> v = std::move(t); t = std::move(v); }
        if (how & 2) { swap(t, u); swap(u, t); }
        MC_CHECK(t(1) == 3101 && t(2) == 3202 && mc_get(70) == 1, "result");
        int calls = t.target<F>()->calls;
        MC_CHECK(calls == 2, "state");
        t = nullptr;
        MC_CHECK(mc_get(71) == (u ? 1 : 0), "not destroyed");
    }
    MC_CHECK(mc_get(71) == 0, "leaked");
}
MC_SCENARIO("C18", sizes) {
    switch (mc_choose(20)) {
    case 12: size_n<3, bytes<3>>(); break; case 13: size_n<8, bytes<8>>(); break; case 14: size_n<24, bytes<24>>(); break; case 15: size_n<47, bytes<47>>(); break;
    case 16: size_n<48, bytes<48>>(); break; case 17: size_n<49, bytes<49>>(); break; case 18: size_n<64, bytes<64>>(); break; case 19: size_n<200, bytes<200>>(); break;
    case 0: size_n<12>(); break; case 1: size_n<16>(); break; case 2: size_n<24>(); break; case 3: size_n<32>(); break; case 4: size_n<40>(); break; case 5: size_n<44>(); break;
    case 6: size_n<48>(); break; case 7: size_n<52>(); break; case 8: size_n<56>(); break; case 9: size_n<64>(); break; case 10: size_n<72>(); break; default: size_n<256>(); break;
    }
}
// arguments and results pass through as the signature says
struct mv { int v; explicit mv(int v) : v(v) {} mv(mv&& o) noexcept : v(o.v) { o.v = -1; mc_count(80, 1); } };
struct cp { int v; explicit cp(int v) : v(v) {} cp(const cp& o) : v(o.v) { mc_count(81, 1); } cp(cp&& o) noexcept : v(o.v) { o.v = -1; mc_count(80, 1); } };
template <class F> struct padded {
    F f; char pad[64] = {};
    template <class... A> auto operator()(A&&... a) -> decltype(f(std::forward<A>(a)...)) { return f(std::forward<A>(a)...); }
};
MC_SCENARIO("C18", arguments) {
    bool big = mc_choose(2);
    auto with = [&](auto f, auto check) { if (big) check(padded<decltype(f)>{f}); else check(f); };
    switch (mc_choose(11)) {
    case 0: with([](mv x) { return x.v + 1; }, [](auto f) { task<int(mv)> t(std::move(f)); MC_CHECK(t(mv(4)) == 5, "moved argument"); }); break;
    case 1: with([](int& x) -> int& { ++x; return x; }, [](auto f) { task<int&(int&)> t(std::move(f)); int a = 4; int& r = t(a); MC_CHECK(a == 5 && &r == &a, "reference"); }); break;
    case 2: with([](const cp& x) { return &x; }, [](auto f) { task<const cp*(const cp&)> t(std::move(f)); cp a(3); MC_CHECK(t(a) == &a && mc_get(81) == 0 && mc_get(80) == 0, "const reference"); }); break;
    case 3: with([](int a, int b, int c, int d) { return a * 1000 + b * 100 + c * 10 + d; }, [](auto f) { task<int(int, int, int, int)> t(std::move(f)); MC_CHECK(t(1, 2, 3, 4) == 1234, "order of arguments"); }); break;
    case 4: with([]() { mc_count(20, 1); }, [](auto f) { task<void()> t(std::move(f)); t(); MC_CHECK(mc_get(20) == 1, "void"); }); break;
    case 5: with([]() { return mv(8); }, [](auto f) { task<mv()> t(std::move(f)); MC_CHECK(t().v == 8, "moved result"); }); break;
    case 6: with([](mv&& x) { return &x; }, [](auto f) { task<mv*(mv&&)> t(std::move(f)); mv a(3); MC_CHECK(t(std::move(a)) == &a && a.v == 3, "rvalue reference"); }); break;
    case 7: with([](cp x) { return x.v; }, [](auto f) { task<int(cp)> t(std::move(f)); cp a(3); MC_CHECK(t(a) == 3 && a.v == 3 && mc_get(81) == 1, "copied argument"); }); break;
    case 8: with([](int x) -> int { if (x) throw err{x}; return 1; }, [](auto f) {
        task<int(int)> t(std::move(f));
        for (int k = 0; k < 2; ++k) { try { t(6); mc_fail("the exception got lost"); } catch (const err& e) { MC_CHECK(e.code == 6, "another exception"); } MC_CHECK(t && t(0) == 1, "after an exception"); } }); break;
    case 9: with([](double x) { return (short)x; }, [](auto f) { task<long(int)> t(std::move(f)); MC_CHECK(t(7) == 7, "conversions"); }); break;
    case 10: with([n = 0]() mutable { return ++n; }, [](auto f) { task<int()> t(std::move(f)); t(); t(); task<int()> u = std::move(t); MC_CHECK(u() == 3, "state"); }); break;
    }
    if (true) { // a callable that can only be moved
        auto p = std::make_unique<int>(4);
        task<int()> t([p = std::move(p)] { return *p; }), u = std::move(t);
        t = std::move(u);
        MC_CHECK(t() == 4, "move-only callable");
    }
}
// tasks in tasks, of the same and of another type
MC_SCENARIO("C18", nested) {
    {
        task<int(int)> a = over_limit(1);
        task<int(int) noexcept> b = tiny(2);
        task<long(int)> c = std::move(b);            // another type: a task that holds a task
        task<long(int)> e = std::move(a);
        MC_CHECK(c(1) == 2101 && c(1) == 2201 && e(3) == 1103, "nested");
        std::vector<task<long(int)>> v;
        for (int i = 0; i < 4; ++i) { v.push_back(std::move(c)); c = std::move(v.back()); v.back() = tiny(3 + i); }
        for (int i = 0; i < 4; ++i) MC_CHECK(v[i](0) == 3100 + 1000 * i, "in a vector");
        MC_CHECK(c(1) == 2301, "moved around");
    }
    MC_CHECK(mc_get(71) == 0, "%ld callables alive at the end", mc_get(71));
}
// a task whose callable owns other tasks: assigning one of those to it (at any depth, by any kind of ownership), and callables whose
// destructor looks at or assigns to the very task they are in
struct chain_node;
template <bool Large> struct chain_fn {
    own o; std::unique_ptr<chain_node> next; unsigned char pad[Large ? 64 : 8];
    chain_fn(int id, std::unique_ptr<chain_node> n) : o(id), next(std::move(n)) { memset(pad, id, sizeof pad); }
    chain_fn(chain_fn&& x) noexcept : o(std::move(x.o)), next(std::move(x.next)) { memcpy(pad, x.pad, sizeof pad); memset(x.pad, 99, sizeof pad); }
    int operator()(int x) noexcept { MC_CHECK(o.id > 0, "a callable that is %s was called", o.id ? "destroyed" : "moved from"); for (auto c : pad) MC_CHECK(c == (unsigned char)o.id, "damaged callable"); return 1000 * o.id + x; }
};
struct chain_node { task<int(int)> t; };
template <bool Large> static task<int(int)> make_chain(int depth, int id) {
    std::unique_ptr<chain_node> n;
    if (depth > 1) { n = std::make_unique<chain_node>(); n->t = mc_choose(2) ? make_chain<true>(depth - 1, id + 1) : make_chain<false>(depth - 1, id + 1); }
    return chain_fn<Large>{id, std::move(n)};
}
static chain_node* next_of(task<int(int)>& t) {
    if (auto p = t.target<chain_fn<true>>()) return p->next.get();
    if (auto p = t.target<chain_fn<false>>()) return p->next.get();
    return nullptr;
}
MC_SCENARIO("C18", owned_tasks) {
    {
        int depth = 1 + mc_choose(4), at = 1;
        task<int(int)> t = mc_choose(2) ? make_chain<true>(depth, 1) : make_chain<false>(depth, 1);
        while (at < depth) {
            int skip = 1 + mc_choose(depth - at), how = mc_choose(4);
            auto* n = next_of(t); for (int i = 1; i < skip; ++i) n = next_of(n->t);
            MC_CHECK(n && n->t(5) == 1000 * (at + skip) + 5, "the owned task");
            switch (how) {
            case 0: t = std::move(n->t); break;
            case 1: { task<int(int)> u = std::move(n->t); t = std::move(u); MC_CHECK(!u || true, ""); } break;
            case 2: { task<int(int)> u; u.swap(n->t); t.swap(u); } break;
            default: t = task<int(int)>(std::move(n->t)); break;
            }
            at += skip;
            MC_CHECK(t && t(7) == 1000 * at + 7, "after the assignment of a task it owned: %d", t(7));
        }
        MC_CHECK(mc_get(70) == 1, "%ld callables alive, one is in use", mc_get(70));
        if (mc_choose(2)) { t = nullptr; MC_CHECK(!t && mc_get(71) == 0, "reset"); }
    }
    MC_CHECK(mc_get(71) == 0, "%ld callables alive at the end", mc_get(71));
}
