// PROPS: C32
// tuple helpers, reference unwrapping, scope and argument helpers: every combination of position kinds, index and mask
#include "common.h"
#include <deque>
#include <mutex>
#include <stlab/concurrency/tuple_algorithm.hpp>
#include <stlab/functional.hpp>
#include <stlab/scope.hpp>
#include <stlab/utility.hpp>
using namespace stlab;

struct vl { int id; explicit vl(int i) : id(i) {} vl(const vl& o) : id(o.id) { MC_CHECK(id >= 0, "copy of a moved-from value"); } vl(vl&& o) noexcept : id(o.id) { o.id = -1; } vl& operator=(const vl&) = default; };
struct mv { int id; std::unique_ptr<int> p; explicit mv(int i) : id(i), p(new int(i)) {} mv(mv&& o) noexcept : id(o.id), p(std::move(o.p)) { o.id = -1; } };
static_assert(!std::is_copy_constructible_v<mv>);
static int idof(const vl& v) { return v.id; } static int idof(const mv& m) { return m.p && *m.p == m.id ? m.id : -2; } static int idof(const int& i) { return i; } static int idof(placeholder) { return -7; }
template <class T> struct kind; template <> struct kind<void> { static constexpr bool v = true; }; template <class T> struct kind { static constexpr bool v = false; };

template <class... Ts> struct tl {};
// calls fn(tl<...>) for every list of up to four types of {vl, void, mv}
template <int Left, class... Ts, class Fn> static void all_lists(tl<Ts...>, Fn& fn) { fn(tl<Ts...>{}); if constexpr (Left > 0) { all_lists<Left - 1>(tl<Ts..., vl>{}, fn); all_lists<Left - 1>(tl<Ts..., void>{}, fn); all_lists<Left - 1>(tl<Ts..., mv>{}, fn); } }
template <class T> static auto make_item(int i) { if constexpr (std::is_void_v<T>) return placeholder{}; else return T(i); }
template <class... Ts> using positions = std::index_sequence_for<Ts...>;
template <class Tup> using real = index_sequence_transform_t<std::make_index_sequence<std::tuple_size_v<Tup>>, remove_placeholder<Tup>::template function>;
template <class... Ts> static std::vector<int> expect() { std::vector<int> r; int i = 0; ((kind<Ts>::v ? (void)++i : r.push_back(10 + i++)), ...); return r; }
template <class Seq> struct as_vec; template <size_t... I> struct as_vec<std::index_sequence<I...>> { static std::vector<int> get() { return {int(10 + I)...}; } };
template <size_t... I> static size_t width(std::index_sequence<I...>) { return sizeof...(I); }
// what a voidless tuple has to be
template <class T> struct is_value_tuple; 
template <class... Ts> struct filtered { using type = std::tuple<>; };
template <class T, class... Ts> struct prepend; template <class T, class... Ts> struct prepend<T, std::tuple<Ts...>> { using type = std::tuple<T, Ts...>; };
template <class T, class... Ts> struct filtered<T, Ts...> { using rest = typename filtered<Ts...>::type; using type = typename std::conditional_t<std::is_void_v<T>, std::enable_if<true, rest>, prepend<std::conditional_t<std::is_void_v<T>, int, T>, rest>>::type; };
template <class T> using or_placeholder = std::conditional_t<std::is_void_v<T>, placeholder, T>;

struct collect { std::vector<int>* r; template <class... A> int operator()(A&&... a) const { (r->push_back(idof(a)), ...); (swallow(std::forward<A>(a)), ...); return 1000 + (int)sizeof...(A); } template <class T> static void swallow(T&& t) { if constexpr (!std::is_lvalue_reference_v<T>) { auto x = std::move(t); (void)x; } } };
struct each {
    template <class... Ts> void operator()(tl<Ts...>) const {
        using V = voidless_tuple<Ts...>; using P = placeholder_tuple<Ts...>; using O = optional_placeholder_tuple<Ts...>;
        MC_CHECK((std::is_same_v<V, typename filtered<Ts...>::type>), "a helper type is wrong"); MC_CHECK((std::is_same_v<P, std::tuple<or_placeholder<Ts>...>>), "a helper type is wrong"); MC_CHECK((std::is_same_v<O, std::tuple<std::optional<or_placeholder<Ts>>...>>), "a helper type is wrong");
        std::vector<int> w = expect<Ts...>();
        MC_CHECK((as_vec<real<P>>::get() == w), "positions that are not placeholders"); MC_CHECK((as_vec<real<O>>::get() == w), "positions that are not optional placeholders");
        call<Ts...>(positions<Ts...>{}, w);
    }
    template <class... Ts, size_t... I> static void call(std::index_sequence<I...>, const std::vector<int>& w) {
        using P = placeholder_tuple<Ts...>; using O = optional_placeholder_tuple<Ts...>; std::vector<int> r;
        { P t(make_item<Ts>(10 + I)...); int n = apply_indexed<real<P>>(collect{&r}, t); MC_CHECK(r == w && n == 1000 + (int)w.size(), "apply_indexed"); r.clear(); apply_indexed<real<P>>(collect{&r}, t); MC_CHECK(r == w, "apply_indexed of an lvalue took the values"); r.clear(); apply_indexed<real<P>>(collect{&r}, std::move(t)); MC_CHECK(r == w, "apply_indexed of an rvalue"); r.clear(); 
          if (!w.empty()) { apply_indexed<real<P>>(collect{&r}, t); for (int id : r) MC_CHECK(id < 0, "apply_indexed of an rvalue did not give the values away"); r.clear(); } }
        { O t(make_item<Ts>(10 + I)...); int n = detail::apply_optional_indexed<real<O>>(collect{&r}, t); MC_CHECK(r == w && n == 1000 + (int)w.size(), "apply_optional_indexed"); r.clear(); auto has = [](auto& x) { MC_CHECK(x.has_value(), "apply_optional_indexed empties an optional"); }; (has(std::get<I>(t)), ...); }
        { typename filtered<Ts...>::type v = make_v<Ts...>(w); int n = apply_ignore_placeholders(collect{&r}, std::move(v)); MC_CHECK(r == w && n == 1000 + (int)w.size(), "apply_ignore_placeholders"); r.clear(); }
        { P t(make_item<Ts>(10 + I)...); std::vector<int> all; tuple_for_each(t, [&](auto& x) { all.push_back(idof(x)); }); std::vector<int> wa{(kind<Ts>::v ? -7 : int(10 + I))...}; MC_CHECK(all == wa, "tuple_for_each"); const P& ct = t; all.clear(); tuple_for_each(ct, [&](const auto& x) { all.push_back(idof(x)); }); MC_CHECK(all == wa, "tuple_for_each of a const tuple");
          for (size_t k = 0; k < sizeof...(Ts) + 3; ++k) {
            int seen = 0; int d = get_i(t, k, [&](auto& x) { ++seen; return idof(x); }, 555); MC_CHECK(k < sizeof...(Ts) ? d == wa[k] && seen == 1 : d == 555 && seen == 0, "get_i %d", (int)k);
            seen = 0; d = 0; void_i(t, k, [&](auto& x) { ++seen; d = idof(x); }); MC_CHECK(k < sizeof...(Ts) ? d == wa[k] && seen == 1 : seen == 0, "void_i %d", (int)k);
          }
          for (unsigned mask = 0; mask < 1u << sizeof...(Ts); ++mask) { std::array<bool, sizeof...(Ts) + 1> b{((mask >> I & 1) != 0)...}; std::tuple<std::enable_if_t<(I >= 0), int>...> m{int(b[I] ? 1 : 0)...}; std::vector<int> asked; int at = 0; size_t f = tuple_find(m, [&](const int& x) { ++at; return x == 1; }); size_t want = 0; while (want < sizeof...(Ts) && !b[want]) ++want; MC_CHECK(sizeof...(Ts) == 0 ? f >= 0u && f != 0 : f == want, "tuple_find gives %d instead of %d", (int)f, (int)want); MC_CHECK(at == (int)std::min(want + 1, sizeof...(Ts)), "tuple_find asks %d positions", at); } }
        // moving out of one position leaves the others
        { P t(make_item<Ts>(10 + I)...); for (size_t k = 0; k < sizeof...(Ts); ++k) { int got = get_i(t, k, [](auto& x) { auto y = std::move(x); return idof(y); }, 0); (void)got; std::vector<int> now; tuple_for_each(t, [&](auto& x) { now.push_back(idof(x)); }); for (size_t j = 0; j < now.size(); ++j) { static const bool ph[] = {kind<Ts>::v..., true}; if (!ph[j]) MC_CHECK(j <= k ? now[j] < 0 : now[j] == 10 + (int)j, "position %d after %d was moved from", (int)j, (int)k); } } }
        // arguments in order
        { std::vector<int> all; std::apply([&](auto&... x) { for_each_argument([&](auto& y) { all.push_back(idof(y)); }, x...); }, *std::make_unique<P>(make_item<Ts>(10 + I)...)); std::vector<int> wa{(kind<Ts>::v ? -7 : int(10 + I))...}; MC_CHECK(all == wa, "for_each_argument"); }
    }
    template <class... Ts> static typename filtered<Ts...>::type make_v(const std::vector<int>& w) { return mk(static_cast<typename filtered<Ts...>::type*>(nullptr), w, std::make_index_sequence<std::tuple_size_v<typename filtered<Ts...>::type>>{}); }
    template <class... Vs, size_t... I> static std::tuple<Vs...> mk(std::tuple<Vs...>*, const std::vector<int>& w, std::index_sequence<I...>) { return std::tuple<Vs...>(Vs(w[I])...); }
};
MC_SCENARIO("C32", tuples) { each e; all_lists<4>(tl<>{}, e); }
// the queues of a channel's joins: equal operations over a tuple of containers
MC_SCENARIO("C32", queues) {
    std::tuple<std::deque<mv>, std::deque<mv>, std::deque<mv>> q; int n[3]; for (int& x : n) x = mc_choose(3);
    auto fill = [](std::deque<mv>& d, int base, int k) { for (int i = 0; i < k; ++i) d.emplace_back(base + i); }; fill(std::get<0>(q), 10, n[0]); fill(std::get<1>(q), 20, n[1]); fill(std::get<2>(q), 30, n[2]);
    size_t f = tuple_find(q, [](const auto& d) { return !d.empty(); }), w = 0; while (w < 3 && !n[w]) ++w; MC_CHECK(f == w, "first queue that is not empty");
    size_t k = mc_choose(4); int got = get_i(q, k, [](auto& d) { return d.empty() ? 0 : d.front().id; }, -1); MC_CHECK(got == (k == 3 ? -1 : n[k] ? 10 * (int)(k + 1) : 0), "front of queue %d", (int)k);
    auto item = get_i(q, k, [](auto& d) { return d.empty() ? mv(1) : std::move(d.front()); }, mv(2)); MC_CHECK(idof(item) == (k == 3 ? 2 : n[k] ? 10 * (int)(k + 1) : 1), "move-only item of queue %d", (int)k);
    if (k < 3 && n[k]) { void_i(q, k, [](auto& d) { d.pop_front(); }); --n[k]; }
    int i = 0; tuple_for_each(q, [&](auto& d) { MC_CHECK((int)d.size() == n[i], "size of queue %d", i); for (auto& x : d) MC_CHECK(idof(x) >= 10, "queue %d holds a dead value", i); ++i; }); MC_CHECK(i == 3, "queues");
}
struct obj { int x = 0; int touch() { return ++x; } int look() const { return x; } };
MC_SCENARIO("C32", unwrap_references) {
    obj o; const obj co; auto r = std::ref(o); const auto cr = std::ref(o); auto rc = std::cref(o); const auto crc = std::cref(o);
    MC_CHECK(&unwrap(o) == &o && &unwrap(co) == &co && &unwrap(r) == &o && &unwrap(cr) == &o && &unwrap(rc) == &o && &unwrap(crc) == &o, "unwrap gives another object");
    MC_CHECK((std::is_same_v<decltype(unwrap(o)), obj&> && std::is_same_v<decltype(unwrap(co)), const obj&> && std::is_same_v<decltype(unwrap(r)), obj&> && std::is_same_v<decltype(unwrap(rc)), const obj&>), "a helper type is wrong");
    unwrap(r).touch(); unwrap(o).touch(); MC_CHECK(o.x == 2 && unwrap(cr).look() == 2 && unwrap(rc).look() == 2, "unwrap copies");
    MC_CHECK((std::is_same_v<unwrap_reference_t<obj>, obj> && std::is_same_v<unwrap_reference_t<std::reference_wrapper<obj>>, obj> && std::is_same_v<unwrap_reference_t<std::reference_wrapper<const obj>>, const obj> && is_reference_wrapper_v<std::reference_wrapper<obj>> && !is_reference_wrapper_v<obj> && !is_reference_wrapper_v<obj*>), "a helper type is wrong");
}
// scope: the guard lives exactly while the callable runs
struct trace { std::vector<int> ev; };
template <int N> struct guard_n { trace& t; int a, b; explicit guard_n(trace& t, int a = 0, int b = 0) : t(t), a(a), b(b) { t.ev.push_back(1); } guard_n(const guard_n&) = delete; ~guard_n() { t.ev.push_back(2); } };
struct move_guard { mv m; trace& t; move_guard(mv&& x, trace& t) : m(std::move(x)), t(t) { t.ev.push_back(1); } ~move_guard() { t.ev.push_back(2); } };
struct fn_kind { trace& t; int mode; int operator()() & { t.ev.push_back(3); if (mode) throw err{mode}; return 11; } int operator()() && { t.ev.push_back(4); if (mode) throw err{mode}; return 12; } int operator()() const& { t.ev.push_back(5); if (mode) throw err{mode}; return 13; } };
MC_SCENARIO("C32", scopes) {
    trace t; int mode = mc_choose(2) * 9, k = mc_choose(3), g = mc_choose(4), res = 0, thrown = 0; fn_kind f{t, mode};
    auto with = [&](auto&& fn) -> int {
        using Fn = decltype(fn);
        switch (g) { case 0: return scope<guard_n<0>>(t, std::forward<Fn>(fn)); case 1: return scope<guard_n<1>>(t, 4, std::forward<Fn>(fn)); case 2: return scope<guard_n<2>>(t, 4, 5, std::forward<Fn>(fn)); }
        mv m(6); int r; try { r = scope<move_guard>(std::move(m), t, std::forward<Fn>(fn)); } catch (...) { MC_CHECK(m.id == -1, "scope copied"); throw; } MC_CHECK(m.id == -1, "the guard did not get its argument"); return r; };
    try { if (k == 0) res = with(f); else if (k == 1) res = with(std::move(f)); else res = with(std::as_const(f)); } catch (const err& e) { thrown = e.code; }
    MC_CHECK((t.ev == std::vector<int>{1, 3 + k, 2}), "scope: order of guard and callable"); MC_CHECK(mode ? thrown == 9 : res == 11 + k, "scope: result");
    std::mutex m; bool held = false; int calls = 0; auto body = [&] { ++calls; if (m.try_lock()) m.unlock(); else held = true; return mv(3); };
    try { mv r = mc_choose(2) ? scope<std::unique_lock<std::mutex>>(m, body) : scope<std::lock_guard<std::mutex>>(m, std::move(body)); MC_CHECK(idof(r) == 3, "scope: move-only result"); } catch (...) {}
    MC_CHECK(calls == 1 && held, "scope: the mutex is not held during the call"); MC_CHECK(m.try_lock(), "scope: the mutex is held after the call"); m.unlock();
    try { scope<std::unique_lock<std::mutex>>(m, [&]() -> void { throw err{3}; }); mc_fail("scope: the exception is lost"); } catch (const err& e) { MC_CHECK(e.code == 3, "exception"); } MC_CHECK(m.try_lock(), "scope: the mutex is held after an exception"); m.unlock();
    { std::unique_lock<std::mutex> adopted; int n = scope<std::unique_lock<std::mutex>>(m, std::try_to_lock, [&] { return m.try_lock() ? 1 : 2; }); MC_CHECK(n == 2, "scope with two arguments"); }
}
MC_SCENARIO("C32", small_helpers) {
    mv m(1); MC_CHECK((std::is_same_v<decltype(move_if<true>(m)), mv&&> && std::is_same_v<decltype(move_if<false>(m)), mv&>), "a helper type is wrong"); MC_CHECK(&move_if<false>(m) == &m, "move_if"); mv n(move_if<true>(m)); MC_CHECK(n.id == 1 && m.id == -1, "move_if<true> does not move");
    vl v(4); const vl cv(5); vl a = stlab::copy(v), b = stlab::copy(cv); MC_CHECK(a.id == 4 && v.id == 4 && b.id == 5, "copy"); vl c = stlab::move(v); MC_CHECK(c.id == 4 && v.id == -1, "move");
    MC_CHECK((std::is_same_v<index_sequence_cat_t<std::index_sequence<1, 2>, std::index_sequence<7>>, std::index_sequence<1, 2, 7>> && std::is_same_v<index_sequence_cat_t<std::index_sequence<>, std::index_sequence<>>, std::index_sequence<>>), "a helper type is wrong");
    constexpr auto arr = index_sequence_to_array<std::index_sequence<4, 0, 9>>::value; MC_CHECK(arr[0] == 4 && arr[1] == 0 && arr[2] == 9 && arr.size() == 3, "index_sequence_to_array");
}
