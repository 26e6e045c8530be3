// PROPS: C31
// reverse algorithms and set_next on forward-linked, doubly linked and ordinary ranges: every length, sub-range and pivot
#include "common.h"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <stlab/algorithm/reverse.hpp>
#include <stlab/iterator/set_next.hpp>
using namespace stlab;

// a node iterator for singly and doubly linked nodes
struct snode { int id; snode* next = nullptr; };
struct dnode { int id; dnode* next = nullptr; dnode* prev = nullptr; };
template <class N> struct node_it {
    using value_type = int; using difference_type = std::ptrdiff_t; using reference = int&; using pointer = int*;
    using iterator_category = std::conditional_t<std::is_same_v<N, snode>, std::forward_iterator_tag, std::bidirectional_iterator_tag>;
    N* n = nullptr;
    int& operator*() const { return n->id; }
    int* operator->() const { return &n->id; }
    node_it& operator++() { MC_CHECK(n, "increment past the end of a list"); n = n->next; return *this; }
    node_it operator++(int) { auto r = *this; ++*this; return r; }
    node_it& operator--() { if constexpr (std::is_same_v<N, dnode>) { n = n->prev; } else std::abort(); return *this; }
    node_it operator--(int) { auto r = *this; --*this; return r; }
    friend bool operator==(node_it a, node_it b) { return a.n == b.n; }
    friend bool operator!=(node_it a, node_it b) { return a.n != b.n; }
};
static int links = 0;
namespace stlab { inline namespace STLAB_VERSION_NAMESPACE() { namespace unsafe {
template <> struct set_next_fn<node_it<snode>> { void operator()(node_it<snode> x, node_it<snode> y) const { ++links; MC_CHECK(x.n, "set_next of a null node"); x.n->next = y.n; } };
template <> struct set_next_fn<node_it<dnode>> { void operator()(node_it<dnode> x, node_it<dnode> y) const { ++links; MC_CHECK(x.n && y.n, "set_next of a null node"); x.n->next = y.n; y.n->prev = x.n; } };
}}}
using SI = node_it<snode>; using DI = node_it<dnode>;
// n nodes 1..n after a head 0 and before a tail n+1
template <class N> struct chain {
    std::vector<std::unique_ptr<N>> v; using I = node_it<N>; using iterator = I; bool null_end;
    chain(int n, int base = 0, bool null_end = false) : null_end(null_end) { for (int i = 0; i < n + 2; ++i) { v.emplace_back(new N{base + i}); if (i) link(i - 1, i); } if (null_end) v[n]->next = nullptr; }
    void link(int a, int b) { v[a]->next = v[b].get(); if constexpr (std::is_same_v<N, dnode>) v[b]->prev = v[a].get(); }
    I at(int i) const { if (null_end && i == (int)v.size() - 1) return I{}; return I{v[i].get()}; }
    I begin() const { return I{v[0]->next}; } I end() const { return at((int)v.size() - 1); }
    std::vector<int> ids() const { std::vector<int> r; for (N* p = v[0].get(); p; p = p->next) { r.push_back(p->id); MC_CHECK(r.size() < 40, "the list has a cycle"); } return r; }
    void back(const std::vector<int>& want) const { if constexpr (std::is_same_v<N, dnode>) { std::vector<int> r; for (N* p = v.back().get(); p; p = p->prev) { r.push_back(p->id); MC_CHECK(r.size() < 40, "the list has a cycle"); } std::reverse(r.begin(), r.end()); MC_CHECK(r == want, "prior links"); } }
};
template <class N> static void nodes(int nmax, bool null_end) {
    int n = mc_choose(nmax + 1), a = 1 + mc_choose(n + 1), b = a + mc_choose(n + 2 - a); chain<N> c(n, 0, null_end);   // [a, b) of 1..n+1
    auto f = c.at(a), l = c.at(b);
    std::vector<int> w = c.ids(); std::reverse(w.begin() + a, w.begin() + b);
    auto r = unsafe::reverse_nodes(f, l);
    MC_CHECK(r == (a == b ? l : c.at(b - 1)), "reverse_nodes: result");
    { auto it = r; for (int i = a; i < b; ++i, ++it) MC_CHECK(*it == w[i], "reverse_nodes: node %d", i); MC_CHECK(it == l, "reverse_nodes: does not reach last"); }
    if (a != b) unsafe::set_next(c.at(a - 1), r);
    MC_CHECK(c.ids() == w, "reverse_nodes: nodes outside the range"); if (!null_end) c.back(w);
}
MC_SCENARIO("C31", reverse_nodes_forward) { nodes<snode>(8, false); }
MC_SCENARIO("C31", reverse_nodes_forward_null) { nodes<snode>(8, true); }
MC_SCENARIO("C31", reverse_nodes_bidirectional) { nodes<dnode>(8, false); }
// reverse_append: onto another list
template <class N> static void append(int nmax) {
    int n = mc_choose(nmax + 1), a = 1 + mc_choose(n + 1), b = a + mc_choose(n + 2 - a), k = mc_choose(4), e = 1 + mc_choose(k + 1); chain<N> c(n), d(k, 100);
    bool range = a == 1 && b == n + 1 && mc_choose(2);
    auto r = range ? unsafe::reverse_append(c, d.at(e)) : unsafe::reverse_append(c.at(a), c.at(b), d.at(e));
    MC_CHECK(r == (a == b ? d.at(e) : c.at(b - 1)), "reverse_append: result");
    auto it = r; for (int i = b - 1; i >= a; --i, ++it) MC_CHECK(*it == i, "reverse_append: node %d", i);
    for (int i = e; i <= k + 1; ++i) { MC_CHECK(it.n && *it == 100 + i, "reverse_append: what comes after it"); ++it; } MC_CHECK(!it.n, "reverse_append: end");
    for (int i = 0; i + 1 < e; ++i) MC_CHECK(d.v[i]->next == d.v[i + 1].get(), "reverse_append: changes the list before the end it appends");
    for (int i = 0; i + 1 < a; ++i) MC_CHECK(c.v[i]->next == c.v[i + 1].get(), "reverse_append: changes nodes before the range");
    for (int i = b; i <= n; ++i) MC_CHECK(c.v[i]->next == c.v[i + 1].get(), "reverse_append: changes nodes after the range");
}
MC_SCENARIO("C31", reverse_append_forward) { append<snode>(7); }
MC_SCENARIO("C31", reverse_append_bidirectional) { append<dnode>(7); }
MC_SCENARIO("C31", reverse_nodes_range) { int n = mc_choose(9); chain<snode> c(n); auto r = unsafe::reverse_nodes(c); unsafe::set_next(c.at(0), r); std::vector<int> w{0}; for (int i = n; i > 0; --i) w.push_back(i); w.push_back(n + 1); MC_CHECK(c.ids() == w, "reverse_nodes of a range"); }
// set_next, splice_node_range, skip_next_node, skip_node
template <class N> static void relink() {
    int n = mc_choose(6), x = mc_choose(n + 1); chain<N> c(n), d(4, 100); std::vector<int> w = c.ids();
    switch (mc_choose(4)) {
    case 0: { int y = 1 + mc_choose(n + 1); auto before = std::vector<N*>(); for (auto& p : c.v) before.push_back(p->next); links = 0; unsafe::set_next(c.at(x), c.at(y)); MC_CHECK(links == 1, "set_next"); for (int i = 0; i < n + 2; ++i) MC_CHECK(c.v[i]->next == (i == x ? c.v[y].get() : before[i]), "set_next changes another node"); return; }
    case 1: { int a = 1 + mc_choose(4), b = a + mc_choose(5 - a); unsafe::splice_node_range(c.at(x), d.at(a), d.at(b)); for (int i = a; i <= b; ++i) w.insert(w.begin() + x + 1 + (i - a), 100 + i); break; }
    case 2: { if (x + 2 > n + 1) return; unsafe::skip_next_node(c.at(x)); w.erase(w.begin() + x + 1); break; }
    case 3: if constexpr (std::is_same_v<N, dnode>) { if (x < 1) return; unsafe::skip_node(c.at(x)); w.erase(w.begin() + x); } break;
    }
    MC_CHECK(c.ids() == w, "relinking"); c.back(w);
}
MC_SCENARIO("C31", relink_forward) { relink<snode>(); }
MC_SCENARIO("C31", relink_bidirectional) { relink<dnode>(); }
// ordinary ranges
struct mo { int id; explicit mo(int i) : id(i) {} mo(mo&& o) noexcept : id(o.id) { o.id = -1; } mo& operator=(mo&& o) noexcept { MC_CHECK(this != &o, "self-move"); id = o.id; o.id = -1; return *this; } };
static int idof(const mo& m) { return m.id; } static int idof(int i) { return i; }
template <class C> static C fill(int n) { C c; for (int i = 0; i < n; ++i) c.emplace_back(i); return c; }
template <class C> static void until() {
    int n = mc_choose(9); C c = fill<C>(n); int f = mc_choose(n + 1), l = f + mc_choose(n + 1 - f), m = f + mc_choose(l + 1 - f);
    auto at = [&](int i) { return std::next(c.begin(), i); };
    auto r = reverse_until(at(f), at(m), at(l));
    // [f, m) and the as many last of [m, l) have changed places; what is left is [r.first, r.second)
    int k = std::min(m - f, l - m); std::vector<int> w; for (int i = 0; i < n; ++i) w.push_back(i); for (int i = 0; i < k; ++i) std::swap(w[f + i], w[l - 1 - i]);
    int i = 0; for (auto& x : c) { MC_CHECK(idof(x) == w[i], "reverse_until: item %d is %d instead of %d", i, idof(x), w[i]); ++i; } MC_CHECK(i == n, "length");
    MC_CHECK(r.first == at(f + k) && r.second == at(l - k), "reverse_until: result"); MC_CHECK(r.first == at(m) || r.second == at(m), "reverse_until: does not stop at the pivot");
}
MC_SCENARIO("C31", until_vector) { until<std::vector<int>>(); }
MC_SCENARIO("C31", until_list) { until<std::list<int>>(); }
MC_SCENARIO("C31", until_deque_move_only) { until<std::deque<mo>>(); }
template <class C> static void whole() { int n = mc_choose(10); C c = fill<C>(n); stlab::reverse(c); int i = n; for (auto& x : c) MC_CHECK(idof(x) == --i, "reverse: an item is wrong"); MC_CHECK(i == 0, "reverse: length"); }
MC_SCENARIO("C31", reverse_vector) { whole<std::vector<int>>(); }
MC_SCENARIO("C31", reverse_list_move_only) { whole<std::list<mo>>(); }
MC_SCENARIO("C31", reverse_array) { int a[5] = {0, 1, 2, 3, 4}; stlab::reverse(a); for (int i = 0; i < 5; ++i) MC_CHECK(a[i] == 4 - i, "reverse of an array"); const int b[3] = {7, 8, 9}; int o[5] = {-1, -1, -1, -1, -1}; stlab::reverse_copy(b, o + 1); int w[5] = {-1, 9, 8, 7, -1}; MC_CHECK(std::equal(o, o + 5, w), "reverse_copy of an array"); }
MC_SCENARIO("C31", reverse_copy_list) { int n = mc_choose(9); auto c = fill<std::list<int>>(n); std::vector<int> o(n + 2, -1); if (mc_choose(2)) stlab::reverse_copy(c, o.begin() + 1); else stlab::reverse_copy(std::as_const(c), o.begin() + 1); MC_CHECK(o.front() == -1 && o.back() == -1, "reverse_copy writes outside"); int i = 0; for (int x : c) { MC_CHECK(x == i && o[n - i] == i, "reverse_copy: item %d", i); ++i; } }
