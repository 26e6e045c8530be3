// PROPS: C27 C28 C29 C31
// forest against an event-list model: every tree shape, every operation, every position
#include "common.h"
#include <algorithm>
#include <iterator>
#include <list>
#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>
using namespace stlab;

// counter 80: live values
struct value {
    int id;
    explicit value(int id) : id(id) { mc_count(80, 1); }
    value(const value& o) : id(o.id) { MC_CHECK(o.id > -100, "dead value copied"); mc_count(80, 1); }
    value(value&& o) noexcept : id(o.id) { MC_CHECK(o.id > -100, "dead value moved"); o.id = -5; mc_count(80, 1); }
    value& operator=(const value&) = default;
    ~value() { id = -200; mc_count(80, -1); }
    friend bool operator==(const value& a, const value& b) { return a.id == b.id; }
    friend bool operator!=(const value& a, const value& b) { return a.id != b.id; }
};
using F = forest<value>;
using It = F::iterator; using CIt = F::const_iterator; using Ch = F::child_iterator; using CCh = F::const_child_iterator;

struct ev { int n; bool lead; bool operator==(const ev& o) const { return n == o.n && lead == o.lead; } };
using evs = std::vector<ev>;
struct ninfo { It it; const value* addr; int id; };
static std::vector<ninfo>* g_nodes;
static int node_of(It it, int id) { g_nodes->push_back({it, &*it, id}); return (int)g_nodes->size() - 1; }
struct nodes_guard { nodes_guard() { g_nodes = new std::vector<ninfo>; } ~nodes_guard() { delete g_nodes; g_nodes = nullptr; } };

static It at(F& f, const evs& e, int i) {       // event i of f as an iterator (recorded when the node was made)
    if (i == (int)e.size()) return f.end();
    It it = (*g_nodes)[e[i].n].it; return e[i].lead ? leading_of(it) : trailing_of(it);
}
static int match(const evs& e, int i) { for (int j = 0; j < (int)e.size(); ++j) if (e[j].n == e[i].n && j != i) return j; return -1; }
static int count_nodes(const evs& e) { return (int)e.size() / 2; }
// event after event i, seen as a child position: the next sibling or the parent's trailing edge
static int next_child(const evs& e, int i) { return match(e, i) + 1; }
static bool is_end(const evs& e, int i) { return i == (int)e.size() || !e[i].lead; }

static void verify(F& f, const evs& e, const char* what) {
    const F& c = f;
    int i = 0;
    for (It it = f.begin(); ; ++it, ++i) {
        MC_CHECK(i <= (int)e.size(), "%s: traversal goes past the end", what);
        if (i == (int)e.size()) { MC_CHECK(it == f.end(), "%s: there are more edges than expected", what); break; }
        MC_CHECK(it != f.end(), "%s: traversal ends early", what);
        auto& n = (*g_nodes)[e[i].n];
        MC_CHECK(is_leading(it) == e[i].lead, "%s: edge %d is wrong", what, i);
        MC_CHECK(&*it == n.addr && it->id == n.id, "%s: node at %d is wrong", what, i);
        It r = at(f, e, i); MC_CHECK(r == it, "%s: an iterator to node %d is not valid any more", what, n.id);
    }
    CIt ci = c.end(); for (i = (int)e.size(); i-- > 0;) { --ci; auto& n = (*g_nodes)[e[i].n]; MC_CHECK(is_leading(ci) == e[i].lead && &*ci == n.addr, "%s: backward traversal differs at %d", what, i); }
    MC_CHECK(ci == c.begin(), "%s: begin", what);
    MC_CHECK(f.empty() == e.empty(), "%s: empty()", what);
    if (f.size_valid()) MC_CHECK(f.size() == e.size() / 2, "%s: size() is %d instead of %d", what, (int)f.size(), count_nodes(e));
    if (!e.empty()) { MC_CHECK(&f.front() == (*g_nodes)[e.front().n].addr && &c.front() == &f.front(), "%s: front", what); MC_CHECK(&f.back() == (*g_nodes)[e.back().n].addr && &c.back() == &f.back(), "%s: back", what); }
}
static void verify_size(F& f, const evs& e) { MC_CHECK(f.size() == e.size() / 2 && f.size_valid(), "size() is %d instead of %d", (int)f.size(), count_nodes(e)); }
static bool model_equal(const evs& a, const evs& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (a[i].lead != b[i].lead || (*g_nodes)[a[i].n].id != (*g_nodes)[b[i].n].id) return false;
    return true;
}
// registers the nodes that a copy made at events [i, i + pattern) and returns the model events
static evs adopt(It first, const evs& pattern) {
    evs r; std::vector<int> st;
    for (auto& p : pattern) {
        if (p.lead) { MC_CHECK(is_leading(first), "copy: edge"); int id = (*g_nodes)[p.n].id; MC_CHECK(first->id == id, "copy: value"); int n = node_of(first, id); MC_CHECK((*g_nodes)[n].addr != (*g_nodes)[p.n].addr, "the copy shares a node"); r.push_back({n, true}); st.push_back(n); }
        else { MC_CHECK(is_trailing(first), "copy: edge"); r.push_back({st.back(), false}); st.pop_back(); }
        ++first;
    }
    return r;
}
// every ordered forest with n nodes
static void grow(F& f, evs& e, int n, int& ids) {
    It pos = f.end(); std::vector<int> st; int open = 0;
    while (n > 0 || open > 0) {
        bool lead = n > 0 && (open == 0 || mc_choose(2) == 0);
        if (lead) { It it = f.insert(pos, value(++ids)); int k = node_of(it, ids); e.push_back({k, true}); st.push_back(k); pos = trailing_of(it); --n; ++open; }
        else { e.push_back({st.back(), false}); st.pop_back(); --open; pos = std::next(pos); }
    }
}
static void invalidate_size(F& f) { if (f.empty()) return; F t; t.splice(t.end(), f, Ch(f.begin()), Ch(f.end())); f = F(); f.splice(f.end(), t, Ch(t.begin()), Ch(t.end())); MC_CHECK(!f.size_valid(), "size valid"); }

struct machine {
    nodes_guard g; F f[2]; evs m[2]; int ids = 0, cap = 100;
    evs& insert_ev(int k, int p, const evs& x) { m[k].insert(m[k].begin() + p, x.begin(), x.end()); return m[k]; }
    // a range of siblings: positions i..j of f[k]
    bool choose_range(int k, int& i, int& j) {
        i = mc_choose((int)m[k].size() + 1); j = i; int c = 1;
        for (int t = i; !is_end(m[k], t); t = next_child(m[k], t)) ++c;
        for (int s = mc_choose(c); s > 0; --s) j = next_child(m[k], j);
        return true;
    }
    int fresh() { return ++ids; }
    // one operation; false: not applicable
    bool step() {
        int total = count_nodes(m[0]) + count_nodes(m[1]);
        switch (mc_choose(24)) {
        case 0: { // insert
            if (total >= cap) return false;
            int p = mc_choose((int)m[0].size() + 1); int id = fresh(); It pos = at(f[0], m[0], p); It it = f[0].insert(pos, value(id));
            MC_CHECK(is_leading(it) && it->id == id && std::next(trailing_of(it)) == pos, "insert: result");
            int n = node_of(it, id); insert_ev(0, p, {{n, true}, {n, false}}); return true;
        }
        case 1: { if (total >= cap) return false; int id = fresh(); value v(id); bool fr = mc_choose(2); if (fr) f[0].push_front(v); else f[0].push_back(v); It it = fr ? f[0].begin() : leading_of(std::prev(f[0].end())); MC_CHECK(it->id == id, "push"); int n = node_of(it, id); insert_ev(0, fr ? 0 : (int)m[0].size(), {{n, true}, {n, false}}); return true; }
        case 2: { if (m[0].empty()) return false; bool fr = mc_choose(2); int n = fr ? m[0].front().n : m[0].back().n; if (fr) f[0].pop_front(); else f[0].pop_back(); drop(0, n); return true; }
        case 3: { // erase one
            if (m[0].empty()) return false;
            int p = mc_choose((int)m[0].size()); int n = m[0][p].n; It it = f[0].erase(at(f[0], m[0], p));
            int q = p; if (!m[0][p].lead) --q;              // the leading edge went too
            drop(0, n); MC_CHECK(it == at(f[0], m[0], q), "erase: result"); return true;
        }
        case 4: { // erase a range of edges
            if (m[0].empty()) return false;
            int a = mc_choose((int)m[0].size() + 1), b = a + mc_choose((int)m[0].size() + 1 - a);
            It l = at(f[0], m[0], b); It it = f[0].erase(at(f[0], m[0], a), l); MC_CHECK(it == l, "erase range: result");
            evs r; for (int i = 0; i < (int)m[0].size(); ++i) { int j = match(m[0], i); bool in = i >= a && i < b && j >= a && j < b; if (!in) r.push_back(m[0][i]); } m[0] = r; return true;
        }
        case 5: { // insert_parent
            if (total >= cap) return false;
            int i, j; choose_range(0, i, j); int id = fresh(); value v(id); It last = at(f[0], m[0], j);
            It it = f[0].insert_parent(Ch(at(f[0], m[0], i)), Ch(last), v); MC_CHECK(is_leading(it) && it->id == id && std::next(trailing_of(it)) == last, "insert_parent: result");
            int n = node_of(it, id); insert_ev(0, j, {{n, false}}); insert_ev(0, i, {{n, true}}); return true;
        }
        case 6: { // splice a whole forest
            int p = mc_choose((int)m[0].size() + 1); It pos = at(f[0], m[0], p); It b = f[1].empty() ? pos : f[1].begin(); It it = f[0].splice(pos, f[1]); MC_CHECK(it == b, "splice: result");
            insert_ev(0, p, m[1]); m[1].clear(); return true;
        }
        case 7: case 8: { // splice one node with what is below it; both orders of forests
            int k = mc_choose(2); if (m[k].empty()) return false;
            int x = mc_choose((int)m[k].size()); int lo = m[k][x].lead ? x : match(m[k], x), hi = match(m[k], lo) + 1;
            return splice(k, lo, hi, [&](It pos) { return f[0].splice(pos, f[k], at(f[k], m[k], x)); });
        }
        case 9: case 10: { // splice a range, 9: count unknown, 10: known
            int k = mc_choose(2), i, j; choose_range(k, i, j); bool known = mc_choose(2); size_t cnt = (j - i) / 2;
            return splice(k, i, j, [&](It pos) { return known ? f[0].splice(pos, f[k], Ch(at(f[k], m[k], i)), Ch(at(f[k], m[k], j)), cnt) : f[0].splice(pos, f[k], Ch(at(f[k], m[k], i)), Ch(at(f[k], m[k], j))); });
        }
        case 11: { // reverse
            int i, j; choose_range(0, i, j); f[0].reverse(Ch(at(f[0], m[0], i)), Ch(at(f[0], m[0], j)));
            evs r; for (int t = i; t != j; t = next_child(m[0], t)) r.insert(r.begin(), m[0].begin() + t, m[0].begin() + next_child(m[0], t)); std::copy(r.begin(), r.end(), m[0].begin() + i); return true;
        }
        case 12: case 13: { // insert copies of a range of the other, or of this forest
            int k = mc_choose(2), i, j; choose_range(k, i, j); if (total + (j - i) / 2 > cap) return false;
            int p = mc_choose((int)m[0].size() + 1); if (k == 0 && p >= i && p <= j) return false;
            evs pat(m[k].begin() + i, m[k].begin() + j); It pos = at(f[0], m[0], p); It bef = std::prev(pos);
            It it = f[0].insert(pos, CCh(at(f[k], m[k], i)), CCh(at(f[k], m[k], j))); MC_CHECK(it == pos, "insert range: result");
            evs a = adopt(std::next(bef), pat); insert_ev(0, p, a); return true;
        }
        case 14: { if (total + count_nodes(m[0]) - count_nodes(m[1]) > cap && count_nodes(m[0]) > count_nodes(m[1])) return false; f[1] = std::as_const(f[0]); m[1] = adopt(f[1].begin(), m[0]); MC_CHECK(f[1] == f[0] && !(f[1] != f[0]), "a copy is not equal"); return true; }
        case 15: { f[1] = std::move(f[0]); m[1] = m[0]; m[0].clear(); return true; }
        case 16: { F t(std::move(f[0])); verify(t, m[0], "moved"); verify(f[0], {}, "moved from"); F u(t); MC_CHECK(u == t, "a copy is not equal"); verify(t, m[0], "copied"); u.clear(); MC_CHECK(u.empty() && u.size() == 0, "clear"); f[0] = std::move(t); return true; }
        case 17: { f[0].swap(f[1]); std::swap(m[0], m[1]); return true; }
        case 18: { f[0].clear(); m[0].clear(); return true; }
        case 19: { f[0].swap(f[0]); return true; }
        case 20: { auto* p = &f[0]; f[0] = std::move(*p); return true; }
        case 21: { verify_size(f[0], m[0]); return true; }
        case 22: { // children of a node, or of the root
            int p = mc_choose((int)m[0].size() + 1); It it = p == (int)m[0].size() ? f[0].root() : at(f[0], m[0], p); child_adaptor<F> ca(f[0], it);
            int lo = p == (int)m[0].size() ? 0 : (m[0][p].lead ? p : match(m[0], p)) + 1, hi = p == (int)m[0].size() ? p : match(m[0], lo - 1); bool back = mc_choose(2);
            if (mc_choose(2)) { if (total >= cap) return false; int id = fresh(); value v(id); if (back) ca.push_back(v); else ca.push_front(v); It n = back ? leading_of(std::prev(child_end(it).base())) : child_begin(it).base(); MC_CHECK(n->id == id, "child_adaptor push"); int k = node_of(n, id); insert_ev(0, back ? hi : lo, {{k, true}, {k, false}}); MC_CHECK(&ca.back() == (*g_nodes)[m[0][back ? hi : hi + 1].n].addr && &ca.front() == (*g_nodes)[m[0][lo].n].addr, "child_adaptor ends"); }
            else { if (lo == hi) return false; int n = back ? m[0][hi - 1].n : m[0][lo].n; MC_CHECK((back ? ca.back() : ca.front()).id == (*g_nodes)[n].id, "child_adaptor end"); if (back) ca.pop_back(); else ca.pop_front(); drop(0, n); }
            return true;
        }
        case 23: { // the value of a node is assigned
            if (m[0].empty()) return false; int p = mc_choose((int)m[0].size()); int id = fresh(); value v(id); *at(f[0], m[0], p) = v; (*g_nodes)[m[0][p].n].id = id; return true;
        }
        }
        return false;
    }
    void drop(int k, int n) { evs r; for (auto& x : m[k]) if (x.n != n) r.push_back(x); m[k] = r; }
    template <class Op> bool splice(int k, int lo, int hi, Op op) {
        int p = mc_choose((int)m[0].size() + 1); if (k == 0 && p > lo && p < hi) return false;
        It pos = at(f[0], m[0], p); It first = at(f[k], m[k], lo); It it = op(pos); MC_CHECK(it == (lo == hi ? pos : first), "splice: result");
        evs r(m[k].begin() + lo, m[k].begin() + hi); 
        if (k == 0) { if (p <= lo || p >= hi) { m[0].erase(m[0].begin() + lo, m[0].begin() + hi); if (p >= hi) p -= hi - lo; insert_ev(0, p, r); } }
        else { m[k].erase(m[k].begin() + lo, m[k].begin() + hi); insert_ev(0, p, r); }
        return true;
    }
    void check() {
        verify(f[0], m[0], "first forest"); verify(f[1], m[1], "second forest");
        MC_CHECK(mc_get(80) == count_nodes(m[0]) + count_nodes(m[1]), "%ld values are alive instead of %d", mc_get(80), count_nodes(m[0]) + count_nodes(m[1]));
    }
    void finish() { 
        bool eq = f[0] == f[1]; MC_CHECK(eq == model_equal(m[0], m[1]), "forests compare %s", eq ? "equal" : "different"); MC_CHECK((f[0] != f[1]) == !eq, "!=");
        { F c(f[0]); evs cm = adopt(c.begin(), m[0]); verify(c, cm, "copy"); verify_size(c, cm); MC_CHECK(c == f[0], "a copy is not equal"); if (!cm.empty()) { c.front().id = -1; MC_CHECK(c != f[0], "forests of different values are equal"); c.front().id = (*g_nodes)[cm.front().n].id; c.push_back(value(-3)); MC_CHECK(c != f[0] && f[0] != c, "forests of different sizes are equal"); c.pop_back(); c.insert_parent(Ch(c.begin()), ++Ch(c.begin()), value(-2)); MC_CHECK(c != f[0], "forests of different sizes are equal"); } }
        verify_size(f[0], m[0]); verify_size(f[1], m[1]); check();
        f[0].clear(); m[0].clear(); check(); f[1] = F(); m[1].clear(); check();
    }
    uint64_t hash(int left) { uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; }; for (int k = 0; k < 2; ++k) { for (auto& x : m[k]) mix(x.lead ? 2 : 3); mix(5 + f[k].size_valid()); } mix(left + 10); return h; }
    void run(int nmax, int ops) {
        int t = mc_choose(nmax + 1), a = mc_choose(t + 1); grow(f[0], m[0], a, ids); grow(f[1], m[1], t - a, ids);
        if (!m[0].empty() && mc_choose(2)) invalidate_size(f[0]);
        if (!m[1].empty() && mc_choose(2)) invalidate_size(f[1]);
        check();
        for (int i = 0; i < ops; ++i) { if (!step()) return finish(); check(); }
        finish();
    }
    void states(int c, int depth) { cap = c; check(); for (int i = 0; i < depth; ++i) { if (!step()) break; check(); if (mc_seen(hash(depth - i))) { finish(); return; } } finish(); }
};
MC_SCENARIO("C27", op_5, .budget = 90) { machine m; m.run(5, 1); }
MC_SCENARIO("C27", ops_2_2, .budget = 120) { machine m; m.run(2, 2); }
MC_SCENARIO("C27", ops_3_2, .thorough_only = 1) { machine m; m.run(3, 2); }
MC_SCENARIO("C27", op_states_4) { machine m; m.states(4, 6); }
MC_SCENARIO("C27", op_6, .thorough_only = 1) { machine m; m.run(6, 1); }
MC_SCENARIO("C27", op_states_5, .thorough_only = 1) { machine m; m.states(5, 10); }
MC_SCENARIO("C27", op_7, .thorough_only = 1) { machine m; m.run(7, 1); }
MC_SCENARIO("C27", ops_4_2, .thorough_only = 1) { machine m; m.run(4, 2); }
MC_SCENARIO("C27", ops_2_3, .thorough_only = 1) { machine m; m.run(2, 3); }
MC_SCENARIO("C27", op_states_6, .thorough_only = 1) { machine m; m.states(6, 12); }

// forest::reverse for C31: every child range
MC_SCENARIO("C31", forest_reverse_6) {
    machine m; int n = mc_choose(7); grow(m.f[0], m.m[0], n, m.ids); int i, j; m.choose_range(0, i, j);
    m.f[0].reverse(Ch(at(m.f[0], m.m[0], i)), Ch(at(m.f[0], m.m[0], j)));
    evs r; for (int t = i; t != j; t = next_child(m.m[0], t)) r.insert(r.begin(), m.m[0].begin() + t, m.m[0].begin() + next_child(m.m[0], t)); std::copy(r.begin(), r.end(), m.m[0].begin() + i); m.check(); m.finish();
}

// ---- C28: traversals
static int depth_at(const evs& e, int i) { int d = 0; for (int k = 0; k < i; ++k) d += e[k].lead ? 1 : -1; if (i < (int)e.size() && !e[i].lead) --d; return d; }
static int parent_trailing(const evs& e, int i) { int d = 0; for (int k = (e[i].lead ? match(e, i) : i) + 1; k < (int)e.size(); ++k) { if (e[k].lead) ++d; else if (d-- == 0) return k; } return (int)e.size(); }

// R's begin()..end() gives exactly the nodes of `want` (addresses), both ways, by both kinds of increment
template <class R> static void same(const R& r, const std::vector<const value*>& want, const char* what) {
    auto b = r.begin(), l = r.end(); size_t i = 0;
    for (auto it = b; it != l; ++it, ++i) { MC_CHECK(i < want.size(), "%s: too many", what); MC_CHECK(&*it == want[i], "%s: item %d is wrong", what, (int)i); MC_CHECK(it->id == want[i]->id, "%s: ->", what); auto j = it; MC_CHECK(j == it && &*j++ == want[i], "%s: it++", what); auto k = j; MC_CHECK(k-- == j && k == it, "%s: it--", what); }
    MC_CHECK(i == want.size(), "%s: %d of %d visited", what, (int)i, (int)want.size());
    auto it = l; for (; i-- > 0;) { MC_CHECK(it != b, "%s: backward: too few", what); --it; MC_CHECK(&*it == want[i], "%s: backward: item %d is wrong", what, (int)i); }
    MC_CHECK(it == b, "%s: backward: begin", what);
}
template <class R> static void same_events(const R& r, const evs& want, const char* what) {
    auto b = r.begin(), l = r.end(); size_t i = 0;
    for (auto it = b; it != l; ++it, ++i) { MC_CHECK(i < want.size(), "%s: too many", what); MC_CHECK(&*it == (*g_nodes)[want[i].n].addr && is_leading(it) == want[i].lead, "%s: edge %d is wrong", what, (int)i); auto j = it; ++j; --j; MC_CHECK(j == it, "%s: increment and decrement", what); auto k = it; MC_CHECK(k++ == it, "%s: it++", what); }
    MC_CHECK(i == want.size(), "%s: %d of %d edges", what, (int)i, (int)want.size());
}
template <class R> static void same_events_back(const R& r, const evs& want, const char* what) {
    auto b = r.begin(), it = r.end();
    for (int i = (int)want.size(); i-- > 0;) { MC_CHECK(it != b, "%s: backward: too few", what); --it; MC_CHECK(&*it == (*g_nodes)[want[i].n].addr && is_leading(it) == want[i].lead, "%s: backward: edge %d is wrong", what, i); }
    MC_CHECK(it == b, "%s: backward: begin", what);
}
static evs reversed(const evs& e) { evs r(e.rbegin(), e.rend()); for (auto& x : r) x.lead = !x.lead; return r; }
// children of the node at event i (in the given sequence), in order
static std::vector<const value*> kids(const evs& e, int i) { std::vector<const value*> r; int lo = e[i].lead ? i : match(e, i); for (int t = lo + 1; e[t].lead; t = next_child(e, t)) r.push_back((*g_nodes)[e[t].n].addr); return r; }
static std::vector<const value*> top(const evs& e) { std::vector<const value*> r; for (int t = 0; t < (int)e.size(); t = next_child(e, t)) r.push_back((*g_nodes)[e[t].n].addr); return r; }
// structure queries through any kind of full-order iterator that walks the events of `e`
template <class I> static void structure(I b, I l, const evs& e, const char* what) {
    std::vector<I> p; for (I it = b;; ++it) { p.push_back(it); if (it == l) break; }
    MC_CHECK(p.size() == e.size() + 1, "%s: edges", what);
    for (int i = 0; i < (int)e.size(); ++i) {
        MC_CHECK(has_children(p[i]) == !kids(e, i).empty(), "%s: has_children at %d", what, i);
        same(child_range(p[i]), kids(e, i), what);
        same(forest_range<child_iterator<I>>{child_begin(p[i]), child_end(p[i])}, kids(e, i), what);
        std::vector<const value*> k = kids(e, i); std::reverse(k.begin(), k.end()); using RC = std::reverse_iterator<child_iterator<I>>; size_t z = 0;
        for (RC x{child_end(p[i])}, y{child_begin(p[i])}; x != y; ++x, ++z) MC_CHECK(z < k.size() && &*x == k[z], "%s: children in reverse", what);
        MC_CHECK(z == k.size(), "%s: children in reverse: count", what);
        int q = parent_trailing(e, i); MC_CHECK(find_parent(p[i]) == p[q], "%s: find_parent at %d", what, i);
        MC_CHECK(leading_of(p[i]) == p[e[i].lead ? i : match(e, i)] && trailing_of(p[i]) == p[e[i].lead ? match(e, i) : i] && pivot_of(p[i]) == p[match(e, i)], "%s: leading_of, trailing_of, pivot_of at %d", what, i);
        I v = p[i]; pivot(v); MC_CHECK(v == p[match(e, i)] && v != p[i] && v.equal_node(p[i]), "%s: pivot at %d", what, i); 
        for (int j = 0; j <= (int)e.size(); ++j) { MC_CHECK((p[i] == p[j]) == (i == j) && (p[i] != p[j]) == (i != j), "%s: ==", what); if (j < (int)e.size()) MC_CHECK(p[i].equal_node(p[j]) == (e[i].n == e[j].n), "%s: equal_node", what); }
        int a = i; while (a < (int)e.size() && e[a].lead) ++a; MC_CHECK(find_edge(p[i], forest_edge::trailing) == p[a], "%s: find_edge", what);
        a = i; while (a < (int)e.size() && !e[a].lead) ++a; if (a < (int)e.size()) MC_CHECK(find_edge(p[i], forest_edge::leading) == p[a], "%s: find_edge", what);
        a = i; while (a >= 0 && !e[a].lead) --a; if (a >= 0) MC_CHECK(find_edge_reverse(p[i], forest_edge::leading) == p[a], "%s: find_edge_reverse", what);
        a = i; while (a >= 0 && e[a].lead) --a; if (a >= 0) MC_CHECK(find_edge_reverse(p[i], forest_edge::trailing) == p[a], "%s: find_edge_reverse", what);
    }
}
struct in_mask { unsigned mask = 0; bool operator()(const value& v) const { return (mask >> v.id & 1) != 0; } };
static int index_of(const evs& e, ev x) { for (int i = 0; i < (int)e.size(); ++i) if (e[i] == x) return i; return -1; }
template <class R, class FF> static void same_events_filter(const R& r, const evs& fe, const evs& e, FF& f) {
    auto b = r.begin(), l = r.end(); size_t i = 0; using FI = decltype(b);
    for (auto it = b; it != l; ++it, ++i) {
        MC_CHECK(i < fe.size(), "filter: too many"); MC_CHECK(&*it == (*g_nodes)[fe[i].n].addr && is_leading(it) == fe[i].lead, "filter: edge %d is wrong", (int)i);
        auto k = it; MC_CHECK(k++ == it, "filter: it++"); MC_CHECK(it.predicate()(*it), "filter: a node that the predicate rejects"); MC_CHECK(it.base() == at(const_cast<F&>(static_cast<const F&>(f)), e, index_of(e, fe[i])), "filter base"); MC_CHECK(it.equal_node(leading_of(it)), "filter equal_node");
        // back again, where the last kept edge exists
        if (i > 0) { FI j = it; --j; MC_CHECK(&*j == (*g_nodes)[fe[i - 1].n].addr && is_leading(j) == fe[i - 1].lead, "filter: decrement at %d", (int)i); ++j; MC_CHECK(j == it, "filter: decrement and increment at %d", (int)i); }
    }
    MC_CHECK(i == fe.size(), "filter: %d of %d edges", (int)i, (int)fe.size());
    auto it = l; for (; i-- > 0;) { --it; MC_CHECK(&*it == (*g_nodes)[fe[i].n].addr && is_leading(it) == fe[i].lead, "filter: backward: edge %d is wrong", (int)i); }
    MC_CHECK(it == b, "filter: backward: begin");
}
// it++ and it-- return the old position and move by one
template <class I> static void postfix(I b, I l, const char* what) {
    for (I it = b; it != l; ++it) { I n = it; ++n; I a = it; I o = a++; MC_CHECK(o == it && a == n, "%s: it++", what); MC_CHECK(a.operator->() == n.operator->(), "%s: ->", what); o = a--; MC_CHECK(o == n && a == it && &*a == a.operator->(), "%s: it--", what); }
}
template <class FF> static void traverse(FF& f, const evs& e) {
    using I = decltype(f.begin());
    postfix(f.begin(), f.end(), "full order"); postfix(CIt(f.begin()), CIt(f.end()), "full order, const");
    { auto r = reverse_fullorder_range(f); postfix(r.begin(), r.end(), "reverse"); auto d = depth_range(f); postfix(d.begin(), d.end(), "depth range"); auto p = preorder_range(f); postfix(p.begin(), p.end(), "preorder"); auto q = postorder_range(f); postfix(q.begin(), q.end(), "postorder"); auto c = child_range(f.root()); postfix(c.begin(), c.end(), "children"); }
    std::vector<const value*> pre, post; for (auto& x : e) (x.lead ? pre : post).push_back((*g_nodes)[x.n].addr);
    same_events(forest_range<I>{f.begin(), f.end()}, e, "full order"); same_events_back(forest_range<I>{f.begin(), f.end()}, e, "full order");
    structure(f.begin(), f.end(), e, "full order");
    MC_CHECK(std::next(f.root()) == f.begin() && std::prev(f.begin()) == f.root() && f.root().equal_node(f.end()) && is_leading(f.root()) && is_trailing(f.end()), "root");
    same(child_range(f.root()), top(e), "top level"); MC_CHECK(has_children(f.root()) == !e.empty() && has_children(f.end()) == !e.empty(), "has_children of the root");
    same(preorder_range(f), pre, "preorder"); same(postorder_range(f), post, "postorder");
    same(forest_range<edge_iterator<I, forest_edge::leading>>{edge_iterator<I, forest_edge::leading>(f.begin()), edge_iterator<I, forest_edge::leading>(f.end())}, pre, "preorder");
    for (int i = 0; i < (int)e.size(); ++i) { I it = std::next(f.begin(), i); int a = i; while (a < (int)e.size() && !e[a].lead) ++a; edge_iterator<I, forest_edge::leading> p(it); if (a < (int)e.size()) MC_CHECK(p.base() == std::next(f.begin(), a), "preorder from %d", i); else MC_CHECK(p == preorder_range(f).end(), "preorder from %d", i); a = i; while (e[a].lead) ++a; edge_iterator<I, forest_edge::trailing> q(it); MC_CHECK(q.base() == std::next(f.begin(), a), "postorder from %d", i); }
    // reverse
    evs re = reversed(e); auto rr = reverse_fullorder_range(f);
    same_events(rr, re, "reverse"); same_events_back(rr, re, "reverse"); structure(rr.begin(), rr.end(), re, "reverse");
    { auto b = f.rbegin(), l = f.rend(); MC_CHECK(b == rr.begin() && l == rr.end(), "rbegin, rend"); MC_CHECK(b.base() == f.end() && l.base() == f.begin(), "reverse base"); 
      int i = (int)e.size(); for (auto it = b;; ++it, --i) { MC_CHECK(it.base() == std::next(f.begin(), i), "reverse base at %d", i); reverse_fullorder_iterator<I> x(std::next(f.begin(), i)); MC_CHECK(x == it, "reverse of %d", i); reverse_fullorder_iterator<CIt> c(it); MC_CHECK(c == reverse_fullorder_iterator<CIt>(CIt(std::next(f.begin(), i))), "reverse of %d as const", i); if (it == l) break; } }
    // depth
    { auto d = depth_range(f); using D = decltype(d.begin()); same_events(d, e, "depth range"); same_events_back(d, e, "depth range"); int i = 0; for (auto it = d.begin();; ++it, ++i) { MC_CHECK(it.edge() == (i < (int)e.size() ? (e[i].lead ? forest_edge::leading : forest_edge::trailing) : forest_edge::trailing), "depth edge"); if (it == d.end()) break; MC_CHECK(it.depth() == depth_at(e, i), "depth at %d is %d instead of %d", i, (int)it.depth(), depth_at(e, i)); D j = it; ++j; --j; MC_CHECK(j.depth() == it.depth(), "depth after increment and decrement at %d", i); 
          for (int s = 0; s < 2; ++s) { D w(it.base(), 7); int k = i; if (s == 0) for (; k + 1 < (int)e.size(); ) { ++w; ++k; MC_CHECK(w.depth() == 7 + depth_at(e, k) - depth_at(e, i), "depth from %d at %d", i, k); } else for (; k > 0;) { --w; --k; MC_CHECK(w.depth() == 7 + depth_at(e, k) - depth_at(e, i), "depth back from %d at %d", i, k); } } }
      structure(d.begin(), d.end(), e, "depth range"); }
    // filter: every subset of the nodes
    if (count_nodes(e) <= 6) {
        unsigned mask = 0; int k = 0; for (auto& x : e) if (x.lead) { (*g_nodes)[x.n].it->id = k; (*g_nodes)[x.n].id = k; ++k; }
        mask = mc_choose(1 << k); in_mask pred{mask};
        evs fe; int skip = 0; for (auto& x : e) { bool out = !(mask >> (*g_nodes)[x.n].id & 1); if (x.lead) { if (skip || out) { ++skip; continue; } fe.push_back(x); } else { if (skip) { --skip; continue; } fe.push_back(x); } }
        auto r = filter_fullorder_range(f, pred); postfix(r.begin(), r.end(), "filtered range"); same_events_filter(r, fe, e, f); structure(r.begin(), r.end(), fe, "filtered range");
        { std::vector<const value*> fpre, fpost; for (auto& x : fe) (x.lead ? fpre : fpost).push_back((*g_nodes)[x.n].addr); 
          using FI = decltype(r.begin()); auto q = r.begin(); std::vector<const value*> gp, gq; for (; q != r.end(); ++q) (is_leading(q) ? gp : gq).push_back(&*q); MC_CHECK(gp == fpre && gq == fpost, "filtered order"); 
          edge_iterator<FI, forest_edge::trailing> pb(r.begin()), pl(r.end()); size_t i = 0; for (; pb != pl; ++pb, ++i) MC_CHECK(i < fpost.size() && &*pb == fpost[i], "filtered postorder"); MC_CHECK(i == fpost.size(), "filtered postorder"); for (; i-- > 0;) { --pl; MC_CHECK(&*pl == fpost[i], "filtered postorder: backward"); } }
        // depth and reverse over the filtered range
        { using FI = decltype(r.begin()); using D = depth_fullorder_iterator<FI>; int i = 0; D l(r.end()); for (D it(r.begin()); it != l; ++it, ++i) MC_CHECK(it.depth() == depth_at(fe, i), "depth of a filtered range"); }
        { using FI = decltype(r.begin()); std::vector<const value*> fpre; for (auto& x : fe) if (x.lead) fpre.push_back((*g_nodes)[x.n].addr); edge_iterator<FI, forest_edge::leading> pb(r.begin()), pl(r.end()); size_t i = 0; for (; pb != pl; ++pb, ++i) MC_CHECK(i < fpre.size() && &*pb == fpre[i], "filtered preorder"); MC_CHECK(i == fpre.size(), "filtered preorder"); for (; i-- > 0;) { --pl; MC_CHECK(&*pl == fpre[i], "filtered preorder: backward"); } }
    }
}

static void traverse_n(int n, bool c) { machine m; int k = mc_choose(n + 1); grow(m.f[0], m.m[0], k, m.ids); if (c) traverse(std::as_const(m.f[0]), m.m[0]); else traverse(m.f[0], m.m[0]); m.check(); }
MC_SCENARIO("C28", traverse_5) { traverse_n(5, false); }
MC_SCENARIO("C28", traverse_const_5) { traverse_n(5, true); }
MC_SCENARIO("C28", traverse_6, .thorough_only = 1) { traverse_n(6, false); }
MC_SCENARIO("C28", traverse_const_8, .thorough_only = 1) { traverse_n(8, true); }

// ---- C29
using opt_int = std::optional<int>;
template <class T> static std::vector<std::pair<bool, int>> dump(const forest<T>& f) { std::vector<std::pair<bool, int>> r; std::vector<int> st; for (auto i = f.begin(); i != f.end(); ++i) { int v; if constexpr (std::is_same_v<T, value>) v = i->id; else v = (int)*i; r.push_back({is_leading(i), v}); } return r; }
static std::vector<std::pair<bool, int>> want(const evs& e, int add = 0) { std::vector<std::pair<bool, int>> r; for (auto& x : e) r.push_back({x.lead, (*g_nodes)[x.n].id + add}); return r; }
using dumped = std::vector<std::pair<bool, int>>;
static void flat(int n) {
    machine m; int k = mc_choose(n + 1); grow(m.f[0], m.m[0], k, m.ids); evs& e = m.m[0]; const F& f = m.f[0];
    std::vector<std::optional<value>> flat; forests::flatten(f.begin(), f.end(), std::back_inserter(flat));
    MC_CHECK(flat.size() == e.size(), "flatten gives %d items for %d edges", (int)flat.size(), (int)e.size());
    for (size_t i = 0; i < e.size(); ++i) MC_CHECK(e[i].lead ? flat[i] && flat[i]->id == (*g_nodes)[e[i].n].id : !flat[i], "flatten: item %d is wrong", (int)i);
    std::vector<std::optional<value>> buf(e.size() + 2, std::optional<value>(value(-9))); auto o = forests::flatten(m.f[0].begin(), m.f[0].end(), buf.begin() + 1); MC_CHECK(o == buf.end() - 1 && buf[0] && buf[0]->id == -9 && buf.back() && buf.back()->id == -9, "flatten writes where it should not"); for (size_t i = 0; i < e.size(); ++i) MC_CHECK(buf[i + 1] == flat[i], "flatten: item %d is wrong", (int)i);
    F u; forests::unflatten(flat.begin(), flat.end(), u); MC_CHECK(u == f && dump(u) == want(e) && u.size() == (size_t)k, "unflatten(flatten(f)) is not f"); MC_CHECK(forests::equal_shape(u, f), "shape");
    std::list<std::optional<value>> l(flat.begin(), flat.end()); forest<value> u2; forests::unflatten(l.begin(), l.end(), u2); MC_CHECK(u2 == f, "unflatten from a list");
    // what is flattened again is the same
    std::vector<std::optional<value>> again; forests::flatten(u.begin(), u.end(), std::back_inserter(again)); MC_CHECK(again == flat, "flatten(unflatten(s)) is not s");
    // at the beginning of a forest that is not empty
    F w; w.push_back(value(-1)); w.insert(trailing_of(w.begin()), value(-2)); forests::unflatten(flat.begin(), flat.end(), w); dumped d = want(e); for (auto x : dumped{{true, -1}, {true, -2}, {false, -2}, {false, -1}}) d.push_back(x); MC_CHECK(dump(w) == d && w.size() == (size_t)k + 2, "unflatten at the front of a forest");
}
MC_SCENARIO("C29", flatten_6) { flat(6); }
MC_SCENARIO("C29", flatten_9, .thorough_only = 1) { flat(9); }
static void trans(int n, int n2) {
    machine m; int k = mc_choose(n + 1); grow(m.f[0], m.m[0], k, m.ids); evs& e = m.m[0]; const F& f = m.f[0];
    auto proj = [](const value& v) { return (long)v.id + 100; };
    int k2 = mc_choose(n2 + 1); grow(m.f[1], m.m[1], k2, m.ids); int p = mc_choose(2 * k2 + 1);
    // destination of another type, the same shape as f[1], at event p
    forest<long> t; forests::transcribe(m.f[1], forests::transcriber(t), [](const value& v) { return (long)v.id; }); MC_CHECK(dump(t) == want(m.m[1]), "transcribe of a range");
    auto pos = std::next(t.begin(), p); dumped d = want(m.m[1]); 
    auto check = [&](const evs& src, const char* what) { dumped x = want(src, 100), y = d; y.insert(y.begin() + p, x.begin(), x.end()); MC_CHECK(dump(t) == y, "%s", what); MC_CHECK(t.size() == y.size() / 2, "%s: size", what); };
    using out = forests::transcribe_iterator<forest<long>>;
    switch (mc_choose(7)) {
    case 0: forests::transcribe(f.begin(), f.end(), out(t, pos), proj); check(e, "transcribe"); break;
    case 1: forests::transcribe(m.f[0], out(t, pos), proj); check(e, "transcribe of a range"); break;
    case 2: { int i, j; m.choose_range(0, i, j); forests::transcribe(std::next(f.begin(), i), std::next(f.begin(), j), out(t, pos), proj); check(evs(e.begin() + i, e.begin() + j), "transcribe of a child range"); break; }
    case 3: { auto r = reverse_fullorder_range(f); forests::transcribe(r.begin(), r.end(), out(t, pos), proj); check(reversed(e), "transcribe in reverse"); break; }
    case 4: { auto r = depth_range(f); forests::transcribe(r.begin(), r.end(), out(t, pos), proj); check(e, "transcribe of a depth range"); break; }
    case 5: { unsigned mask = mc_choose(1 << k); std::vector<int> order; for (auto& x : e) if (x.lead) order.push_back((*g_nodes)[x.n].id); auto keep = [&](int id) { return mask >> (std::find(order.begin(), order.end(), id) - order.begin()) & 1; };
              auto r = filter_fullorder_range(f, [&](const value& v) { return keep(v.id) != 0; }); forests::transcribe(r.begin(), r.end(), out(t, pos), proj); evs fe; int skip = 0; for (auto& x : e) { if (x.lead) { if (skip || !keep((*g_nodes)[x.n].id)) { ++skip; continue; } } else if (skip) { --skip; continue; } fe.push_back(x); } check(fe, "transcribe of a filtered range"); break; }
    case 6: { int calls = 0, preds = 0; auto o = forests::transcribe(f, out(t, pos), [&](const value& v) { ++calls; return (long)v.id + 100; }, [&](const auto& q) { ++preds; return is_leading(q); }); check(e, "transcribe with a predicate"); MC_CHECK(calls == k && preds == 2 * k, "transcribe: %d projections of %d nodes", calls, k); *o++ = 5; d = want(m.m[1]); dumped x = want(e, 100); x.push_back({true, 5}); x.push_back({false, 5}); d.insert(d.begin() + p, x.begin(), x.end()); MC_CHECK(dump(t) == d, "output iterator that transcribe returns"); break; }
    }
}
MC_SCENARIO("C29", transcribe_4) { trans(4, 2); }
MC_SCENARIO("C29", transcribe_3_3) { trans(3, 3); }
MC_SCENARIO("C29", transcribe_6_3, .thorough_only = 1) { trans(6, 3); }
static void shape(int n) {
    machine m; int k = mc_choose(n + 1), k2 = mc_choose(n + 1); grow(m.f[0], m.m[0], k, m.ids); grow(m.f[1], m.m[1], k2, m.ids);
    forest<long> t; forests::transcribe(m.f[1], forests::transcriber(t), [](const value& v) { return (long)-v.id; });
    bool same = m.m[0].size() == m.m[1].size(); for (size_t i = 0; same && i < m.m[0].size(); ++i) same = m.m[0][i].lead == m.m[1][i].lead;
    if (k && mc_choose(2)) invalidate_size(m.f[0]);
    if (k2 && mc_choose(2)) invalidate_size(m.f[1]);
    MC_CHECK(forests::equal_shape(m.f[0], m.f[1]) == same, "equal_shape is not %d", same); MC_CHECK(forests::equal_shape(m.f[1], m.f[0]) == same, "equal_shape is not symmetric");
    MC_CHECK(forests::equal_shape(m.f[0], t) == same && forests::equal_shape(t, m.f[0]) == same, "equal_shape of different types"); MC_CHECK(forests::equal_shape(m.f[0], m.f[0]), "equal_shape of itself");
    m.check();
}
MC_SCENARIO("C29", equal_shape_5) { shape(5); }
MC_SCENARIO("C29", equal_shape_6, .thorough_only = 1) { shape(6); }
