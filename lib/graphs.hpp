// Graph generators, independent oracles and predicates (no parmcb code is used here).
#pragma once
#include "pbt.hpp"
#include <cmath>
#include <numeric>

namespace gr {
using pbt::Case; using pbt::E; using pbt::Rng; using pbt::i64; using pbt::u64;
typedef std::vector<std::pair<int, int>> PairList;
typedef __int128 i128;

// ---------- small utilities ----------
struct DSU {
    std::vector<int> p;
    explicit DSU(int n) : p(n) { std::iota(p.begin(), p.end(), 0); }
    int find(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
    bool join(int a, int b) { a = find(a); b = find(b); if (a == b) return false; p[a] = b; return true; }
};
inline int components(int n, const std::vector<E> &e) { DSU d(n); int c = n; for (auto &x : e) if (d.join(x.u, x.v)) c--; return c; }
inline int csd(int n, const std::vector<E> &e) { return (int) e.size() - n + components(n, e); }
inline int csd(const Case &c) { return csd(c.n, c.e); }
inline bool is_simple(const Case &c) {
    std::set<std::pair<int, int>> s;
    for (auto &x : c.e) {
        if (x.u == x.v || x.u < 0 || x.v < 0 || x.u >= c.n || x.v >= c.n) return false;
        if (!s.insert(std::minmax(x.u, x.v)).second) return false;
    }
    return true;
}
inline i64 total_weight(const Case &c) { i128 t = 0; for (auto &x : c.e) t += x.w; return t > (i128) 4e18 ? (i64) 4e18 : (i64) t; }
// the exact-arithmetic domain: simple, positive, all sums that can occur exactly representable. kind 0: double, 1: int or unsigned, 2: 64-bit integers, 3: float
inline bool exact_domain(const Case &c, int kind) {
    if (c.n < 0 || !is_simple(c)) return false;
    for (auto &x : c.e) if (x.w <= 0) return false;
    i128 bound = (i128) total_weight(c) * (std::max(csd(c), 1) + 3);
    if (kind == 1) return c.shift == 0 && bound < ((i128) 1 << 30);
    if (kind == 2) return c.shift == 0 && bound < ((i128) 1 << 60);
    if (kind == 3) return c.shift == 0 && bound < ((i128) 1 << 23);
    return bound < ((i128) 1 << 52) && std::abs(c.shift) <= 920;
}

// ---------- structure generators ----------
inline void norm(PairList &pl) {
    std::set<std::pair<int, int>> seen; PairList r;
    for (auto &x : pl) if (x.first != x.second && seen.insert(std::minmax(x.first, x.second)).second) r.push_back(x);
    pl.swap(r);
}

inline void structure(Rng &r, int maxn, int &n, PairList &pl, int depth = 0) {
    pl.clear();
    int fam = (int) r.below(24);
    int k = (int) r.range(1, maxn);
    switch (fam) {
    case 0: case 1: case 2: case 3: {            // G(n,p), p spread over sparse..dense
        n = k; int p = (int) r.range(5, 100);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (r.chance(p, 100)) pl.emplace_back(i, j);
        break; }
    case 4: case 5: case 6: {                    // random tree + extra edges
        n = k; for (int i = 1; i < n; i++) pl.emplace_back((int) r.below(i), i);
        int extra = (int) r.range(0, std::max(1, std::min(n + 3, n * (n - 1) / 2)));
        for (int i = 0; i < extra; i++) pl.emplace_back((int) r.below(n), (int) r.below(n));
        break; }
    case 7: {                                    // cycle with chords
        n = std::max(3, k); for (int i = 0; i < n; i++) pl.emplace_back(i, (i + 1) % n);
        int ch = (int) r.range(0, n / 2); for (int i = 0; i < ch; i++) pl.emplace_back((int) r.below(n), (int) r.below(n));
        break; }
    case 8: case 9: {                            // grid / torus
        int a = (int) r.range(2, std::max(2, (int) std::sqrt((double) maxn) + 1)), b = std::max(2, maxn / a);
        b = (int) r.range(2, b); n = a * b; bool torus = r.chance(1, 3), diag = r.chance(1, 4);
        for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) {
            if (j + 1 < b || (torus && b > 2)) pl.emplace_back(i * b + j, i * b + (j + 1) % b);
            if (i + 1 < a || (torus && a > 2)) pl.emplace_back(i * b + j, ((i + 1) % a) * b + j);
            if (diag && i + 1 < a && j + 1 < b) pl.emplace_back(i * b + j, (i + 1) * b + j + 1);
        }
        break; }
    case 10: {                                   // hypercube
        int d = 1; while ((1 << (d + 1)) <= maxn && d < 7) d++; d = (int) r.range(1, d); n = 1 << d;
        for (int i = 0; i < n; i++) for (int b = 0; b < d; b++) if (i < (i ^ (1 << b))) pl.emplace_back(i, i ^ (1 << b));
        break; }
    case 11: case 12: {                          // complete (minus a few)
        n = (int) r.range(3, std::max(3, std::min(maxn, 14)));
        int miss = r.chance(1, 2) ? 0 : (int) r.below(n);
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) pl.emplace_back(i, j);
        for (int i = 0; i < miss && !pl.empty(); i++) pl.erase(pl.begin() + r.below(pl.size()));
        break; }
    case 13: {                                   // complete multipartite
        int parts = (int) r.range(2, 4); n = (int) r.range(parts, std::max(parts, std::min(maxn, 16)));
        for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (i % parts != j % parts) pl.emplace_back(i, j);
        break; }
    case 14: {                                   // wheel
        n = std::max(4, std::min(k, 40)); for (int i = 1; i < n; i++) { pl.emplace_back(0, i); pl.emplace_back(i, i == n - 1 ? 1 : i + 1); }
        break; }
    case 15: {                                   // generalised Petersen
        int h = std::max(3, std::min(k, maxn) / 2), s = (int) r.range(1, std::max(1, (h - 1) / 2)); n = 2 * h;
        for (int i = 0; i < h; i++) { pl.emplace_back(i, (i + 1) % h); pl.emplace_back(i, h + i); pl.emplace_back(h + i, h + (i + s) % h); }
        break; }
    case 16: {                                   // theta: parallel paths between two vertices
        n = 2; int paths = (int) r.range(2, 5);
        for (int p = 0; p < paths; p++) { int len = (int) r.range(0, std::max(1, maxn / 5)), prev = 0;
            for (int i = 0; i < len; i++) { pl.emplace_back(prev, n); prev = n++; } pl.emplace_back(prev, 1); }
        break; }
    case 17: {                                   // cactus-like chain of cycles
        n = 1; while (n < maxn - 2 && !r.chance(1, 5)) { int at = (int) r.below(n), len = (int) r.range(3, 6), prev = at;
            for (int i = 1; i < len; i++) { pl.emplace_back(prev, n); prev = n++; } pl.emplace_back(prev, at); }
        break; }
    case 18: {                                   // ladder / prism / moebius
        int h = std::max(2, std::min(k, maxn) / 2); n = 2 * h; int kind = (int) r.below(3);
        for (int i = 0; i < h; i++) { pl.emplace_back(i, h + i); if (i + 1 < h) { pl.emplace_back(i, i + 1); pl.emplace_back(h + i, h + i + 1); } }
        if (kind == 1 && h > 2) { pl.emplace_back(h - 1, 0); pl.emplace_back(2 * h - 1, h); }
        if (kind == 2 && h > 2) { pl.emplace_back(h - 1, h); pl.emplace_back(2 * h - 1, 0); }
        break; }
    case 19: {                                   // forest / edgeless / empty
        n = (int) r.range(0, maxn); for (int i = 1; i < n; i++) if (r.chance(3, 4)) pl.emplace_back((int) r.below(i), i);
        break; }
    case 20: {                                   // circulant
        n = std::max(5, k); int s1 = (int) r.range(1, n / 2), s2 = (int) r.range(1, n / 2);
        for (int i = 0; i < n; i++) { pl.emplace_back(i, (i + s1) % n); pl.emplace_back(i, (i + s2) % n); if (r.chance(1, 3)) pl.emplace_back(i, (i + 1) % n); }
        break; }
    case 21: case 22: {                          // disjoint union
        if (depth >= 2) { n = k; break; }
        n = 0; int parts = (int) r.range(2, 3);
        for (int p = 0; p < parts; p++) { int m; PairList q; structure(r, std::max(1, maxn / parts), m, q, depth + 1);
            for (auto &x : q) pl.emplace_back(x.first + n, x.second + n); n += m; }
        break; }
    default: {                                   // core + pendant trees + bridges + isolated vertices
        if (depth >= 2) { n = k; break; }
        int m; structure(r, std::max(1, maxn * 2 / 3), m, pl, depth + 1); n = m;
        int add = (int) r.range(0, std::max(1, maxn / 3));
        for (int i = 0; i < add; i++) { if (n > 0 && r.chance(3, 4)) pl.emplace_back((int) r.below(n), n); n++; }
        if (depth == 0 && r.chance(1, 3)) { int m2; PairList q; structure(r, std::max(1, maxn / 3), m2, q, 2);
            for (auto &x : q) pl.emplace_back(x.first + n, x.second + n);
            if (n && m2) pl.emplace_back((int) r.below(n), n + (int) r.below(m2)); n += m2; }
        break; }
    }
    norm(pl);
    if (depth == 0 && r.chance(1, 10) && !pl.empty() && n < maxn) {   // subdivide some edges
        int t = (int) r.range(1, 3);
        for (int i = 0; i < t && n < maxn; i++) { std::size_t j = r.below(pl.size()); auto x = pl[j]; pl[j] = { x.first, n }; pl.emplace_back(n, x.second); n++; }
    }
}

// ---------- weights ----------
inline void weights(Rng &r, Case &c, int kind) {
    c.shift = 0; const bool is_int = kind == 1 || kind == 3;
    int cls = (int) r.weighted( { 22, 16, 12, 8, 8, 5, 6, 6, 5, 4, 4, 4 });
    i64 base = r.range(50, 2000);
    std::vector<std::pair<i64, i64>> pt(c.n); for (auto &q : pt) q = { r.range(0, 6), r.range(0, 6) };
    for (auto &x : c.e) {
        switch (cls) {
        case 0: x.w = 1; break;
        case 1: x.w = r.range(1, 2); break;
        case 2: x.w = r.range(1, 4); break;
        case 3: x.w = r.range(1, 10); break;
        case 4: x.w = r.range(1, 1000); break;
        case 5: x.w = (i64) 1 << r.below(is_int ? 10 : kind == 2 ? 50 : 14); break;
        case 6: x.w = is_int ? r.range(1, 20000) : r.range(1, (i64) 1 << (kind == 2 ? 57 : 40)); break;
        case 7: x.w = r.range(1, 64); break;
        case 8: x.w = r.chance(1, 6) ? (i64) 1 << (is_int ? 12 : kind == 2 ? 54 : 20) : r.range(1, 3); break;
        case 9: x.w = 1 + std::llabs(pt[x.u].first - pt[x.v].first) + std::llabs(pt[x.u].second - pt[x.v].second); break;
        case 10: x.w = base; break;
        default: x.w = (kind == 2 ? (base << 44) : base) + r.range(0, 1); break;
        }
    }
    if (kind == 0) {
        if (cls == 7 || r.chance(1, 8)) c.shift = (int) r.range(1, 20);
        else if (r.chance(1, 12)) switch (r.below(4)) {         // very small and very large magnitudes
        case 0: c.shift = (int) r.range(21, 80); break;
        case 1: c.shift = -(int) r.range(1, 80); break;
        case 2: c.shift = (int) r.range(81, 900); break;
        default: c.shift = -(int) r.range(81, 900); break; }
    }
    // keep every sum exactly representable
    while (!exact_domain(c, kind)) { bool any = false; for (auto &x : c.e) if (x.w > 1) { x.w = (x.w + 1) / 2; any = true; } if (!any) break; }
}

// random renumbering, edge order and orientation
inline void present(Rng &r, Case &c) {
    int how = (int) r.below(6);
    if (how >= 2) {
        std::vector<int> perm(c.n); std::iota(perm.begin(), perm.end(), 0); r.shuffle(perm);
        for (auto &x : c.e) { x.u = perm[x.u]; x.v = perm[x.v]; }
    }
    if (how >= 1) { r.shuffle(c.e); for (auto &x : c.e) if (r.chance(1, 2)) std::swap(x.u, x.v); }
    if (how == 5) { int t = (int) r.below(3);
        if (t == 0) std::stable_sort(c.e.begin(), c.e.end(), [](const E &a, const E &b) { return a.w < b.w; });
        if (t == 1) std::stable_sort(c.e.begin(), c.e.end(), [](const E &a, const E &b) { return a.w > b.w; }); }
}

inline void graph(Rng &r, Case &c, int maxn, int kind) {
    PairList pl; structure(r, maxn, c.n, pl);
    c.e.clear(); for (auto &x : pl) c.e.push_back(E { x.first, x.second, 1 });
    weights(r, c, kind); present(r, c);
}

// size profile used by most checks
inline int pick_maxn(Rng &r, int cap) {
    int m; switch (r.weighted( { 30, 34, 22, 9, 4, 1 })) {
    case 0: m = 6; break; case 1: m = 10; break; case 2: m = 15; break; case 3: m = 24; break; case 4: m = 40; break; default: m = 90; }
    return std::min(m, cap);
}

// All labelled graphs on n vertices, one per mask; returns false when mask is out of range.
inline bool enumerate_graph(Case &c, u64 idx, int nmax) {
    for (int n = 0; n <= nmax; n++) {
        u64 cnt = 1ULL << (n * (n - 1) / 2);
        if (idx < cnt) { c.n = n; c.e.clear(); int b = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++, b++) if (idx >> b & 1) c.e.push_back(E { i, j, 1 }); return true; }
        idx -= cnt;
    }
    return false;
}

// ---------- exact minimum cycle basis oracle ----------
struct Bits {
    std::vector<u64> w; explicit Bits(std::size_t n = 0) : w((n + 63) / 64, 0) {}
    void flip(std::size_t i) { w[i >> 6] ^= 1ULL << (i & 63); }
    bool test(std::size_t i) const { return w[i >> 6] >> (i & 63) & 1; }
    void operator^=(const Bits &o) { for (std::size_t i = 0; i < w.size(); i++) w[i] ^= o.w[i]; }
    int low() const { for (std::size_t i = 0; i < w.size(); i++) if (w[i]) return (int) (i * 64 + __builtin_ctzll(w[i])); return -1; }
    bool none() const { return low() < 0; }
};
struct Gauss {
    std::map<int, Bits> row;
    bool add(Bits b) { int l; while ((l = b.low()) >= 0) { auto it = row.find(l); if (it == row.end()) { row.emplace(l, b); return true; } b ^= it->second; } return false; }
    bool would_add(Bits b) const { int l; while ((l = b.low()) >= 0) { auto it = row.find(l); if (it == row.end()) return true; b ^= it->second; } return false; }
    std::size_t rank() const { return row.size(); }
};

template<class W> struct Sp { std::vector<W> d; std::vector<int> pe, pv; std::vector<char> reach; std::vector<int> hops; };
template<class W> Sp<W> dijkstra(int n, const std::vector<E> &e, const std::vector<W> &w, const std::vector<std::vector<int>> &adj, int s) {
    Sp<W> r; r.d.assign(n, W()); r.pe.assign(n, -1); r.pv.assign(n, -1); r.reach.assign(n, 0); r.hops.assign(n, 0);
    std::set<std::pair<W, int>> q; q.insert( { W(), s }); r.reach[s] = 1;
    while (!q.empty()) {
        int u = q.begin()->second; q.erase(q.begin());
        for (int i : adj[u]) { int v = e[i].u == u ? e[i].v : e[i].u; W nd = r.d[u] + w[i];
            if (!r.reach[v] || nd < r.d[v]) { if (r.reach[v]) q.erase( { r.d[v], v }); r.reach[v] = 1; r.d[v] = nd; r.pe[v] = i; r.pv[v] = u; r.hops[v] = r.hops[u] + 1; q.insert( { nd, v }); } }
    }
    return r;
}
inline std::vector<std::vector<int>> adjacency(int n, const std::vector<E> &e) {
    std::vector<std::vector<int>> a(n); for (std::size_t i = 0; i < e.size(); i++) { a[e[i].u].push_back((int) i); if (e[i].v != e[i].u) a[e[i].v].push_back((int) i); } return a;
}
// Sorted cycle weights of a minimum cycle basis. All fundamental cycles of one (arbitrary)
// shortest-path tree per root span, weight level by weight level, everything any cycle of that
// weight spans, so greedy GF(2) elimination over them is a minimum basis whatever the tie-breaking.
template<class W> std::vector<W> mcb_weights(int n, const std::vector<E> &e, const std::vector<W> &w) {
    int dim = csd(n, e); std::vector<W> res; if (dim == 0) return res;
    auto adj = adjacency(n, e);
    std::vector<Sp<W>> sp; std::vector<std::tuple<W, int, int>> cand;   // weight, root, edge
    for (int s = 0; s < n; s++) {
        sp.push_back(dijkstra(n, e, w, adj, s)); auto &t = sp.back();
        for (std::size_t i = 0; i < e.size(); i++) {
            int u = e[i].u, v = e[i].v; if (!t.reach[u] || t.pe[u] == (int) i || t.pe[v] == (int) i) continue;
            // true weight of the fundamental cycle: climb to the common ancestor
            int a = u, b = v; while (a != b) { if (t.hops[a] >= t.hops[b]) a = t.pv[a]; else b = t.pv[b]; }
            cand.emplace_back(t.d[u] + t.d[v] + w[i] - t.d[a] - t.d[a], s, (int) i);
        }
    }
    std::sort(cand.begin(), cand.end());
    // coordinates: edges off a spanning forest suffice for independence
    std::vector<int> coord(e.size(), -1); { DSU d(n); int k = 0; for (std::size_t i = 0; i < e.size(); i++) if (!d.join(e[i].u, e[i].v)) coord[i] = k++; }
    Gauss g;
    for (auto &c : cand) {
        auto &t = sp[std::get<1>(c)]; int i = std::get<2>(c);
        Bits b(dim); auto fl = [&](int x) { if (coord[x] >= 0) b.flip(coord[x]); };
        fl(i); for (int x : { e[i].u, e[i].v }) while (t.pe[x] >= 0) { fl(t.pe[x]); x = t.pv[x]; }
        if (g.add(b)) { res.push_back(std::get<0>(c)); if ((int) res.size() == dim) break; }
    }
    return res;
}
inline std::vector<i64> mcb_weights(const Case &c) { std::vector<i64> w; for (auto &x : c.e) w.push_back(x.w); return mcb_weights<i64>(c.n, c.e, w); }

// brute force: every simple cycle, sorted by weight, greedy. Only for tiny graphs.
inline std::vector<i64> mcb_bruteforce(const Case &c) {
    auto adj = adjacency(c.n, c.e); std::vector<std::pair<i64, Bits>> cyc; std::vector<char> on(c.n, 0); std::vector<int> st;
    std::function<void(int, int, i64)> go = [&](int root, int u, i64 w) {
        for (int i : adj[u]) { int v = c.e[i].u == u ? c.e[i].v : c.e[i].u;
            if (v == root && st.size() >= 2 && st.front() < i) { Bits b(c.e.size()); for (int x : st) b.flip(x); b.flip(i); cyc.emplace_back(w + c.e[i].w, b); }
            if (v <= root || on[v]) continue;
            on[v] = 1; st.push_back(i); go(root, v, w + c.e[i].w); st.pop_back(); on[v] = 0; }
    };
    for (int s = 0; s < c.n; s++) { on.assign(c.n, 0); on[s] = 1; st.clear(); go(s, s, 0); }
    std::sort(cyc.begin(), cyc.end(), [](const std::pair<i64, Bits> &a, const std::pair<i64, Bits> &b) { return a.first < b.first; });
    Gauss g; std::vector<i64> r; for (auto &x : cyc) if (g.add(x.second)) r.push_back(x.first);
    return r;
}
inline i64 sum(const std::vector<i64> &v) { i64 s = 0; for (i64 x : v) s += x; return s; }

// is this list of edge ids one simple cycle (>=3 distinct edges, all degrees 2, connected)?
inline std::string simple_cycle_error(int n, const std::vector<E> &e, const std::vector<int> &ids) {
    std::ostringstream o;
    if (ids.empty()) return "empty cycle";
    std::set<int> s(ids.begin(), ids.end()); if (s.size() != ids.size()) return "cycle repeats an edge";
    std::map<int, int> deg; std::map<int, int> cid; std::vector<int> verts;
    for (int i : ids) { deg[e[i].u]++; deg[e[i].v]++; }
    for (auto &kv : deg) if (kv.second != 2) { o << "vertex " << kv.first << " has degree " << kv.second << " in a cycle of " << ids.size() << " edges"; return o.str(); }
    for (auto &kv : deg) { cid[kv.first] = (int) verts.size(); verts.push_back(kv.first); }
    DSU d((int) verts.size()); int comp = (int) verts.size(); for (int i : ids) if (d.join(cid[e[i].u], cid[e[i].v])) comp--;
    if (comp != 1) return "edge set is a union of " + std::to_string(comp) + " disjoint cycles";
    return "";
}
inline std::string basis_error(const Case &c, const std::vector<std::vector<int>> &cycles) {
    int dim = csd(c);
    if ((int) cycles.size() != dim) return "emitted " + std::to_string(cycles.size()) + " cycles, dimension is " + std::to_string(dim);
    Gauss g;
    for (std::size_t k = 0; k < cycles.size(); k++) {
        std::string x = simple_cycle_error(c.n, c.e, cycles[k]); if (!x.empty()) return "cycle #" + std::to_string(k) + ": " + x;
        Bits b(c.e.size()); for (int i : cycles[k]) b.flip(i);
        if (!g.add(b)) return "cycle #" + std::to_string(k) + " is linearly dependent on the earlier ones";
    }
    return "";
}

// beyond 64, 128, 256 cycles, vertices or edges per cycle: dense, sparse, and long rings with chords
inline void large_graph(Rng &r, Case &c, int cap) {
    PairList pl; c.shift = 0; c.e.clear(); int f = cap > 100 ? 2 : 1;
    switch (r.below(5)) {
    case 4: { c.n = (int) r.range(257, 300 + 30 * f); int drop = r.chance(1, 3) ? 95 : 2, hubs = r.chance(1, 3) ? 1 : 12; for (int i = 1; i < c.n; i++) if (!r.chance(drop, 100)) pl.emplace_back((int) r.below(r.chance(1, 2) ? i : std::min(i, hubs)), i); int x = (int) r.range(3, 30); for (int i = 0; i < x; i++) pl.emplace_back((int) r.below(c.n), (int) r.below(c.n)); break; }   // many vertices, short paths (or many components)
    case 0: { c.n = (int) r.range(25, 34 + 10 * f); int m = (int) std::min<i64>(c.n * (c.n - 1) / 2, r.range(260, 500 * f)); for (int i = 0; i < m; i++) pl.emplace_back((int) r.below(c.n), (int) r.below(c.n)); break; }
    case 1: { c.n = (int) r.range(80, 110 + 50 * f); int x = (int) r.range(20, 80 * f); for (int i = 1; i < c.n; i++) pl.emplace_back((int) (r.chance(1, 2) ? r.below(i) : r.range(std::max(0, i - 4), i - 1)), i); for (int i = 0; i < x; i++) pl.emplace_back((int) r.below(c.n), (int) r.below(c.n)); break; }
    case 2: { c.n = (int) r.range(150, 220); for (int i = 0; i < c.n; i++) pl.emplace_back(i, (i + 1) % c.n); int x = (int) r.range(0, 6); for (int i = 0; i < x; i++) pl.emplace_back((int) r.below(c.n), (int) r.below(c.n)); break; }
    default: { int a = (int) r.range(8, 9 + 2 * f), b = (int) r.range(8, 9 + 3 * f); c.n = a * b; bool torus = r.chance(1, 3);
        for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) { if (j + 1 < b || torus) pl.emplace_back(i * b + j, i * b + (j + 1) % b); if (i + 1 < a || torus) pl.emplace_back(i * b + j, (i + 1) % a * b + j); } } }
    norm(pl); for (auto &x : pl) c.e.push_back(E { x.first, x.second, 1 });
}
// exhaustive bitset-free helper: standard generator for exact-domain checks.
// idx < exhaustive space: labelled graphs with unit weights, then {1,2}-random; otherwise random.
inline void exact_case(Rng &r, Case &c, u64 idx, int cap, int kind, int exh_n) {
    Case t;
    if (exh_n >= 0 && enumerate_graph(t, idx, exh_n)) { c.n = t.n; c.e = t.e; c.shift = 0; c.p["exh"] = 1;
        if (r.chance(1, 3)) for (auto &x : c.e) x.w = r.range(1, 2); return; }
    if (cap >= 60 && idx > 2000 && idx % 599 == 7) { c.p.erase("pre"); large_graph(r, c, cap); weights(r, c, kind); present(r, c); return; }
    graph(r, c, pick_maxn(r, cap), kind);
    if (c.e.size() > 1000) { r.shuffle(c.e); c.e.resize(1000); }
}
inline void label_graph(pbt::Ctx &ctx, const Case &c) {
    int d = csd(c), k = components(c.n, c.e);
    ctx.label(d == 0 ? "csd 0" : d == 1 ? "csd 1" : d <= 5 ? "csd 2-5" : d <= 20 ? "csd 6-20" : d <= 64 ? "csd 21-64" : d <= 256 ? "csd 65-256" : d <= 512 ? "csd 257-512" : "csd >512");
    if (k > 1) ctx.label("disconnected"); if (d > 0 && (int) c.e.size() - d > 0 && d >= c.n) ctx.label("csd>=n (dense)");
    std::set<i64> ws; for (auto &x : c.e) ws.insert(x.w);
    if (!c.e.empty()) ctx.label(ws.size() == 1 ? "weights all equal" : ws.size() <= 4 ? "weights few values" : "weights varied");
    if (c.shift > 0 && c.shift <= 20) ctx.label("dyadic fractions"); else if (c.shift) ctx.label(c.shift > 0 ? "tiny weights" : "huge weights");
}
} // namespace gr
