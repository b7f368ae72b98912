// Self-contained helpers for the demonstrations (copied beside each demo).
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <stdexcept>
#include <vector>
#include <boost/graph/adjacency_list.hpp>
#include <boost/property_map/property_map.hpp>
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> graph_t;
typedef boost::graph_traits<graph_t>::edge_descriptor edge_t;
struct DE { int u, v; double w; };
typedef std::vector<DE> Edges;
inline graph_t make_graph(int n, const Edges &e) { graph_t g(n); auto wm = boost::get(boost::edge_weight, g); for (auto &x : e) wm[boost::add_edge(x.u, x.v, g).first] = x.w; return g; }
#define EXPECT(c, msg) do { if (!(c)) { std::cout << "FAILED: " << msg << std::endl; std::exit(1); } } while (0)
struct Dsu { std::vector<int> p; Dsu(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int x) { return p[x] == x ? x : p[x] = f(p[x]); } bool join(int a, int b) { a = f(a); b = f(b); if (a == b) return false; p[a] = b; return true; } };
inline int cycle_dim(int n, const Edges &e) { Dsu d(n); int f = 0; for (auto &x : e) f += d.join(x.u, x.v); return (int) e.size() - f; }
inline std::vector<double> dists(int n, const Edges &e, int s) {
    std::vector<double> d(n, 1e300); d[s] = 0; typedef std::pair<double, int> Q; std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q; q.push(Q(0, s));
    while (!q.empty()) { Q t = q.top(); q.pop(); if (t.first > d[t.second]) continue; for (auto &x : e) for (int r = 0; r < 2; r++) { int a = r ? x.v : x.u, b = r ? x.u : x.v; if (a == t.second && d[a] + x.w < d[b]) { d[b] = d[a] + x.w; q.push(Q(d[b], b)); } } }
    return d;
}
// minimum cycle basis weight: Horton's candidates, greedily by weight under GF(2) independence
inline double mcb_weight(int n, const Edges &e) {
    int m = (int) e.size(); typedef std::vector<char> B; std::vector<std::pair<double, B>> c;
    for (int s = 0; s < n; s++) {
        std::vector<double> d = dists(n, e, s); std::vector<int> pe(n, -1); std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); std::sort(o.begin(), o.end(), [&](int a, int b) { return d[a] < d[b]; });
        for (int v : o) if (v != s && d[v] < 1e299) for (int i = 0; i < m && pe[v] < 0; i++) { int w = e[i].u == v ? e[i].v : e[i].v == v ? e[i].u : -1; if (w >= 0 && d[w] + e[i].w == d[v]) pe[v] = i; }
        for (int i = 0; i < m; i++) { if (d[e[i].u] > 1e299 || pe[e[i].u] == i || pe[e[i].v] == i) continue; B b(m, 0); b[i] ^= 1; for (int t : { e[i].u, e[i].v }) while (t != s) { int k = pe[t]; b[k] ^= 1; t = e[k].u == t ? e[k].v : e[k].u; }
            double w = 0; for (int k = 0; k < m; k++) if (b[k]) w += e[k].w; c.push_back(std::make_pair(w, b)); }
    }
    std::sort(c.begin(), c.end()); double tot = 0; std::vector<B> rows; std::vector<int> piv;
    for (auto &x : c) { B b = x.second; for (std::size_t r = 0; r < rows.size(); r++) if (b[piv[r]]) for (int k = 0; k < m; k++) b[k] ^= rows[r][k]; int p = -1; for (int k = 0; k < m && p < 0; k++) if (b[k]) p = k; if (p < 0) continue; rows.push_back(b); piv.push_back(p); tot += x.first; }
    return tot;
}
// "" when the cycles are a basis of simple cycles of g, else what is wrong
inline std::string basis_problem(const graph_t &g, int n, const Edges &e, const std::list<std::list<edge_t>> &cycles) {
    std::map<std::pair<int, int>, int> id; for (int i = 0; i < (int) e.size(); i++) id[std::minmax(e[i].u, e[i].v)] = i;
    if ((int) cycles.size() != cycle_dim(n, e)) return "wrong number of cycles";
    int m = (int) e.size(); std::vector<std::vector<char>> rows; std::vector<int> piv;
    for (auto &c : cycles) {
        std::vector<char> b(m, 0); std::vector<int> deg(n, 0); Dsu d(n); int joins = 0; std::set<int> vs;
        for (auto &x : c) { int u = (int) boost::source(x, g), v = (int) boost::target(x, g); auto it = id.find(std::minmax(u, v)); if (it == id.end()) return "not an edge"; if (b[it->second]) return "edge repeated"; b[it->second] = 1; deg[u]++; deg[v]++; vs.insert(u); vs.insert(v); joins += d.join(u, v); }
        if (c.empty()) return "empty cycle"; for (int v : vs) if (deg[v] != 2) return "not a simple cycle"; if (joins != (int) vs.size() - 1) return "cycle not connected";
        for (std::size_t r = 0; r < rows.size(); r++) if (b[piv[r]]) for (int k = 0; k < m; k++) b[k] ^= rows[r][k];
        int p = -1; for (int k = 0; k < m && p < 0; k++) if (b[k]) p = k; if (p < 0) return "dependent cycles"; rows.push_back(b); piv.push_back(p);
    }
    return "";
}
struct Rand { std::mt19937 g; Rand(unsigned s) : g(s) {} int operator()(int lo, int hi) { return lo + (int) (g() % (unsigned) (hi - lo + 1)); } };
// random simple graph; weights in [1, wmax]
inline Edges random_graph(Rand &r, int n, int pct, int wmax) { Edges e; for (int u = 0; u < n; u++) for (int v = u + 1; v < n; v++) if (r(1, 100) <= pct) { DE x = { u, v, (double) r(1, wmax) }; if (r(0, 1)) std::swap(x.u, x.v); e.push_back(x); } std::shuffle(e.begin(), e.end(), r.g); return e; }
