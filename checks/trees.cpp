// C12: shortest-path trees. C14: candidate cycle collections.
#include "../lib/inst.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
using namespace pbt; using namespace gr;
#ifndef PROP
#define PROP 12
#endif

template<class G> struct Trees {
    typedef typename Inst<G>::WMap WM; typedef typename Inst<G>::W W; typedef typename Inst<G>::Edge Edge;
    typedef parmcb::SPTree<G, WM> Tree;
    Inst<G> &in; const Case &c;
    typedef std::vector<parmcb::CandidateCycle<G, WM>> Cands;
    Trees(Inst<G> &i) : in(i), c(i.c) {}

    // parent edge ids / parents of one tree as the code reports them; validates the tree shape
    void extract(Tree &t, int s, std::vector<int> &pe, std::vector<int> &pv) {
        pe.assign(c.n, -1); pv.assign(c.n, -1);
        for (int v = 0; v < c.n; v++) {
            auto nd = t.node(v); if (!nd) continue;
            PBT_REQUIRE((int) nd->vertex() == v, "tree of " << s << ": node(" << v << ") holds vertex " << nd->vertex());
            if (!nd->has_pred()) continue;
            Edge e = nd->pred(); int i = in.edge_id(e);
            PBT_REQUIRE(i >= 0, "tree of " << s << ": predecessor edge of " << v << " is not an edge of the graph");
            PBT_REQUIRE(c.e[i].u == v || c.e[i].v == v, "tree of " << s << ": predecessor edge " << i << " of vertex " << v << " is not incident to it");
            pe[v] = i; pv[v] = c.e[i].u == v ? c.e[i].v : c.e[i].u;
        }
    }
    // climbs to the root; returns edge ids from v up to s
    std::vector<int> climb(int s, int v, const std::vector<int> &pe, const std::vector<int> &pv) {
        std::vector<int> r; int x = v;
        while (x != s) {
            PBT_REQUIRE(pe[x] >= 0, "tree of " << s << ": the path of " << v << " stops at " << x << " before the root");
            PBT_REQUIRE((int) r.size() < c.n, "tree of " << s << ": the predecessors of " << v << " run in a circle");
            r.push_back(pe[x]); x = pv[x];
        }
        return r;
    }

    void history() {            // earlier uses of the same graph object
        in.stage([&]() {
            for (int s = 0; s < c.n; s++) Tree t(s, in.g, boost::get(boost::vertex_index, in.g), in.wm, s);
#if PROP == 14
            { std::vector<Tree> t; Cands k; parmcb::detail::HortonCyclesBuilder<G, WM> b; b(in.g, in.wm, t, k); }
            { std::vector<Tree> t; Cands k; parmcb::detail::FVSCyclesBuilder<G, WM> b; b(in.g, in.wm, t, k); }
            { std::vector<Tree> t; Cands k; parmcb::detail::ISOCyclesBuilder<G, WM> b; b(in.g, in.wm, t, k); }
#endif
        });
    }
    void c12(Ctx &ctx) {
        std::vector<i64> w; for (auto &x : c.e) w.push_back(x.w);
        // Floyd-Warshall
        const i64 INF = (i64) 4e18; std::vector<std::vector<i64>> D(c.n, std::vector<i64>(c.n, INF));
        for (int i = 0; i < c.n; i++) D[i][i] = 0;
        for (auto &x : c.e) D[x.u][x.v] = D[x.v][x.u] = std::min(D[x.u][x.v], x.w);
        for (int k = 0; k < c.n; k++) for (int i = 0; i < c.n; i++) if (D[i][k] < INF) for (int j = 0; j < c.n; j++) if (D[k][j] < INF && D[i][k] + D[k][j] < D[i][j]) D[i][j] = D[i][k] + D[k][j];
        // tie statistics: pairs with more than one shortest path
        u64 ties = 0;
        for (int s = 0; s < c.n; s++) { std::vector<int> in_(c.n, 0); for (auto &x : c.e) { if (D[s][x.u] < INF && D[s][x.u] + x.w == D[s][x.v]) in_[x.v]++; if (D[s][x.v] < INF && D[s][x.v] + x.w == D[s][x.u]) in_[x.u]++; }
            for (int k : in_) if (k > 1) ties++; }
        ctx.nontrivial = ties > 0; if (ties) ctx.label("has tied shortest paths");
        std::vector<std::vector<std::vector<int>>> P(c.n, std::vector<std::vector<int>>(c.n));
        for (int s = 0; s < c.n; s++) {
            Tree t(s, in.g, boost::get(boost::vertex_index, in.g), in.wm, s);
            PBT_REQUIRE((int) t.source() == s, "tree of " << s << " reports source " << t.source());
            std::vector<int> pe, pv; extract(t, s, pe, pv);
            std::map<int, std::multiset<int>> kids;
            for (int v = 0; v < c.n; v++) {
                auto nd = t.node(v);
                if (D[s][v] >= INF) { PBT_REQUIRE(!nd, "tree of " << s << " has a node for the unreachable vertex " << v); continue; }
                PBT_REQUIRE((bool) nd, "tree of " << s << " has no node for the reachable vertex " << v);
                PBT_REQUIRE(nd->weight() == in.real(D[s][v]), "tree of " << s << ": distance of " << v << " is " << (double) nd->weight() << ", true distance is " << (double) in.real(D[s][v]));
                if (v == s) { PBT_REQUIRE(!nd->has_pred(), "the root " << s << " has a predecessor"); continue; }
                PBT_REQUIRE(nd->has_pred(), "tree of " << s << ": reachable vertex " << v << " has no predecessor edge");
                std::vector<int> p = climb(s, v, pe, pv); i64 len = 0; for (int i : p) len += c.e[i].w;
                PBT_REQUIRE(len == D[s][v], "tree of " << s << ": the path of " << v << " has length " << len << " (scaled), the distance is " << D[s][v]);
                int last = p.back(); int f = c.e[last].u == s ? c.e[last].v : c.e[last].u;
                PBT_REQUIRE((int) t.first(v) == f, "tree of " << s << ": first(" << v << ") = " << t.first(v) << " but the path leaves the root through " << f);
                kids[pv[v]].insert(v);
                std::reverse(p.begin(), p.end()); P[s][v] = p;
            }
            for (int v = 0; v < c.n; v++) if (auto nd = t.node(v)) {
                std::multiset<int> k; for (auto &ch : nd->children()) k.insert((int) ch->vertex());
                PBT_REQUIRE(k == kids[v], "tree of " << s << ": children of " << v << " disagree with the predecessor edges");
            }
        }
        for (int u = 0; u < c.n; u++) for (int v = 0; v < c.n; v++) if (u != v && !P[u][v].empty()) {
            std::vector<int> r(P[v][u].rbegin(), P[v][u].rend());
            PBT_REQUIRE(P[u][v] == r, "tree path " << u << "->" << v << " is not the reverse of tree path " << v << "->" << u);
            int x = u;
            for (std::size_t k = 0; k < P[u][v].size(); k++) {          // every suffix is the chosen path of its endpoints
                if (k) { std::vector<int> suf(P[u][v].begin() + k, P[u][v].end());
                    PBT_REQUIRE(suf == P[x][v], "sub-path " << x << "->" << v << " of the chosen path " << u << "->" << v << " is not the chosen path"); }
                x = c.e[P[u][v][k]].u == x ? c.e[P[u][v][k]].v : c.e[P[u][v][k]].u;
            }
        }
    }

    struct Coll { std::map<std::pair<int, int>, int> key; std::vector<std::pair<i64, Bits>> cyc; };
    Coll collect(const char *name, std::vector<Tree> &trees, Cands &cands) {
        Coll r; std::map<std::size_t, std::pair<std::vector<int>, std::vector<int>>> par;
        for (auto &cc : cands) {
            PBT_REQUIRE(cc.tree() < trees.size(), name << ": candidate refers to tree " << cc.tree() << " of " << trees.size());
            Tree &t = trees[cc.tree()]; int s = (int) t.source();
            auto &pp = par[cc.tree()]; if (pp.first.empty()) extract(t, s, pp.first, pp.second);
            int e = in.edge_id(cc.edge()); PBT_REQUIRE(e >= 0, name << ": candidate edge is not an edge of the graph");
            int u = c.e[e].u, v = c.e[e].v;
            PBT_REQUIRE(t.node(u) && t.node(v), name << ": candidate edge " << e << " is not reachable from its root " << s);
            PBT_REQUIRE(pp.first[u] != e && pp.first[v] != e, name << ": candidate edge " << u << "-" << v << " is a tree edge of root " << s);
            std::vector<int> pu = climb(s, u, pp.first, pp.second), pv = climb(s, v, pp.first, pp.second);
            std::set<int> vu; int x = u; while (x != s) { vu.insert(x); x = pp.second[x]; }
            x = v; while (x != s) { PBT_REQUIRE(!vu.count(x), name << ": root paths of candidate (" << s << ", " << u << "-" << v << ") meet at " << x << " below the root"); x = pp.second[x]; }
            std::vector<int> all(pu); all.insert(all.end(), pv.begin(), pv.end()); all.push_back(e);
            std::string err = simple_cycle_error(c.n, c.e, all);
            PBT_REQUIRE(err.empty(), name << ": candidate (" << s << ", " << u << "-" << v << ") is not a simple cycle: " << err);
            bool thru = u == s || v == s; for (int i : pu) if (c.e[i].u == s || c.e[i].v == s) thru = true;
            PBT_REQUIRE(thru, name << ": candidate does not pass through its root");
            i64 w = 0; for (int i : all) w += c.e[i].w;
            PBT_REQUIRE(cc.weight() == in.real(w), name << ": candidate (" << s << ", " << u << "-" << v << ") records weight " << (double) cc.weight() << ", true weight is " << (double) in.real(w));
            Bits b(c.e.size()); for (int i : all) b.flip(i);
            r.key[ { s, e }]++; r.cyc.emplace_back(w, b);
        }
        return r;
    }
    void sufficient(const char *name, Coll &k, const std::vector<i64> &opt) {
        std::stable_sort(k.cyc.begin(), k.cyc.end(), [](const std::pair<i64, Bits> &a, const std::pair<i64, Bits> &b) { return a.first < b.first; });
        Gauss g; std::vector<i64> ws; for (auto &x : k.cyc) { if (ws.size() == opt.size()) break; if (g.add(x.second)) ws.push_back(x.first); }
        PBT_REQUIRE(ws.size() == opt.size(), name << ": greedy reaches dimension " << ws.size() << " of " << opt.size());
        PBT_REQUIRE(ws == opt, name << ": greedy over the collection weighs " << gr::sum(ws) << " " << show(ws) << ", the optimum is " << gr::sum(opt) << " " << show(opt));
    }
    template<class B> Coll build(const char *name, std::vector<i64> &opt, u64 &size) {
        std::vector<Tree> trees; Cands cands; B b; b(in.g, in.wm, trees, cands);
        size = cands.size(); Coll k = collect(name, trees, cands); sufficient(name, k, opt); return k;
    }
    void c14(Ctx &ctx) {
        std::vector<i64> opt = mcb_weights(c); u64 h, f, i;
        Coll H = build<parmcb::detail::HortonCyclesBuilder<G, WM>>("Horton", opt, h);
        Coll F = build<parmcb::detail::FVSCyclesBuilder<G, WM>>("FVS", opt, f);
        Coll I = build<parmcb::detail::ISOCyclesBuilder<G, WM>>("Isometric", opt, i);
        auto nested = [&](const char *name, Coll &k) { for (auto &x : k.key) { auto it = H.key.find(x.first);
            PBT_REQUIRE(it != H.key.end() && it->second >= x.second, name << ": candidate (root " << x.first.first << ", edge " << c.e[x.first.second].u << "-" << c.e[x.first.second].v << ") occurs " << x.second << " times but " << (it == H.key.end() ? 0 : it->second) << " times in Horton's collection"); } };
        nested("FVS", F); nested("Isometric", I);
        ctx.nontrivial = opt.size() >= 2;
        ctx.label("horton candidates", h); ctx.label("fvs candidates", f); ctx.label("isometric candidates", i);
        if (i < f) ctx.label("isometric collection smaller than fvs");
    }
};

static int gkind(i64 g) { return g == 1 || g == 5 ? 1 : g == 3 ? 2 : g == 4 ? 3 : 0; }
struct T : Check {
    T() { batch = 64; shrink_params = { { "g", 0 }, { "pre", 0 } }; }
    Case gen(Rng &r, u64 idx) override {
        Case c; int gt = (int) r.weighted( { 50, 19, 13, 10, 4, 4 }); c.p["g"] = gt; c.p["pre"] = r.chance(1, 6);
        if (idx > 2000 && idx % 600 == 11) { c.p["pre"] = 0; large_graph(r, c, 60); if (c.n <= 150) { weights(r, c, gkind(gt)); present(r, c); return c; } }
        exact_case(r, c, idx, thorough ? (PROP == 12 ? 90 : 60) : 40, gkind(gt), 5);
        return c;
    }
    bool valid(const Case &c) override { return exact_domain(c, gkind(c.get("g"))); }
    template<class G> void go(const Case &c, Ctx &ctx) { Inst<G> in(c, false, c.get("pre")); Trees<G> t(in); if (c.get("pre")) { t.history(); ctx.label("graph object with a history"); }
#if PROP == 12
        t.c12(ctx);
#else
        t.c14(ctx);
#endif
    }
    void run(const Case &c, Ctx &ctx) override {
        label_graph(ctx, c);
        switch (c.get("g")) { case 1: go<GInt>(c, ctx); break; case 2: go<GSet>(c, ctx); break; case 3: go<GLong>(c, ctx); break; case 4: go<GFloat>(c, ctx); break; case 5: go<GUnsigned>(c, ctx); break; default: go<GDouble>(c, ctx); }
    }
};
int main(int argc, char **argv) { T ck; return pbt::main(argc, argv, ck, PROP == 12 ? "C12" : "C14"); }
