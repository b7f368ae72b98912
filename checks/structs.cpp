// C13: greedy_fvs. C16: ForestIndex.
#include "../lib/inst.hpp"
#include <parmcb/config.hpp>
#if PROP == 13
#include <parmcb/parmcb.hpp>
#include <parmcb/detail/fvs.hpp>
#else
#include <parmcb/parmcb.hpp>
#include <parmcb/forestindex.hpp>
#endif
using namespace pbt; using namespace gr;
typedef boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> GListE;

#if PROP == 13
template<class G> void go(const Case &c, Ctx &ctx) {
    typedef std::vector<typename boost::graph_traits<G>::vertex_descriptor> Out; Inst<G> in(c, false, c.get("pre")); Out out;
    if (c.get("pre")) { in.stage([&]() { Out o; parmcb::greedy_fvs(in.g, std::back_inserter(o)); }); ctx.label("graph object with a history"); }
    parmcb::greedy_fvs(in.g, sink(out, !c.get("note")));
    std::set<std::size_t> s;
    for (auto v : out) {
        PBT_REQUIRE((std::size_t) v < (std::size_t) c.n, "emitted " << v << " is not a vertex (n=" << c.n << ")");
        PBT_REQUIRE(s.insert(v).second, "vertex " << v << " emitted twice");
    }
    DSU d(c.n); for (auto &x : c.e) if (!s.count(x.u) && !s.count(x.v))
        PBT_REQUIRE(d.join(x.u, x.v), "the graph without the emitted vertices still has a cycle (through edge " << x.u << "-" << x.v << ")");
    int dim = csd(c);
    if (dim == 0) PBT_REQUIRE(out.empty(), "emits " << out.size() << " vertices for a forest");
    ctx.nontrivial = out.size() >= 2; ctx.label(out.size() == 0 ? "fvs empty" : out.size() == 1 ? "fvs 1" : out.size() < 6 ? "fvs 2-5" : "fvs >=6");
}
#else
template<class G> void verify(const Inst<G> &in, const parmcb::ForestIndex<G> &f, const char *who) {
    const Case &c = in.c; int comp = components(c.n, c.e), dim = csd(c), m = (int) c.e.size();
    PBT_REQUIRE((long) f.cycle_space_dimension() == dim, who << ": cycle_space_dimension() = " << f.cycle_space_dimension() << ", expected " << dim);
    PBT_REQUIRE((long) f.weak_connected_components() == comp, who << ": weak_connected_components() = " << f.weak_connected_components() << ", expected " << comp);
    std::vector<char> seen(m, 0); DSU d(c.n); int forest = 0;
    for (int i = 0; i < m; i++) {
        std::size_t ix = f(in.ed[i]);
        PBT_REQUIRE(ix < (std::size_t) m, who << ": index " << ix << " of edge " << i << " is outside 0.." << m - 1);
        PBT_REQUIRE(!seen[ix], who << ": index " << ix << " is used twice"); seen[ix] = 1;
        PBT_REQUIRE(in.edge_id(f(ix)) == i, who << ": index-to-edge of " << ix << " gives edge " << in.edge_id(f(ix)) << ", expected " << i);
        bool on = f.is_on_forest(in.ed[i]);
        PBT_REQUIRE(on == (ix >= (std::size_t) dim), who << ": edge " << i << " has index " << ix << " (dimension " << dim << ") but is_on_forest = " << on);
        if (on) { forest++; PBT_REQUIRE(d.join(c.e[i].u, c.e[i].v), who << ": forest edges contain a cycle through edge " << c.e[i].u << "-" << c.e[i].v); }
    }
    PBT_REQUIRE(forest == c.n - comp, who << ": " << forest << " forest edges, expected " << c.n - comp);
    for (int ix = 0; ix < m; ix++) PBT_REQUIRE((int) f(f((std::size_t) ix)) == ix, who << ": edge-to-index is not inverse at index " << ix);
}
template<class G> void go(const Case &c, Ctx &ctx) {
    Inst<G> in(c, false, c.get("pre")); if (c.get("pre")) { in.stage([&]() { parmcb::ForestIndex<G> old(in.g); }); ctx.label("graph object with a history"); }
    parmcb::ForestIndex<G> f(in.g); verify(in, f, "ForestIndex");
    parmcb::ForestIndex<G> copy(f); verify(in, copy, "copy-constructed ForestIndex");
    // assignment over the index of another graph, and self-assignment
    Case other; other.n = 4; other.e = { { 0, 1, 1 }, { 1, 2, 1 }, { 2, 0, 1 } }; Inst<G> io(other); parmcb::ForestIndex<G> g(io.g);
    g = f; verify(in, g, "assigned ForestIndex");
    parmcb::ForestIndex<G> &r = g; g = r; verify(in, g, "self-assigned ForestIndex");
    int d = csd(c); ctx.nontrivial = d >= 1 && (int) c.e.size() > d;
    if (!is_simple(c)) ctx.label("with loops or parallel edges"); if (components(c.n, c.e) > 1) ctx.label("disconnected");
}
#endif

struct T : Check {
    T() { batch = 256; shrink_params = { { "g", 0 }, { "pre", 0 }, { "note", 0 } }; }
    Case gen(Rng &r, u64 idx) override {
        Case c; int gt = (int) r.weighted( { 50, 20, 15, 15 }); c.p["pre"] = r.chance(1, 6); c.p["note"] = r.chance(1, 4);
        if (enumerate_graph(c, idx, thorough ? 7 : 6)) { c.p["g"] = gt; return c; }
        if (idx > 2000 && idx % 500 == 3) {      // large: counts and indices above 8 bits, now and then above 16 bits
            PairList pl; bool huge = r.chance(1, 16); c.n = huge ? (int) r.range(65530, 80000) : (int) r.range(257, 2000); static const int pct[] = { 3, 30, 90, 120, 200 }; i64 m = (i64) c.n * pct[r.below(5)] / 100; bool local = r.chance(1, 2);
            for (i64 i = 0; i < m; i++) { int u = (int) r.below(c.n); pl.emplace_back(u, local ? (int) std::min<i64>(c.n - 1, u + r.range(1, 3)) : (int) r.below(c.n)); }
            if (r.chance(1, 3)) { int hub = (int) r.below(c.n), d = (int) r.range(256, std::min(c.n, 70000)); for (int i = 0; i < d; i++) pl.emplace_back(hub, (int) ((hub + i) % c.n)); }
            norm(pl); for (auto &x : pl) c.e.push_back(E { x.first, x.second, 1 }); present(r, c); c.p["g"] = gt; c.p["pre"] = 0; c.p["note"] = 0; return c;
        }
        graph(r, c, r.chance(1, 60) ? 300 : pick_maxn(r, 90), gt == 1);
#if PROP == 16
        if (gt != 2 && r.chance(1, 5) && c.n > 0) {
            int k = (int) r.range(1, 4);
            for (int i = 0; i < k; i++) { int t = (int) r.below(2);
                if (t == 0 || c.e.empty()) { int v = (int) r.below(c.n); c.e.push_back(E { v, v, 1 }); }
                else { E x = c.e[r.below(c.e.size())]; if (r.chance(1, 2)) std::swap(x.u, x.v); c.e.push_back(x); } }
            r.shuffle(c.e);
        }
#endif
        c.p["g"] = gt; return c;
    }
    bool valid(const Case &c) override {
        if (c.n < 0) return false;
        for (auto &x : c.e) if (x.u < 0 || x.v < 0 || x.u >= c.n || x.v >= c.n || x.w <= 0) return false;
        return (PROP == 16 && c.get("g") != 2) || is_simple(c);
    }
    void run(const Case &c, Ctx &ctx) override {
        if (c.n > 256) ctx.label(c.n > 65535 ? "more than 65535 vertices" : "more than 256 vertices");
        switch (c.get("g")) { case 1: go<GInt>(c, ctx); break; case 2: go<GSet>(c, ctx); break; case 3: go<GListE>(c, ctx); break; default: go<GDouble>(c, ctx); }
    }
};
int main(int argc, char **argv) { T ck; return pbt::main(argc, argv, ck, PROP == 13 ? "C13" : "C16"); }
