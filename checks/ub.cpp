// C07: every entry point on valid inputs, built with sanitizers (or run under memcheck). What is emitted is used after
// the call; whether it is right is the business of the other checks. PART 1 sequential algorithms, 2 TBB algorithms, 3 builders.
#ifndef PART
#define PART 1
#endif
#include "../lib/inst.hpp"
#include "../lib/sg.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
#if PART == 1
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#include <parmcb/parmcb_approx_sva_signed.hpp>
#include <parmcb/parmcb_approx_sva_trees.hpp>
#elif PART == 2
#include <parmcb/parmcb_sva_signed_tbb.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#include <parmcb/parmcb_approx_sva_signed_tbb.hpp>
#include <parmcb/parmcb_approx_sva_trees_tbb.hpp>
#include <tbb/global_control.h>
#ifdef PARMCB_STANDIN_TBB
#include "../mock/sched/sched.h"
#endif
#else
#include <parmcb/forestindex.hpp>
#include <parmcb/sptrees.hpp>
#include <parmcb/spvecgf2.hpp>
#include <parmcb/detail/bfs.hpp>
#include <parmcb/detail/cycles.hpp>
#include <parmcb/detail/dijkstra.hpp>
#include <parmcb/detail/fvs.hpp>
#include <parmcb/detail/lex_dijkstra.hpp>
#include <parmcb/detail/signed_dijkstra.hpp>
#endif
using namespace pbt; using namespace gr;

static volatile double sink_d; static volatile u64 sink_i;
template<class G, class M> struct Use {       // reads everything that was handed back
    typedef typename boost::graph_traits<G>::edge_descriptor Edge; typedef typename boost::graph_traits<G>::vertex_descriptor Vertex;
    const G &g; const M &m; double w = 0; u64 s = 0;
    Use(const G &gg, const M &mm) : g(gg), m(mm) {}
    ~Use() { if (w > 0) sink_d = w; if (s > 3) sink_i = s; }
    void edge(const Edge &e) { s = s * 31 + boost::source(e, g) + 7 * boost::target(e, g); w += (double) boost::get(m, e); }
    template<class C> void edges(const C &c) { for (auto &e : c) edge(e); }
    template<class C> void cycles(const C &c) { for (auto &x : c) edges(x); }
    template<class T> void weight(T t) { if (t > 0) w += (double) t; }
};

struct Plan { std::size_t k; int workers; u64 seed; long mean; };
#if PART == 1
template<class G, class M> void all(Inst<G> &in, const M &m, const Plan &p) {
    for (int a = 0; a < 6; a++) {
        typename Inst<G>::Cycles out; typename Inst<G>::W r = 0; auto o = std::back_inserter(out);
        switch (a) {
        case 0: r = parmcb::mcb_sva_signed(in.g, m, o); break;
        case 1: r = parmcb::mcb_sva_fvs_trees(in.g, m, o); break;
        case 2: r = parmcb::mcb_sva_iso_trees(in.g, m, o); break;
        case 3: r = parmcb::approx_mcb_sva_signed(in.g, m, p.k, o); break;
        case 4: r = parmcb::approx_mcb_sva_fvs_trees(in.g, m, p.k, o); break;
        default: r = parmcb::approx_mcb_sva_iso_trees(in.g, m, p.k, o);
        }
        Use<G, M> u(in.g, m); u.cycles(out); u.weight(r);
    }
}
#elif PART == 2
template<class G, class M> void all(Inst<G> &in, const M &m, const Plan &p) {
    for (int a = 0; a < 6; a++) {
        typename Inst<G>::Cycles out; typename Inst<G>::W r = 0; auto o = std::back_inserter(out);
#ifdef PARMCB_STANDIN_TBB
        struct Scope { Scope(const Plan &p, int a) { ms_begin(p.seed + a, p.workers, p.mean, 100); } ~Scope() { ms_end(); } } scope(p, a);
#else
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, (std::size_t) p.workers);
#endif
        switch (a) {
        case 0: r = parmcb::mcb_sva_signed_tbb(in.g, m, o); break;
        case 1: r = parmcb::mcb_sva_fvs_trees_tbb(in.g, m, o); break;
        case 2: r = parmcb::mcb_sva_iso_trees_tbb(in.g, m, o); break;
        case 3: r = parmcb::approx_mcb_sva_signed_tbb(in.g, m, p.k, o); break;
        case 4: r = parmcb::approx_mcb_sva_fvs_trees_tbb(in.g, m, p.k, o); break;
        default: r = parmcb::approx_mcb_sva_iso_trees_tbb(in.g, m, p.k, o);
        }
        Use<G, M> u(in.g, m); u.cycles(out); u.weight(r);
    }
}
#else
template<class G, class M, class B> void builder(Inst<G> &in, const M &m, std::vector<std::set<typename Inst<G>::Edge>> &odd) {
    typedef typename boost::graph_traits<G>::vertex_descriptor Vertex;
    std::vector<parmcb::SPTree<G, M>> trees; std::vector<parmcb::CandidateCycle<G, M>> cands; Use<G, M> u(in.g, m);
    { B b; b(in.g, m, trees, cands); }
    { parmcb::ShortestOddCycleLookup<G, M, false> look(in.g, m, trees, cands, false);
      for (auto &s : odd) { auto r = look(s); u.edges(std::get<0>(r)); if (std::get<2>(r)) u.weight(std::get<1>(r)); } }
    for (std::size_t i = 0; i < cands.size(); i++) { u.edge(cands[i].edge()); u.weight(cands[i].weight()); sink_i = (u64) trees.at(cands[i].tree()).source(); }
    for (auto &t : trees) for (int v = 0; v < in.c.n; v++) { auto nd = t.node((Vertex) v); if (!nd) continue; u.weight(nd->weight()); sink_i = (u64) t.first((Vertex) v);
        if (nd->has_pred()) u.edge(nd->pred()); if (nd->parity()) u.weight(1); for (auto &ch : nd->children()) sink_i = (u64) ch->vertex(); }
}
template<class G, class M> void all(Inst<G> &in, const M &m, const Plan &p) {
    typedef typename Inst<G>::Edge Edge; typedef typename boost::graph_traits<G>::vertex_descriptor Vertex; typedef typename Inst<G>::W W;
    const Case &c = in.c; Rng r(p.seed); Use<G, M> u(in.g, m);
    if (parmcb::has_loops(in.g)) u.weight(1); if (parmcb::has_multiple_edges(in.g)) u.weight(1); if (parmcb::has_non_positive_weights(in.g, m)) u.weight(1);
    std::vector<Vertex> fvs; parmcb::greedy_fvs(in.g, std::back_inserter(fvs)); for (auto v : fvs) sink_i = (u64) v;
    std::unique_ptr<parmcb::ForestIndex<G>> kept; parmcb::ForestIndex<G> assigned(in.g);
    { parmcb::ForestIndex<G> f(in.g); kept.reset(new parmcb::ForestIndex<G>(f)); assigned = f; }     // copies outlive the original
    for (auto &e : in.ed) { std::size_t i = (*kept)(e); u.edge((*kept)(i)); u.edge(assigned(assigned(e))); if (kept->is_on_forest(e)) u.weight(1); }
    std::vector<std::set<Edge>> odd;
    for (int k = 0; k < 4; k++) { std::set<Edge> s; for (auto &e : in.ed) if (r.chance(k + 1, 5) || (k == 0 && s.empty())) s.insert(e); odd.push_back(s); }
    builder<G, M, parmcb::detail::HortonCyclesBuilder<G, M>>(in, m, odd);
    builder<G, M, parmcb::detail::FVSCyclesBuilder<G, M>>(in, m, odd);
    builder<G, M, parmcb::detail::ISOCyclesBuilder<G, M>>(in, m, odd);
    if (c.n == 0) return;
    auto im = boost::get(boost::vertex_index, in.g);
    for (int k = 0; k < 3; k++) {
        Vertex s = (Vertex) r.below(c.n), t = (Vertex) r.below(c.n);
        if (s != t && parmcb::is_bfs_reachable(in.g, s, t, (std::size_t) r.range(0, c.n + 1))) u.weight(1);
        auto res = parmcb::bidirectional_signed_dijkstra(in.g, m, odd[k], std::set<Edge>(), false, s, true, s, false, false, (std::numeric_limits<W>::max)());
        u.edges(std::get<0>(res)); if (std::get<2>(res)) u.weight(std::get<1>(res));
        typedef std::tuple<bool, Edge> Pred; typedef parmcb::detail::VertexIndexFunctor<G, W> DF; typedef parmcb::detail::VertexIndexFunctor<G, Pred> PF;
        std::vector<W> dist(c.n, (std::numeric_limits<W>::max)()); std::vector<Pred> pred(c.n, std::make_tuple(false, Edge()));
        boost::function_property_map<DF, Vertex, W&> dm(DF(dist, im)); boost::function_property_map<PF, Vertex, Pred&> pm(PF(pred, im));
        if (k % 2) parmcb::dijkstra(in.g, m, s, dm, pm); else parmcb::lex_dijkstra(in.g, m, s, dm, pm);
        for (int v = 0; v < c.n; v++) if (std::get<0>(pred[v])) { u.edge(std::get<1>(pred[v])); u.weight(dist[v]); }
    }
}
#endif

struct Ub : Check {
    Ub() { batch = 64; mem_limit_mb = 0; cpu_limit = 120; wall_limit = 300; shrink_params = { { "g", 0 }, { "k", 1 }, { "w", 1 }, { "mean", 0 }, { "sseed", 0 } }; }
    Case gen(Rng &r, u64 idx) override {
        Case c; int gt = (int) r.weighted( { 30, 20, 12, 12, 26 }); c.p["g"] = gt; int size = PART == 3 ? 20 : 26;
#ifdef PBT_MEMCHECK
        size = 16;
#endif
        exact_case(r, c, idx < 1100 && r.chance(1, 2) ? idx : ~0ULL >> 1, thorough ? 2 * size : size, gt == 1, -1);
#ifdef PBT_MEMCHECK
        while (csd(c) > 14 && !c.e.empty()) { r.shuffle(c.e); c.e.resize(c.e.size() * 3 / 4); }
#else
        while (csd(c) > (thorough ? 100 : 36) && !c.e.empty()) { r.shuffle(c.e); c.e.resize(c.e.size() * 3 / 4); }
#endif
        c.p["k"] = r.chance(1, 8) ? r.range(4, 40) : r.range(1, 3); c.p["w"] = r.range(1, 5); c.p["sseed"] = (i64) r.below(1000000);
        static const i64 mean[] = { 0, 0, 60, 500 }; c.p["mean"] = mean[r.below(4)];
        if (gt == 1 && !c.e.empty() && r.chance(1, 3)) {      // close to the largest int: every sum of edge weights of a path or a cycle still fits
            i64 tot = 0; for (auto &x : c.e) tot += x.w; i64 f = (INT32_MAX / 6) / std::max<i64>(tot * (i64) std::max(1, csd(c)), 1);
            for (auto &x : c.e) x.w *= std::max<i64>(f, 1);
            i64 room = INT32_MAX / 6, t2 = 0; for (auto &x : c.e) t2 += x.w; if (csd(c) == 1 && t2 < room) c.e[r.below(c.e.size())].w += room - t2;
        }
        return c;
    }
    bool valid(const Case &c) override {
        if (c.get("g") != 1) return exact_domain(c, false) && c.get("k", 1) >= 1 && c.get("w", 1) >= 1;
        i64 t = 0; for (auto &x : c.e) { if (x.w <= 0 || x.w > INT32_MAX) return false; t += x.w; }
        return is_simple(c) && c.shift == 0 && c.get("k", 1) >= 1 && c.get("w", 1) >= 1 && t * std::max(1, csd(c)) <= INT32_MAX / 6 + (1 << 20);
    }
    void run(const Case &c, Ctx &ctx) override {
        label_graph(ctx, c); Plan p { (std::size_t) c.get("k", 1), (int) c.get("w", 1), (u64) c.get("sseed"), (long) c.get("mean") };
        switch (c.get("g")) {
        case 1: { Inst<GInt> in(c); all(in, in.wm, p); ctx.label("int weights"); break; }
#ifndef FEW_TYPES
        case 2: { Inst<GSet> in(c); all(in, in.wm, p); ctx.label("set-based adjacency"); break; }
        case 3: { Inst<GDouble> in(c, true); all(in, in.xm, p); ctx.label("external weight map"); break; }
        case 4: { Inst<sg::Graph> in(c); all(in, in.wm, p); ctx.label("index map with state"); break; }
#endif
        default: { Inst<GDouble> in(c); all(in, in.wm, p); }
        }
        ctx.evals += PART == 3 ? 3 : 5; ctx.nontrivial = csd(c) >= 1; if (csd(c) == 0) ctx.label("forest (or no edge)");
    }
};
int main(int argc, char **argv) { Ub ck; return pbt::main(argc, argv, ck, "C07"); }
