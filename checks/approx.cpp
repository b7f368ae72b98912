// C05 / C06 / C15: approximate algorithms and the spanner they run on (sequential entry points; half of the cases also the TBB ones).
#include "../lib/inst.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/parmcb_approx_sva_signed.hpp>
#include <parmcb/parmcb_approx_sva_trees.hpp>
#ifdef PARMCB_HAVE_TBB
#include <parmcb/parmcb_approx_sva_signed_tbb.hpp>
#include <parmcb/parmcb_approx_sva_trees_tbb.hpp>
#include <tbb/global_control.h>
#endif
using namespace pbt; using namespace gr;

#ifndef PROP
#define PROP 5
#endif
static const char *AN[] = { "approx_mcb_sva_signed", "approx_mcb_sva_fvs_trees", "approx_mcb_sva_iso_trees", "approx_mcb_sva_signed_tbb", "approx_mcb_sva_fvs_trees_tbb", "approx_mcb_sva_iso_trees_tbb" };
template<class G, class M, class O> typename boost::property_traits<M>::value_type call2(int algo, const G &g, const M &m, std::size_t k, O o) {
    switch (algo) {
    case 0: return parmcb::approx_mcb_sva_signed(g, m, k, o);
    case 1: return parmcb::approx_mcb_sva_fvs_trees(g, m, k, o);
#ifdef PARMCB_HAVE_TBB
    case 3: return parmcb::approx_mcb_sva_signed_tbb(g, m, k, o);
    case 4: return parmcb::approx_mcb_sva_fvs_trees_tbb(g, m, k, o);
    case 5: return parmcb::approx_mcb_sva_iso_trees_tbb(g, m, k, o);
#endif
    default: return parmcb::approx_mcb_sva_iso_trees(g, m, k, o);
    }
}
template<class G, class M> typename boost::property_traits<M>::value_type call(int algo, const G &g, const M &m, std::size_t k, std::list<std::list<typename boost::graph_traits<G>::edge_descriptor>> &out, bool note) {
    return call2(algo, g, m, k, sink(out, !note));
}

template<class I, class M> void approx(const Case &c, I &in, const M &m, const char *gname, int algo, std::size_t k, Ctx &ctx) {
    if (c.get("pre")) in.stage([&]() { typename I::Cycles o; try { call(algo, in.g, m, k, o, false); } catch (std::exception&) { } });
    typename I::Cycles out; typename I::W ret = 0; std::string who = std::string(AN[algo]) + "<" + gname + "> k=" + std::to_string(k) + ": ";
    if (k == 0) {
#if PROP == 6
        bool thrown = false; try { ret = call(algo, in.g, m, k, out, false); } catch (...) { thrown = true; }
        PBT_REQUIRE(thrown, who << "is not rejected"); PBT_REQUIRE(out.empty(), who << "emits " << out.size() << " cycles before the exception");
        ctx.label("k=0 rejected");
#endif
        return;
    }
    try { ret = call(algo, in.g, m, k, out, PROP == 5 && c.get("note")); } catch (std::exception &e) { PBT_FAIL(who << "throws " << e.what()); }
    auto ids = [&]() { try { return in.ids(out); } catch (Fail &f) { throw Fail(who + f.msg); } }();
#if PROP == 5
    std::string err = basis_error(c, ids); PBT_REQUIRE(err.empty(), who << err);
    i64 sum = in.weight_of(ids); typename I::W total = 0; for (auto &cy : out) for (auto &e : cy) total += boost::get(m, e);
    PBT_REQUIRE(total == in.real(sum), who << "the emitted descriptors weigh " << (double) total << " under the caller's weight map, " << (double) in.real(sum) << " expected");
    PBT_REQUIRE(ret == in.real(sum), who << "returned " << (double) ret << " but the emitted cycles weigh " << (double) in.real(sum));
#else
    i64 sum = in.weight_of(ids), opt = gr::sum(mcb_weights(c)); i128 f = 2 * (i128) k - 1;
    PBT_REQUIRE((i128) sum <= f * (i128) opt, who << "weight " << sum << " exceeds (2k-1) times the optimum " << opt);
    PBT_REQUIRE(std::is_integral<typename I::W>::value ? (i128) ret <= f * (i128) opt : (double) ret <= (double) f * (double) in.real(opt), who << "returned weight " << (double) ret << " exceeds (2k-1) times the optimum " << (double) in.real(opt));
    PBT_REQUIRE((int) ids.size() == csd(c), who << "emits " << ids.size() << " cycles, dimension is " << csd(c));
    if (k == 1) { PBT_REQUIRE(sum == opt, who << "weight " << sum << ", optimum is " << opt); std::string err = basis_error(c, ids); PBT_REQUIRE(err.empty(), who << err);
        auto ws = in.weights_of(ids); PBT_REQUIRE(ws == mcb_weights(c), who << "sorted weights differ from those of a minimum basis"); }
    if (sum > opt) ctx.label("approximation strictly above the optimum");
#endif
    (void) ret;
}

#if PROP == 15
// Exact-phase stand-in: records the spanner it is given, and emits spanner edge #i as a list of i+1 copies,
// which the library hands to the caller translated to the caller's edges.
static std::vector<long double> spy_w; static int spy_n; static int spy_calls;
struct Spy {
    template<class G, class M, class Out> typename boost::property_traits<M>::value_type operator()(const G &g, const M &m, Out out) {
        spy_calls++; spy_n = (int) boost::num_vertices(g); std::size_t i = 0;
        for (auto r = boost::edges(g); r.first != r.second; ++r.first, ++i) {
            spy_w.push_back((long double) boost::get(m, *r.first));
            std::list<typename boost::graph_traits<G>::edge_descriptor> l(i + 1, *r.first); *out++ = l;
        }
        return 0;
    }
};
template<class I, class M> void spanner(const Case &c, I &in, const M &m, const char *gname, std::size_t k, bool tbbv, Ctx &ctx) {
    if (c.get("pre")) in.stage([&]() { typename I::Cycles o; parmcb::detail::BaseApproxSpannerAlgorithm<typename I::Graph, M, Spy, false> a(in.g, m, boost::get(boost::vertex_index, in.g), k); a.run(std::back_inserter(o)); });
    typename I::Cycles out; spy_w.clear(); spy_calls = 0; std::string who = std::string("spanner<") + gname + "> k=" + std::to_string(k) + ": ";
    auto im = boost::get(boost::vertex_index, in.g); typedef typename I::Graph Graph;
    if (tbbv) { parmcb::detail::BaseApproxSpannerAlgorithm<Graph, M, Spy, true> a(in.g, m, im, k); a.run(sink(out, true)); }
    else { parmcb::detail::BaseApproxSpannerAlgorithm<Graph, M, Spy, false> a(in.g, m, im, k); a.run(sink(out, true)); }
    auto ids = [&]() { try { return in.ids(out); } catch (Fail &f) { throw Fail(who + f.msg); } }();
    PBT_REQUIRE(spy_calls == 1, who << "exact phase ran " << spy_calls << " times");
    PBT_REQUIRE(spy_n == c.n, who << "the subgraph has " << spy_n << " vertices, the input " << c.n);
    std::size_t ms = spy_w.size(); std::vector<int> kept(ms, -1); std::vector<char> in_sp(c.e.size(), 0); std::vector<std::vector<int>> rest;
    for (auto &l : ids) {
        bool same = !l.empty(); for (int x : l) if (x != l[0]) same = false;
        if (same && l.size() <= ms && kept[l.size() - 1] < 0 && !(l.size() == 1 && false)) kept[l.size() - 1] = l[0]; else rest.push_back(l);
    }
    for (std::size_t i = 0; i < ms; i++) {
        PBT_REQUIRE(kept[i] >= 0, who << "retained edge #" << i << " is not translated to an input edge");
        PBT_REQUIRE(!in_sp[kept[i]], who << "input edge " << kept[i] << " is retained twice"); in_sp[kept[i]] = 1;
        PBT_REQUIRE(spy_w[i] == (long double) in.real(c.e[kept[i]].w), who << "retained edge " << c.e[kept[i]].u << "-" << c.e[kept[i]].v << " has weight " << spy_w[i] << " in the subgraph, " << (double) in.real(c.e[kept[i]].w) << " in the input");
    }
    // dropped edges: one cycle per dropped edge, each through exactly one of them
    PBT_REQUIRE(rest.size() + ms == c.e.size(), who << ms << " retained edges and " << rest.size() << " dropped ones do not partition the " << c.e.size() << " input edges");
    std::vector<char> seen(c.e.size(), 0);
    for (auto &l : rest) { int d = -1, cnt = 0; for (int x : l) if (!in_sp[x]) { d = x; cnt++; }
        PBT_REQUIRE(cnt == 1, who << "a cycle closed over a dropped edge contains " << cnt << " non-retained edges"); PBT_REQUIRE(!seen[d], who << "edge " << d << " is dropped twice"); seen[d] = 1; }
    std::vector<E> s; for (std::size_t i = 0; i < c.e.size(); i++) if (in_sp[i]) s.push_back(c.e[i]);
    auto adj = adjacency(c.n, s);
    std::size_t lim = k > (std::size_t) c.n ? (std::size_t) c.n : 2 * k - 1;    // no path has more than n-1 edges
    auto bfs = [&](int a, int b, i64 maxw, int skip, std::size_t depth) -> bool { std::vector<int> d(c.n, -1); std::vector<int> q { a }; d[a] = 0;
        for (std::size_t h = 0; h < q.size(); h++) { int u = q[h]; if (u == b) return true; if ((std::size_t) d[u] >= depth) continue; for (int i : adj[u]) { if (i == skip || s[i].w > maxw) continue; int v = s[i].u == u ? s[i].v : s[i].u; if (d[v] < 0) { d[v] = d[u] + 1; q.push_back(v); } } }
        return false; };
    for (std::size_t i = 0; i < c.e.size(); i++) if (!in_sp[i])
        PBT_REQUIRE(bfs(c.e[i].u, c.e[i].v, c.e[i].w, -1, lim), who << "dropped edge " << c.e[i].u << "-" << c.e[i].v << " (weight " << c.e[i].w << ") has no path of at most 2k-1 retained edges none of which is heavier");
    for (std::size_t i = 0; i < s.size(); i++)
        PBT_REQUIRE(!bfs(s[i].u, s[i].v, INT64_MAX, (int) i, lim), who << "the retained subgraph has a cycle of at most 2k edges through " << s[i].u << "-" << s[i].v);
    if (!rest.empty() && ms > 0) ctx.nontrivial = true;
    int sd = csd(c.n, s); ctx.label(rest.empty() ? "nothing dropped" : sd == 0 ? "spanner is a forest" : "spanner has cycles and edges were dropped");
}
#endif

static int gkind(i64 g) { return g == 1 || g == 7 ? 1 : g == 4 ? 2 : g == 6 ? 3 : 0; }
struct Approx : Check {
    Approx() { batch = 64; shrink_params = { { "g", 0 }, { "note", 0 }, { "tbb", 0 }, { "pre", 0 } }; cpu_limit = 60; }
    static std::size_t kval(i64 code, int n) { switch (code) { case 0: case 1: case 2: case 3: case 4: case 5: case 6: return (std::size_t) code; case 7: return (std::size_t) n / 2 + 1; case 8: return (std::size_t) n + 1;
        case 9: return 1000000; case 10: return (std::size_t) 1 << 31; case 11: return ((std::size_t) 1 << 63) + 1; case 12: return (std::size_t) 1 << 63; default: return SIZE_MAX; } }
    Case gen(Rng &r, u64 idx) override {
        Case c; int gt = (int) r.weighted( { 41, 16, 11, 10, 9, 6, 4, 3 }); c.p["g"] = gt; c.p["note"] = r.chance(1, 4); c.p["tbb"] = r.chance(1, PROP == 15 ? 4 : 2) ? PROP == 15 ? 1 : r.range(1, 4) : 0;
        c.p["pre"] = r.chance(1, 6);
        exact_case(r, c, idx, thorough ? 150 : 70, gkind(gt), thorough ? 6 : 5);
        if (r.chance(1, 4) && !c.e.empty() && c.n < 60) {    // longer cycles: subdivide every edge up to twice
            int t = (int) r.range(1, 2); std::vector<E> o = c.e; c.e.clear();
            for (auto &x : o) { int p = x.u; i64 w = x.w; for (int i = 0; i < t && c.n < 150; i++) if (r.chance(3, 4)) { c.e.push_back(E { p, c.n, w }); p = c.n++; } c.e.push_back(E { p, x.v, w }); }
            r.shuffle(c.e); while (!exact_domain(c, gkind(gt))) { bool any = false; for (auto &x : c.e) if (x.w > 1) { x.w = (x.w + 1) / 2; any = true; } if (!any) { c.e.resize(c.e.size() / 2); } }
        }
        static const int wk[] = { 6, 26, 28, 14, 8, 4, 3, 3, 3, 1, 1, 1, 1, 1 }; c.p["k"] = (i64) r.weighted(std::vector<int>(wk + (PROP == 6 ? 0 : 1), wk + 14)) + (PROP == 6 ? 0 : 1);
        return c;
    }
    bool valid(const Case &c) override { return exact_domain(c, gkind(c.get("g"))) && c.get("k", 2) >= 0; }
    void run(const Case &c, Ctx &ctx) override {
        std::size_t k = kval(c.get("k", 2), c.n); label_graph(ctx, c); ctx.label("k " + (k <= 6 ? std::to_string(k) : std::string("large")));
        if (c.get("pre")) ctx.label("graph object with a history");
        int d = csd(c); bool x = c.get("g") == 3;
#if PROP == 15
        if (k == 0) return;
        switch (c.get("g")) { case 1: { Inst<GInt> in(c, false, c.get("pre")); spanner(c, in, in.wm, "int", k, c.get("tbb"), ctx); break; } case 2: { Inst<GSet> in(c, false, c.get("pre")); spanner(c, in, in.wm, "double,setS", k, c.get("tbb"), ctx); break; }
        case 4: { Inst<GLong> in(c, false, c.get("pre")); spanner(c, in, in.wm, "long long", k, c.get("tbb"), ctx); break; } case 3: { Inst<GDouble> in(c, true, c.get("pre")); spanner(c, in, in.xm, "double,external weight map", k, c.get("tbb"), ctx); break; } case 6: { Inst<GFloat> in(c, false, c.get("pre")); spanner(c, in, in.wm, "float", k, c.get("tbb"), ctx); break; } case 7: { Inst<GUnsigned> in(c, false, c.get("pre")); spanner(c, in, in.wm, "unsigned", k, c.get("tbb"), ctx); break; }
        case 5: { Inst<GInt, double> in(c, true, c.get("pre")); spanner(c, in, in.xm, "int,external map of double", k, c.get("tbb"), ctx); break; } default: { Inst<GDouble> in(c, false, c.get("pre")); spanner(c, in, in.wm, "double", k, c.get("tbb"), ctx); } }
        (void) d; (void) x;
#else
        ctx.nontrivial = d >= 2;
        int na = 3;
#ifdef PARMCB_HAVE_TBB
        std::unique_ptr<tbb::global_control> lim; if (c.get("tbb") && d <= 100) { na = 6; lim.reset(new tbb::global_control(tbb::global_control::max_allowed_parallelism, (std::size_t) c.get("tbb"))); ctx.label("also with TBB"); }
#endif
        for (int a = 0; a < na; a++) { if (a) ctx.evals++;
            switch (c.get("g")) { case 1: { Inst<GInt> in(c, false, c.get("pre")); approx(c, in, in.wm, "int", a, k, ctx); break; } case 2: { Inst<GSet> in(c, false, c.get("pre")); approx(c, in, in.wm, "double,setS", a, k, ctx); break; }
            case 4: { Inst<GLong> in(c, false, c.get("pre")); approx(c, in, in.wm, "long long", a, k, ctx); break; } case 3: { Inst<GDouble> in(c, true, c.get("pre")); approx(c, in, in.xm, "double,external weight map", a, k, ctx); break; } case 6: { Inst<GFloat> in(c, false, c.get("pre")); approx(c, in, in.wm, "float", a, k, ctx); break; } case 7: { Inst<GUnsigned> in(c, false, c.get("pre")); approx(c, in, in.wm, "unsigned", a, k, ctx); break; }
            case 5: { Inst<GInt, double> in(c, true, c.get("pre")); approx(c, in, in.xm, "int,external map of double", a, k, ctx); break; } default: { Inst<GDouble> in(c, false, c.get("pre")); approx(c, in, in.wm, "double", a, k, ctx); } } }
        (void) x;
#endif
    }
};
int main(int argc, char **argv) { Approx ck; return pbt::main(argc, argv, ck, PROP == 5 ? "C05" : PROP == 6 ? "C06" : "C15"); }
