// C03: the six TBB entry points under chosen schedules (stand-in TBB) or under the real TBB.
#include "../lib/inst.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/parmcb_sva_signed_tbb.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#include <parmcb/parmcb_approx_sva_signed_tbb.hpp>
#include <parmcb/parmcb_approx_sva_trees_tbb.hpp>
#include <sys/personality.h>
#include <tbb/global_control.h>
#include <tbb/task_arena.h>
#ifdef PARMCB_STANDIN_TBB
#include "../mock/sched/sched.h"
#ifndef __SANITIZE_THREAD__
#include "../lib/layout.hpp"
#define LAYOUT 1
#endif
#else
#include <thread>
#endif
using namespace pbt; using namespace gr;

static const char *AN[] = { "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb", "approx_mcb_sva_signed_tbb", "approx_mcb_sva_fvs_trees_tbb", "approx_mcb_sva_iso_trees_tbb" };


template<class G, class M> typename Inst<G>::W call(int algo, const G &g, const M &m, std::size_t k, typename Inst<G>::Cycles &out) {
    switch (algo) {
    case 0: return parmcb::mcb_sva_signed_tbb(g, m, std::back_inserter(out));
    case 1: return parmcb::mcb_sva_fvs_trees_tbb(g, m, std::back_inserter(out));
    case 2: return parmcb::mcb_sva_iso_trees_tbb(g, m, std::back_inserter(out));
    case 3: return parmcb::approx_mcb_sva_signed_tbb(g, m, k, std::back_inserter(out));
    case 4: return parmcb::approx_mcb_sva_fvs_trees_tbb(g, m, k, std::back_inserter(out));
    default: return parmcb::approx_mcb_sva_iso_trees_tbb(g, m, k, std::back_inserter(out));
    }
}

struct Plan { int algo; std::size_t k; int w; u64 seed; long mean; };
struct RunStats { long tasks = 0, switches = 0, preemptions = 0, on_workers = 0; };

template<class G, class M> void one(const Case &c, Inst<G> &in, const M &m, const char *gname, const Plan &p, const std::vector<i64> &opt, RunStats &rs) {
    typename Inst<G>::Cycles out; typename Inst<G>::W ret = 0;
    std::ostringstream w; w << AN[p.algo] << "<" << gname << ">"; if (p.algo >= 3) w << " k=" << p.k; w << " (" << p.w << " workers";
#ifdef PARMCB_STANDIN_TBB
    w << ", schedule " << p.seed << ", preemption every ~" << p.mean << " blocks";
#endif
    w << "): "; std::string who = w.str();
#ifdef PARMCB_STANDIN_TBB
    ms_begin(p.seed, p.w, p.mean, 400);
    try { ret = call(p.algo, in.g, m, p.k, out); }
    catch (std::exception &e) { ms_end(); PBT_FAIL(who << "throws " << e.what()); }
    catch (...) { ms_end(); PBT_FAIL(who << "throws"); }
    ms_end(); ms_stats st; ms_get_stats(&st); rs.tasks += st.tasks; rs.switches += st.switches; rs.preemptions += st.preemptions; rs.on_workers += st.on_workers;
#else
    try {
        tbb::global_control gc(tbb::global_control::max_allowed_parallelism, (std::size_t) p.w);
        if (p.seed % 3 == 0) { tbb::task_arena a(p.w); a.execute([&]() { ret = call(p.algo, in.g, m, p.k, out); }); }
        else ret = call(p.algo, in.g, m, p.k, out);
    } catch (std::exception &e) { PBT_FAIL(who << "throws " << e.what()); }
    (void) rs;
#endif
    auto ids = [&]() { try { return in.ids(out); } catch (Fail &f) { throw Fail(who + f.msg); } }();
    std::string err = basis_error(c, ids); PBT_REQUIRE(err.empty(), who << err);
    i64 sum = in.weight_of(ids), best = gr::sum(opt);
    PBT_REQUIRE(ret == in.real(sum), who << "returned " << (double) ret << " but the emitted cycles weigh " << (double) in.real(sum));
    if (p.algo < 3 || p.k == 1) {
        PBT_REQUIRE(sum == best, who << "emitted weight " << sum << " (scaled), minimum is " << best);
        auto ws = in.weights_of(ids); PBT_REQUIRE(ws == opt, who << "sorted cycle weights " << show(ws) << " differ from those of a minimum basis " << show(opt));
    } else PBT_REQUIRE((i128) sum <= (i128) (2 * p.k - 1) * (i128) best, who << "weight " << sum << " exceeds (2k-1) times the optimum " << best);
}

struct Parallel : Check {
    Parallel() { batch = 32; shrink_params = { { "g", 0 }, { "reps", 1 }, { "mean", 0 }, { "w", 1 } };
#if defined(__SANITIZE_THREAD__)
        mem_limit_mb = 0; cpu_limit = 90; wall_limit = 180;
#else
        mem_limit_mb = 16000;
#endif
#ifdef LAYOUT
        batch = 1;       // a fresh process per case: the layout of the heap is the same when a case is replayed
#endif
    }
    void child_init() override {}
    Case gen(Rng &r, u64 idx) override {
#ifdef PARMCB_STANDIN_TBB
        Case c; int gt = (int) r.weighted( { 60, 22, 8, 10 }); c.p["g"] = gt;
#else
        Case c; int gt = (int) r.weighted( { 56, 20, 7, 9, 8 }); c.p["g"] = gt;
#endif
#ifdef PARMCB_STANDIN_TBB
        exact_case(r, c, r.chance(1, 3) ? r.below(1100) : ~0ULL >> 1, thorough ? 70 : 40, gt == 1, 5);
#if defined(__SANITIZE_THREAD__)
        const int lim = thorough ? 60 : 36;
#else
        const int lim = thorough ? 200 : 90;
#endif
        while (csd(c) > lim && !c.e.empty()) { r.shuffle(c.e); c.e.resize(c.e.size() * 3 / 4); }
        c.p["w"] = r.chance(1, 12) ? 1 : r.range(2, r.chance(1, 4) ? 16 : 6); static const i64 mean[] = { 0, 15, 60, 250, 1000, 5000 }; c.p["mean"] = mean[r.below(6)];
#if defined(__SANITIZE_THREAD__)
        c.p["mean"] = r.chance(1, 3) ? 300 : 0;
#endif
        c.p["reps"] = r.range(1, 3);
#else
        exact_case(r, c, ~0ULL >> 1, thorough ? 300 : 120, gt == 1 ? 1 : gt == 4 ? 2 : 0, -1); c.p["w"] = r.weighted( { 1, 3, 3, 4, 2 }) == 0 ? 1 : r.range(2, 16); c.p["reps"] = 1;
#endif
        c.p["k"] = (i64) r.weighted( { 0, 20, 30, 15, 5, 3 }); c.p["sseed"] = (i64) r.below(1000000);
        return c;
    }
    bool valid(const Case &c) override { return exact_domain(c, c.get("g") == 1 ? 1 : c.get("g") == 4 ? 2 : 0) && c.get("k", 2) >= 1 && c.get("w", 2) >= 1; }
    void run(const Case &c, Ctx &ctx) override {
        int d = csd(c); label_graph(ctx, c); std::vector<i64> opt = mcb_weights(c); RunStats rs; bool first = true;
#ifdef LAYOUT
        layout::start((u64) c.get("sseed"));
#endif
        for (i64 rep = 0; rep < c.get("reps", 1); rep++) for (int a = 0; a < 6; a++) {
            if (!first) ctx.evals++; first = false;
            Plan p { a, (std::size_t) c.get("k", 2), (int) c.get("w", 2), (u64) (c.get("sseed") + rep * 7919 + a * 104729), (long) c.get("mean") };
            switch (c.get("g")) {
            case 1: { Inst<GInt> in(c); one(c, in, in.wm, "int", p, opt, rs); break; }
#ifndef PARMCB_STANDIN_TBB
            case 4: { Inst<GLong> in(c); one(c, in, in.wm, "long long", p, opt, rs); break; }
#endif
#ifndef FEW_TYPES
            case 2: { Inst<GSet> in(c); one(c, in, in.wm, "double,setS", p, opt, rs); break; }
            case 3: { Inst<GDouble> in(c, true); one(c, in, in.xm, "double,external weight map", p, opt, rs); break; }
#endif
            default: { Inst<GDouble> in(c); one(c, in, in.wm, "double", p, opt, rs); }
            }
        }
        ctx.label(c.get("w") == 1 ? "workers 1" : c.get("w") <= 4 ? "workers 2-4" : "workers 5-16");
#ifdef PARMCB_STANDIN_TBB
        ctx.nontrivial = d >= 2 && rs.on_workers >= 2 && rs.switches >= 4;
        ctx.label("tasks", rs.tasks); ctx.label("task switches", rs.switches); ctx.label("preemptions inside tasks", rs.preemptions); ctx.label("tasks run by another thread", rs.on_workers);
#else
        ctx.nontrivial = d >= 2 && c.get("w") >= 2;
#endif
    }
};
int main(int argc, char **argv) {
#ifdef PARMCB_STANDIN_TBB
    // same addresses in every run, so that a schedule can be replayed
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
#endif
    Parallel ck; return pbt::main(argc, argv, ck, "C03");
}
