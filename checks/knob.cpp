// C20 (library part): histories of set_global_tbb_concurrency calls (from two translation units when
// KNOB_TU2 is linked), queries and parallel library calls, in a fresh process per case.
#include "../lib/inst.hpp"
#include <parmcb/config.hpp>
#include <parmcb/util.hpp>
#include <parmcb/parmcb_sva_signed_tbb.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#include <parmcb/parmcb_approx_sva_signed_tbb.hpp>
#include <parmcb/parmcb_approx_sva_trees_tbb.hpp>
#include <tbb/global_control.h>
#include <tbb/task_scheduler_observer.h>
#include <tbb/parallel_for.h>
#include <atomic>
#include <thread>
using namespace pbt; using namespace gr;

#ifdef KNOB_TU2
void set_from_other_unit(std::size_t n);
#else
static void set_from_other_unit(std::size_t n) { parmcb::set_global_tbb_concurrency(n); }
#endif

struct Watch : tbb::task_scheduler_observer {
    std::atomic<int> in { 0 }, peak { 0 }; std::atomic<long> bad { -1 }; std::atomic<long> expect { 0 }; std::atomic<u64> samples { 0 };
    void on_scheduler_entry(bool) override { int k = ++in, p = peak; while (k > p && !peak.compare_exchange_weak(p, k)) {}
        long v = (long) tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); samples++; if (expect && v != expect) bad = v; }
    void on_scheduler_exit(bool) override { --in; }
};
static long active() { return (long) tbb::global_control::active_value(tbb::global_control::max_allowed_parallelism); }

struct Knob : Check {
    Knob() { batch = 1; cpu_limit = 60; }
    Case gen(Rng &r, u64) override {
        Case c; graph(r, c, (int) r.range(6, 16), false); int k = (int) r.range(1, 10);
        for (int i = 0; i < k; i++) { int op = (int) r.weighted( { 36, 18, 12, 10, 8, 9, 12, 9 });
            i64 n = r.chance(3, 4) ? r.range(1, 9) : r.chance(1, 2) ? r.range(1, 64) : r.range(65, 256); c.ops.push_back( { op, n }); }
        return c;
    }
    bool valid(const Case &c) override { for (auto &o : c.ops) if (o.size() != 2 || o[0] < 0 || o[0] > 7 || o[1] < 1 || o[1] > 256) return false; return exact_domain(c, false); }
    void run(const Case &c, Ctx &ctx) override {
        Watch w; w.observe(true); long cur = 0, sets = 0, first = 0; Inst<GDouble> in(c); long smax = 0;
        auto chk = [&](const char *when) { if (!cur) return; long v = active(); PBT_REQUIRE(v == cur, when << " TBB's allowed parallelism is " << v << ", it was set to " << cur); };
        for (auto &o : c.ops) {
            Inst<GDouble>::Cycles out; auto it = std::back_inserter(out);
            switch (o[0]) {
            case 0: w.expect = 0; parmcb::set_global_tbb_concurrency((std::size_t) o[1]); cur = o[1]; sets++; if (!first) first = 1; chk("after set_global_tbb_concurrency"); break;
            case 1: w.expect = 0; set_from_other_unit((std::size_t) o[1]); cur = o[1]; sets++; chk("after set_global_tbb_concurrency from another translation unit"); break;
            case 2: w.expect = cur; parmcb::mcb_sva_signed_tbb(in.g, in.wm, it); chk("after mcb_sva_signed_tbb"); break;
            case 3: w.expect = cur; parmcb::mcb_sva_iso_trees_tbb(in.g, in.wm, it); chk("after mcb_sva_iso_trees_tbb"); break;
            case 4: w.expect = cur; parmcb::approx_mcb_sva_signed_tbb(in.g, in.wm, 2, it); chk("after approx_mcb_sva_signed_tbb"); break;
            case 6: w.expect = 0; { std::thread t([&]() { parmcb::set_global_tbb_concurrency((std::size_t) o[1]); }); t.join(); } cur = o[1]; sets++; chk("after set_global_tbb_concurrency on a thread that has ended"); break;
            case 7: w.expect = cur; switch (o[1] % 3) { case 0: parmcb::mcb_sva_fvs_trees_tbb(in.g, in.wm, it); break; case 1: parmcb::approx_mcb_sva_fvs_trees_tbb(in.g, in.wm, 2, it); break; default: parmcb::approx_mcb_sva_iso_trees_tbb(in.g, in.wm, 2, it); } chk("after a parallel algorithm"); break;
            default: { w.expect = cur; long v = 0; std::thread t([&]() { tbb::parallel_for(0, 64, [&](int) { }); v = active(); }); t.join(); if (cur) PBT_REQUIRE(v == cur, "another thread sees allowed parallelism " << v << ", it was set to " << cur); } break;
            }
            smax = std::max(smax, cur);
            PBT_REQUIRE(w.bad < 0, "while a library call was running the allowed parallelism was " << w.bad << ", it was set to " << cur);
        }
        // the first operation of a fresh process was a set: no more threads than the largest limit ever set may have been active
        if (!c.ops.empty() && c.ops[0][0] <= 1 && smax && sets == 1) { bool other = false; for (auto &o : c.ops) if (o[0] == 5 || o[0] == 6) other = true;
            if (!other) { PBT_REQUIRE(w.peak <= smax, w.peak << " threads executed library tasks at the same time, the limit was " << smax); ctx.label("worker threads counted"); } }
        ctx.nontrivial = sets >= 2 || (sets == 1 && c.ops.size() > 1); ctx.label("sets", (u64) sets); ctx.evals += c.ops.size();
        w.observe(false);
    }
};
int main(int argc, char **argv) { Knob ck; return pbt::main(argc, argv, ck, "C20"); }
