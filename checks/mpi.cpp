// C04: the five MPI entry points, on ranks that are processes of their own with a heap layout of their own.
// Built against the stand-in MPI (ranks are forked, every collective is a rendezvous) or against the real one (under mpiexec).
// PROP 7: only undefined behaviour (built with sanitizers, or run under memcheck). PROP 9: the same with inexact weights. PROP 8: only the reported values, compared across ranks, layouts and transformed copies.
#ifndef PROP
#define PROP 4
#endif
#include "../lib/inexact.hpp"
#if PROP == 7
#include "../lib/sg.hpp"
#endif
#include <parmcb/config.hpp>
#include <boost/mpi/environment.hpp>
#include <boost/mpi/communicator.hpp>
#include <parmcb/mpi/parmcb.hpp>
#include <parmcb/mpi/parmcb_sva_signed.hpp>
#include <parmcb/mpi/parmcb_sva_trees.hpp>
#if PROP != 7
#include "../lib/layout.hpp"
#endif
#include <tbb/global_control.h>
#ifdef PARMCB_STANDIN_TBB
#include "../mock/sched/sched.h"
#endif
#ifdef PARMCB_STANDIN_MPI
#include "../mock_mpi/coordinator.hpp"
#endif
#if PROP == 8
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#endif
using namespace pbt; using namespace gr;

static const char *AN[] = { "mcb_sva_signed_mpi", "mcb_sva_fvs_trees_mpi", "mcb_sva_fvs_trees_tbb_mpi", "mcb_sva_iso_trees_mpi", "mcb_sva_iso_trees_tbb_mpi" };

template<class G, class M> typename Inst<G>::W call(int algo, const G &g, const M &m, typename Inst<G>::Cycles &out, boost::mpi::communicator &world) {
    switch (algo) {
    case 0: return parmcb::mcb_sva_signed_mpi(g, m, std::back_inserter(out), world);
    case 1: return parmcb::mcb_sva_fvs_trees_mpi(g, m, std::back_inserter(out), world);
    case 2: return parmcb::mcb_sva_fvs_trees_tbb_mpi(g, m, std::back_inserter(out), world);
    case 3: return parmcb::mcb_sva_iso_trees_mpi(g, m, std::back_inserter(out), world);
    default: return parmcb::mcb_sva_iso_trees_tbb_mpi(g, m, std::back_inserter(out), world);
    }
}

template<class G, class M> void judge(const Case &c, Inst<G> &in, int algo, int rank, const typename Inst<G>::Cycles &out, typename Inst<G>::W ret, const std::vector<i64> &opt) {
    (void) algo;
#if PROP == 7
    static volatile double sink; double t = 0; for (auto &cy : out) for (auto &e : cy) t += (double) boost::get(in.wm, e) + (double) boost::source(e, in.g) + (double) boost::target(e, in.g);
    if (ret > 0) t += 1; sink = t; (void) sink; (void) rank; return;      // uses what was handed back
#endif
    if (rank != 0) { PBT_REQUIRE(out.empty(), "emits " << out.size() << " cycles, only rank 0 may"); return; }
#if PROP == 8
    return;
#endif
#if PROP == 9
    InexactOracle(c).judge(c, in.ids(out), ret, ""); return;
#endif
    auto ids = in.ids(out); std::string err = basis_error(c, ids); PBT_REQUIRE(err.empty(), err);
    i64 s = in.weight_of(ids);
    PBT_REQUIRE(ret == in.real(s), "returned " << (double) ret << " but the emitted cycles weigh " << (double) in.real(s));
    PBT_REQUIRE(s == gr::sum(opt), "emitted weight " << s << " (scaled), minimum is " << gr::sum(opt));
    auto ws = in.weights_of(ids); PBT_REQUIRE(ws == opt, "sorted cycle weights " << show(ws) << " differ from those of a minimum basis " << show(opt));
}

template<class G, class M> double one(const Case &c, Inst<G> &in, const M &m, int algo, boost::mpi::communicator &world, const std::vector<i64> &opt, u64 seed) {
    typename Inst<G>::Cycles out; typename Inst<G>::W ret; int workers = (int) c.get("w", 1);
#ifdef PARMCB_STANDIN_TBB
    ms_begin(seed, workers, 0, 0); ret = call(algo, in.g, m, out, world); ms_end();
#elif PROP == 7
    (void) seed; (void) workers; ret = call(algo, in.g, m, out, world);
#else
    (void) seed; tbb::global_control gc(tbb::global_control::max_allowed_parallelism, (std::size_t) workers);
    ret = call(algo, in.g, m, out, world);
#endif
    judge<G, M>(c, in, algo, world.rank(), out, ret, opt); return (double) ret;
}
inline double rank_work(const Case &c, int algo, boost::mpi::communicator &world, const std::vector<i64> &opt) {
    u64 seed = (u64) c.get("sseed") * 1000 + (u64) (world.rank() * 10 + algo);
    try {
        switch (c.get("g")) {
        case 1: { Inst<GInt> in(c); return one(c, in, in.wm, algo, world, opt, seed); }
#ifndef FEW_TYPES
        case 2: { Inst<GSet> in(c); return one(c, in, in.wm, algo, world, opt, seed); }
        case 3: { Inst<GDouble> in(c, true); return one(c, in, in.xm, algo, world, opt, seed); }
#endif
#if PROP == 7 && !defined(FEW_TYPES)
        case 4: { Inst<sg::Graph> in(c); return one(c, in, in.wm, algo, world, opt, seed); }
#endif
        default: { Inst<GDouble> in(c); if (PROP == 9) InexactOracle(c, false).put(in); return one(c, in, in.wm, algo, world, opt, seed); }
        }
    } catch (Fail &f) { throw Fail(std::string(AN[algo]) + ": " + f.msg); }
    catch (std::exception &e) { throw Fail(std::string(AN[algo]) + ": throws " + e.what()); }
}
#if PROP != 7
static u64 layout_seed(const Case &c, int rank) { i64 l = c.get("lay"); return l == 0 ? 1 : Rng::mix((u64) l * 1009 + (u64) rank); }
#endif

inline Case gen_case(Rng &r, u64 idx, bool thorough) {
    Case c; int gt = (int) r.weighted( { 60, 18, 12, 10 }); c.p["g"] = gt;
    exact_case(r, c, r.chance(1, 4) ? r.below(1100) : ~0ULL >> 1, thorough ? 90 : 45, gt == 1, 5);
    while (csd(c) > (thorough ? 200 : 70) && !c.e.empty()) { r.shuffle(c.e); c.e.resize(c.e.size() * 3 / 4); }
#if PROP == 9
    c.p["g"] = 0; c.shift = 0; c.p.erase("exh"); inexact_weights(r, c);
#endif
#if PROP == 7
    if (r.chance(1, 4)) { c.p["g"] = 4; }
    c.p["rounds"] = r.chance(1, 3) ? 4 : 1; if (!thorough) while (csd(c) > (c.get("rounds") == 1 ? 24 : 12) && !c.e.empty()) { r.shuffle(c.e); c.e.resize(c.e.size() * 3 / 4); }
#ifdef PBT_MEMCHECK
    while (csd(c) > 8 && !c.e.empty()) { r.shuffle(c.e); c.e.resize(c.e.size() * 3 / 4); }
#endif
#endif
    c.p["lay"] = r.chance(1, 10) ? 0 : r.range(1, 1000000); c.p["sseed"] = (i64) r.below(1000000); c.p["w"] = r.weighted( { 3, 2, 1 }) == 0 ? 1 : r.range(2, 6);
    int p = (int) r.range(1, 6);
    switch (r.below(8)) { case 0: p = 1; break; case 1: p = csd(c) + (int) r.range(-1, 1); break; case 2: p = c.n + (int) r.range(-1, 1); break; case 3: p = (int) r.range(5, thorough ? 24 : 12); break; }
#ifdef PBT_MEMCHECK
    p = std::min(p, 3);
#endif
#if PROP == 7
    if (!thorough) p = std::min(p, 8);
#endif
    c.p["comm"] = (i64) r.below(3);          // only used under the real MPI
    c.p["P"] = std::max(1, std::min(p, thorough ? 32 : 16)); (void) idx;
    return c;
}

#ifdef PARMCB_STANDIN_MPI
#if PROP == 8
template<class G> double sequential1(const Case &c, int a, bool ext) {
    Inst<G> in(c, ext); typename Inst<G>::Cycles out; auto it = std::back_inserter(out);
    if (ext) switch (a) { case 0: return (double) parmcb::mcb_sva_signed(in.g, in.xm, it); case 1: return (double) parmcb::mcb_sva_fvs_trees(in.g, in.xm, it); default: return (double) parmcb::mcb_sva_iso_trees(in.g, in.xm, it); }
    switch (a) { case 0: return (double) parmcb::mcb_sva_signed(in.g, in.wm, it); case 1: return (double) parmcb::mcb_sva_fvs_trees(in.g, in.wm, it); default: return (double) parmcb::mcb_sva_iso_trees(in.g, in.wm, it); }
}
inline double sequential(const Case &c, int a) { switch (c.get("g")) { case 1: return sequential1<GInt>(c, a, false); case 2: return sequential1<GSet>(c, a, false); case 3: return sequential1<GDouble>(c, a, true); default: return sequential1<GDouble>(c, a, false); } }
#endif
struct Mpi : Check {
    Mpi() { batch = 16; mem_limit_mb = 0; cpu_limit = 120; wall_limit = 180; shrink_params = { { "g", 0 }, { "w", 1 }, { "P", 1 }, { "lay", 0 }, { "sseed", 0 }, { "comm", 0 } }; if (PROP == 9) shrink_params["den"] = 10; }
    Case gen(Rng &r, u64 idx) override { return gen_case(r, idx, thorough); }
    bool valid(const Case &c) override { return (PROP == 9 ? inexact_valid(c) && c.get("g") == 0 : exact_domain(c, c.get("g") == 1)) && c.get("P") >= 1 && c.get("P") <= 64 && c.get("comm") >= 0 && c.get("w") >= 1; }
    void run(const Case &c, Ctx &ctx) override {
        std::vector<i64> opt; if (PROP == 4) opt = mcb_weights(c); int P = (int) c.get("P"), d = csd(c); label_graph(ctx, c);
        mm::Stats st; mm::Coordinator co(P, (u64) c.get("sseed"), st); int phase = 0;
#if PROP == 8
        // a renumbered copy with its edges in another order; both must report what the sequential algorithm reports
        Case t = c; { Rng r(Rng::mix((u64) c.get("sseed") + 5)); std::vector<int> p(c.n); std::iota(p.begin(), p.end(), 0); r.shuffle(p); for (auto &x : t.e) { x.u = p[x.u]; x.v = p[x.v]; } r.shuffle(t.e); for (auto &x : t.e) if (r.chance(1, 2)) std::swap(x.u, x.v); }
        double base = sequential(c, (int) (c.get("sseed") % 3)); const int rounds = 10;
        co.on_result = [&](const std::vector<std::string> &v) {
            double w = std::strtod(v[0].c_str(), 0);
            PBT_REQUIRE(w == base, AN[phase % 5] << " with " << P << " ranks reports " << v[0] << (phase >= 5 ? " on a renumbered copy" : "") << ", the sequential algorithm " << base);
            phase++;
        };
#else
        const int rounds = PROP == 7 ? 5 * (int) std::max<i64>(1, std::min<i64>(c.get("rounds", 1), 4)) : 5; co.on_result = [&](const std::vector<std::string>&) { phase++; };
#endif
        co.start([&](int rank) {
#if PROP != 7
            layout::start(layout_seed(c, rank));
#endif
            boost::mpi::communicator world;
#if PROP == 7
            long kept[5] = { 0, 0, 0, 0, 0 };
#endif
            for (int a = 0; a < rounds; a++) {
#if PROP == 7
#ifdef __SANITIZE_ADDRESS__
                // what is allocated after every repetition has to be what was allocated before it
                long before = (long) __sanitizer_get_current_allocated_bytes(); double w = rank_work(c, a % 5, world, opt);
                long g = (long) __sanitizer_get_current_allocated_bytes() - before; if (a >= 5) kept[a % 5] = a < 10 ? g : std::min(kept[a % 5], g);
                if (a >= 15 && kept[a % 5] > 0) { std::snprintf(shared()->msg, 500, "%s: at least %ld bytes stay allocated on rank %d after every repetition of the call", AN[a % 5], kept[a % 5], rank); _exit(67); }
#elif defined(PBT_MEMCHECK)
                (void) kept; if (a >= 5) break; double w = rank_work(c, a, world, opt);
                unsigned long bad = (unsigned long) VALGRIND_COUNT_ERRORS; if (bad) { std::snprintf(shared()->msg, 500, "%s: memcheck reports %lu errors on rank %d", AN[a], bad, rank); _exit(97); }
#else
                (void) kept; double w = rank_work(c, a % 5, world, opt);
#endif
#elif PROP == 8
                double w = rank_work(a < 5 ? c : t, a % 5, world, opt);
#else
                double w = rank_work(c, a, world, opt);
#endif
                char b[64]; std::snprintf(b, sizeof b, "%.17g", w); mm::result(b);
            }
        }, 60);
        try { co.loop(); }
        catch (Fail &f) { std::string at = AN[phase % 5]; throw Fail(f.msg.find("mcb_sva") == std::string::npos ? at + ": " + f.msg : f.msg); }
#ifdef PBT_MEMCHECK
        phase = rounds;
#endif
        PBT_REQUIRE(phase == rounds, "HARNESS: " << phase << " results");
        ctx.evals += rounds - 1; ctx.nontrivial = d >= 2 && P >= 2;
        ctx.label(P == 1 ? "ranks 1" : P <= 4 ? "ranks 2-4" : P <= 8 ? "ranks 5-8" : "ranks >8"); if (d >= 1 && P > d) ctx.label("more ranks than cycles"); if (P > c.n) ctx.label("more ranks than vertices");
        ctx.label(c.get("lay") ? "heap layouts differ between ranks" : "same heap layout on all ranks");
        ctx.label("collectives", st.collectives); ctx.label("reduction steps", st.merges);
    }
};
int main(int argc, char **argv) { Mpi ck; return pbt::main(argc, argv, ck, PROP == 7 ? "C07" : PROP == 8 ? "C08" : PROP == 9 ? "C09" : "C04"); }
#else
// mpiexec -n P mpi batch <seed> <from> <to> <out prefix> <thorough>   |   mpi replay <file> <out prefix>
int main(int argc, char **argv) {
    if (argc > 2 && std::string(argv[1]) == "show") { Rng r(case_seed(std::stoull(argv[2]), std::stoull(argv[3]))); std::cout << gen_case(r, std::stoull(argv[3]), argv[4][0] == '1').str(); return 0; }
    boost::mpi::environment env(argc, argv, boost::mpi::threading::multiple); boost::mpi::communicator world; int rank = world.rank();
    std::vector<Case> cases; std::vector<u64> name; std::string out; std::string mode = argv[1];
    if (mode == "batch") { u64 seed = std::stoull(argv[2]); bool th = argv[6][0] == '1'; out = argv[5];
        for (u64 i = std::stoull(argv[3]); i < std::stoull(argv[4]); i++) { Rng r(case_seed(seed, i)); cases.push_back(gen_case(r, i, th)); name.push_back(i); } }
    else { std::ifstream in(argv[2]); Case c; out = argv[3]; while (parse_case(in, c)) { cases.push_back(c); name.push_back(name.size()); } }
    FILE *log = fopen((out + "." + std::to_string(rank)).c_str(), "w"); if (!log) return 3; setvbuf(log, 0, _IOLBF, 0);
    // the communicator of the call: the world, its ranks in the opposite order, or one of two halves that work at the same time
    boost::mpi::communicator rev = world.split(0, world.size() - rank), half = world.split(rank % 2, rank); boost::mpi::communicator *comms[3] = { &world, &rev, &half };
    std::vector<std::vector<i64>> opts; for (std::size_t i = 0; i < cases.size(); i++) opts.push_back(comms[cases[i].get("comm") % 3]->rank() == 0 ? mcb_weights(cases[i]) : std::vector<i64>());
    if (!cases.empty()) layout::start(layout_seed(cases[0], rank));
    for (std::size_t i = 0; i < cases.size(); i++) for (int a = 0; a < 5; a++) {
        fprintf(log, "start %llu %s\n", (unsigned long long) name[i], AN[a]);
        try { rank_work(cases[i], a, *comms[cases[i].get("comm") % 3], opts[i]); }
        catch (Fail &f) { static const char *what[] = { "the world", "the ranks in the opposite order", "every second rank" }; std::string m = f.msg + " (communicator: " + what[cases[i].get("comm") % 3] + ")"; for (auto &ch : m) if (ch == '\n') ch = ' '; fprintf(log, "fail %llu rank %d of %d: %s\n", (unsigned long long) name[i], rank, world.size(), m.c_str()); fflush(log); env.abort(9); }
        fprintf(log, "done %llu %d\n", (unsigned long long) name[i], csd(cases[i]));
    }
    fprintf(log, "end\n"); fclose(log); return 0;
}
#endif
