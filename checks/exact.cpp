// C01 / C02: the three exact algorithms, sequential and (half of the cases) with TBB.
#include "../lib/inst.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#ifdef PARMCB_HAVE_TBB
#include <parmcb/parmcb_sva_signed_tbb.hpp>
#include <tbb/global_control.h>
#endif
using namespace pbt; using namespace gr;

#ifndef PROP
#define PROP 1
#endif

template<class G, class M, class O> typename boost::property_traits<M>::value_type call(int algo, const G &g, const M &m, O o) {
    switch (algo) {
    case 0: return parmcb::mcb_sva_signed(g, m, o);
    case 1: return parmcb::mcb_sva_fvs_trees(g, m, o);
#ifdef PARMCB_HAVE_TBB
    case 3: return parmcb::mcb_sva_signed_tbb(g, m, o);
    case 4: return parmcb::mcb_sva_fvs_trees_tbb(g, m, o);
    case 5: return parmcb::mcb_sva_iso_trees_tbb(g, m, o);
#endif
    default: return parmcb::mcb_sva_iso_trees(g, m, o);
    }
}
template<class I> void run_one(const Case &c, int algo, const char *gname, const std::vector<i64> *opt, bool ext = false) {
    I in(c, ext, c.get("pre")); typename I::Cycles out; typename I::W ret;
    static const char *an[] = { "mcb_sva_signed", "mcb_sva_fvs_trees", "mcb_sva_iso_trees", "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb" };
    if (c.get("pre")) in.stage([&]() { typename I::Cycles o; if (ext) call(algo, in.g, in.xm, sink(o, true)); else call(algo, in.g, in.wm, sink(o, true)); });
    if (ext) ret = call(algo, in.g, in.xm, sink(out, PROP != 1 || !c.get("note"))); else ret = call(algo, in.g, in.wm, sink(out, PROP != 1 || !c.get("note")));
    std::string who = std::string(an[algo]) + "<" + gname + ">: ";
    auto ids = [&]() { try { return in.ids(out); } catch (Fail &f) { throw Fail(who + f.msg); } }();
#if PROP == 1
    (void) ret; (void) opt;
    std::string err = basis_error(c, ids);
    PBT_REQUIRE(err.empty(), who << err);
#else
    i64 sum = in.weight_of(ids);
    PBT_REQUIRE(ret == in.real(sum), who << "returned " << (double) ret << " but the emitted cycles weigh " << (double) in.real(sum));
    auto ws = in.weights_of(ids);
    PBT_REQUIRE(sum == gr::sum(*opt), who << "emitted weight " << sum << " (scaled), minimum is " << gr::sum(*opt));
    PBT_REQUIRE(ws == *opt, who << "sorted cycle weights " << show(ws) << " differ from those of a minimum basis " << show(*opt));
#endif
}

static int gkind(i64 g) { return g == 1 || g == 7 ? 1 : g == 4 ? 2 : g == 6 ? 3 : 0; }
struct Exact : Check {
    Exact() { batch = 64; shrink_params = { { "g", 0 }, { "tbb", 0 }, { "pre", 0 }, { "note", 0 } }; cpu_limit = 60; }
    Case gen(Rng &r, u64 idx) override {
        Case c; int gt = (int) r.weighted( { 42, 17, 11, 9, 9, 5, 4, 3 }); c.p["g"] = gt;
#ifdef PARMCB_HAVE_TBB
        c.p["tbb"] = r.chance(1, 2) ? r.range(1, 4) : 0;
#endif
        c.p["pre"] = r.chance(1, 6); c.p["note"] = r.chance(1, 4);
        exact_case(r, c, idx, thorough ? 200 : 100, gkind(gt), thorough ? 6 : 5);
        return c;
    }
    bool valid(const Case &c) override { return exact_domain(c, gkind(c.get("g"))); }
    void run(const Case &c, Ctx &ctx) override {
        int d = csd(c); ctx.nontrivial = d >= 2; label_graph(ctx, c);
        std::vector<i64> opt;
#if PROP == 2
        opt = mcb_weights(c);
        if (c.n <= 7 && d <= 9) { PBT_REQUIRE(opt == mcb_bruteforce(c), "ORACLE SELF-CHECK FAILED"); ctx.label("oracle cross-checked by brute force"); }
#endif
        if (c.get("pre")) ctx.label("graph object with a history");
        int na = 3;
#ifdef PARMCB_HAVE_TBB
        std::unique_ptr<tbb::global_control> lim; if (c.get("tbb") && d <= 100) { na = 6; lim.reset(new tbb::global_control(tbb::global_control::max_allowed_parallelism, (std::size_t) c.get("tbb"))); ctx.label("also with TBB"); }
#endif
        for (int a = 0; a < na; a++) {
            switch (c.get("g")) {
            case 1: run_one<Inst<GInt>>(c, a, "int", &opt); break;
            case 2: run_one<Inst<GSet>>(c, a, "double,setS", &opt); break;
            case 5: run_one<Inst<GInt, double>>(c, a, "int,external map of double", &opt, true); break;
            case 6: run_one<Inst<GFloat>>(c, a, "float", &opt); break;
            case 7: run_one<Inst<GUnsigned>>(c, a, "unsigned", &opt); break;
            case 4: run_one<Inst<GLong>>(c, a, "long long", &opt); break;
            case 3: run_one<Inst<GDouble>>(c, a, "double,external weight map", &opt, true); break;
            default: run_one<Inst<GDouble>>(c, a, "double", &opt); break;
            }
            ctx.evals++;
        }
        ctx.evals--;
    }
};
int main(int argc, char **argv) { Exact ck; return pbt::main(argc, argv, ck, PROP == 1 ? "C01" : "C02"); }
