// C09: exact algorithms on arbitrary double weights in [1e-3,1e3]; the oracle works on the exact
// values of the doubles (scaled to integers, __int128).
#include "../lib/inexact.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#include <parmcb/parmcb_sva_signed_tbb.hpp>
#include <tbb/global_control.h>
using namespace pbt; using namespace gr;

struct Inexact : Check {
    Inexact() { batch = 48; cpu_limit = 40; shrink_params = { { "den", 10 } }; }
    void child_init() override {}
    Case gen(Rng &r, u64 idx) override {
        Case c; exact_case(r, c, idx, thorough ? 90 : 45, false, 4); c.shift = 0; c.p.erase("exh");
        if (c.e.size() > 400) { r.shuffle(c.e); c.e.resize(400); }
        inexact_weights(r, c); return c;
    }
    bool valid(const Case &c) override { return inexact_valid(c); }
    void run(const Case &c, Ctx &ctx) override {
        tbb::global_control lim(tbb::global_control::max_allowed_parallelism, 2);
        int d = csd(c); label_graph(ctx, c); ctx.label("weight class " + std::to_string(c.get("cls")));
        Inst<GDouble> in(c); InexactOracle o(c); o.put(in);
        ctx.nontrivial = d >= 2 && o.inexact();
        static const char *an[] = { "mcb_sva_signed", "mcb_sva_fvs_trees", "mcb_sva_iso_trees", "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb" };
        for (int a = 0; a < 6; a++) {
            if (a) ctx.evals++;
            Inst<GDouble>::Cycles out; double ret = 0; auto it = std::back_inserter(out); std::string who = std::string(an[a]) + ": ";
            try {
                switch (a) { case 0: ret = parmcb::mcb_sva_signed(in.g, in.wm, it); break; case 1: ret = parmcb::mcb_sva_fvs_trees(in.g, in.wm, it); break; case 2: ret = parmcb::mcb_sva_iso_trees(in.g, in.wm, it); break;
                case 3: ret = parmcb::mcb_sva_signed_tbb(in.g, in.wm, it); break; case 4: ret = parmcb::mcb_sva_fvs_trees_tbb(in.g, in.wm, it); break; default: ret = parmcb::mcb_sva_iso_trees_tbb(in.g, in.wm, it); }
            } catch (std::exception &x) { throw Fail(who + "exception: " + x.what()); }
            auto ids = [&]() { try { return in.ids(out); } catch (Fail &f) { throw Fail(who + f.msg); } }();
            o.judge(c, ids, ret, who);
        }
    }
};
int main(int argc, char **argv) { Inexact ck; return pbt::main(argc, argv, ck, "C09"); }
