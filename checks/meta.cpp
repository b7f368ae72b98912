// C08: the reported weight of every exact variant is a function of the weighted graph alone.
// Pure metamorphic relations, no optimum oracle.
#include <iomanip>
#include "../lib/inst.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb_sva_signed.hpp>
#include <parmcb/parmcb_sva_trees.hpp>
#include <parmcb/parmcb_sva_signed_tbb.hpp>
#include <tbb/global_control.h>
using namespace pbt; using namespace gr;
static const char *an[] = { "mcb_sva_signed", "mcb_sva_fvs_trees", "mcb_sva_iso_trees", "mcb_sva_signed_tbb", "mcb_sva_fvs_trees_tbb", "mcb_sva_iso_trees_tbb" };

template<class G> double call(Inst<G> &in, typename Inst<G>::Cycles &out, int a) {
    auto it = std::back_inserter(out);
    switch (a) { case 0: return (double) parmcb::mcb_sva_signed(in.g, in.wm, it); case 1: return (double) parmcb::mcb_sva_fvs_trees(in.g, in.wm, it); case 2: return (double) parmcb::mcb_sva_iso_trees(in.g, in.wm, it);
    case 3: return (double) parmcb::mcb_sva_signed_tbb(in.g, in.wm, it); case 4: return (double) parmcb::mcb_sva_fvs_trees_tbb(in.g, in.wm, it); default: return (double) parmcb::mcb_sva_iso_trees_tbb(in.g, in.wm, it); }
}
template<class G> double report(const Case &c, int a) {
    Inst<G> in(c, false, c.get("pre")); typename Inst<G>::Cycles out;
    if (c.get("pre")) in.stage([&]() { typename Inst<G>::Cycles o; call(in, o, a); });
    return call(in, out, a);
}
static double report(const Case &c, int a) { switch (c.get("g")) { case 1: return report<GInt>(c, a); case 2: return report<GSet>(c, a); default: return report<GDouble>(c, a); } }

struct Meta : Check {
    Meta() { batch = 32; cpu_limit = 90; wall_limit = 200; shrink_params = { { "g", 0 }, { "pre", 0 }, { "a", 0 }, { "b", 0 } }; }
    Case gen(Rng &r, u64 idx) override {
        Case c; int gt = (int) r.weighted( { 60, 25, 15 }); c.p["g"] = gt;
        int big = (int) r.below(thorough ? 300 : 1000);
        if (big == 0 || idx == 3) {              // a few hundred vertices, dimension in the hundreds
            c.n = (int) r.range(120, 320); PairList pl; int kind = (int) r.below(5);
            if (kind == 0) { int side = (int) r.range(10, 17); c.n = side * side; for (int i = 0; i < side; i++) for (int j = 0; j < side; j++) { if (j + 1 < side) pl.emplace_back(i * side + j, i * side + j + 1); if (i + 1 < side) pl.emplace_back(i * side + j, (i + 1) * side + j); } }
            else { int extra = (int) r.range(60, 320); for (int i = 1; i < c.n; i++) pl.emplace_back(kind == 1 ? i - 1 : (int) r.below(i), i); for (int i = 0; i < extra; i++) { int u = (int) r.below(c.n); pl.emplace_back(u, kind == 2 ? (int) ((u + r.range(1, 20)) % c.n) : (int) r.below(c.n)); } }
            norm(pl); for (auto &x : pl) c.e.push_back(E { x.first, x.second, 1 });
            weights(r, c, gt == 1); present(r, c);
        } else { exact_case(r, c, idx, 90, gt == 1, 4); c.p.erase("exh"); if (c.e.size() > 500) c.e.resize(500); }
        c.p["pre"] = c.n < 80 && r.chance(1, 6); c.p["t"] = (i64) r.below(9); c.p["ts"] = (i64) r.below(1000000); c.p["a"] = (i64) r.below(6); c.p["b"] = (i64) r.below(6);
        return c;
    }
    bool valid(const Case &c) override { return exact_domain(c, c.get("g") == 1); }

    // applies transformation t; returns false when it is not applicable. add = weight to add to the base value, mul = factor
    bool transform(const Case &c, Case &d, int t, Rng &r, double &add, double &mul, int a, std::string &what) {
        d = c; add = 0; mul = 1; bool is_int = c.get("g") == 1;
        switch (t) {
        case 0: { what = "renumbering the vertices"; std::vector<int> p(c.n); std::iota(p.begin(), p.end(), 0); r.shuffle(p); for (auto &x : d.e) { x.u = p[x.u]; x.v = p[x.v]; } break; }
        case 1: what = "reordering and re-orienting the edges"; r.shuffle(d.e); for (auto &x : d.e) if (r.chance(1, 2)) std::swap(x.u, x.v); break;
        case 2: { what = "adding isolated vertices"; int k = (int) r.range(1, 4); std::vector<int> p(c.n + k); std::iota(p.begin(), p.end(), 0); r.shuffle(p); d.n += k; for (auto &x : d.e) { x.u = p[x.u]; x.v = p[x.v]; } break; }
        case 3: { if (!c.n) return false; what = "adding pendant trees"; int k = (int) r.range(1, 6); i64 mx = 1; for (auto &x : c.e) mx = std::max(mx, x.w);
            for (int i = 0; i < k; i++) { d.e.insert(d.e.begin() + r.below(d.e.size() + 1), E { d.n, (int) r.below(d.n), r.range(1, mx) }); d.n++; } break; }
        case 4: { what = "adding bridges between components"; int k = 0; i64 mx = 1; for (auto &x : c.e) mx = std::max(mx, x.w); d.n += (int) r.below(3);
            DSU ds(d.n); for (auto &x : d.e) ds.join(x.u, x.v);
            for (int i = 0; i < 4 * d.n && d.n > 1; i++) { int u = (int) r.below(d.n), v = (int) r.below(d.n); if (ds.join(u, v)) { d.e.insert(d.e.begin() + r.below(d.e.size() + 1), E { u, v, r.range(1, mx) }); k++; if (r.chance(1, 3)) break; } }
            if (!k) return false; break; }
        case 5: { what = "disjoint union"; Case h; h.p = c.p; graph(r, h, 9, true); for (auto &x : h.e) x.w = std::max<i64>(1, x.w >> std::max(0, (int) (63 - __builtin_clzll(x.w | 1)) - 8)); h.shift = c.shift;
            if (!exact_domain(h, is_int)) return false;
            add = report(h, a); std::vector<int> p(c.n + h.n); std::iota(p.begin(), p.end(), 0); r.shuffle(p);
            for (auto &x : h.e) d.e.push_back(E { x.u + c.n, x.v + c.n, x.w }); d.n += h.n; for (auto &x : d.e) { x.u = p[x.u]; x.v = p[x.v]; } if (r.chance(2, 3)) r.shuffle(d.e); break; }
        case 6: { what = "subdividing edges"; if (!is_int) { d.shift += 2; for (auto &x : d.e) x.w *= 4; } int k = (int) r.range(1, 3), cnt = 0;
            for (int i = 0; i < 3 * k && cnt < k && !d.e.empty(); i++) { std::size_t j = r.below(d.e.size()); if (d.e[j].w < 2) continue; i64 w = r.range(1, d.e[j].w - 1); E x = d.e[j]; d.e[j] = E { x.u, d.n, w }; d.e.insert(d.e.begin() + r.below(d.e.size() + 1), E { d.n, x.v, x.w - w }); d.n++; cnt++; }
            if (!cnt) return false; break; }
        case 7: { what = "scaling by a power of two"; int k = is_int ? (int) r.range(1, 4) : (int) r.range(-8, 8); mul = std::ldexp(1.0, k); if (is_int) for (auto &x : d.e) x.w <<= k; else { d.shift -= k; } break; }
        default: { what = "several transformations"; Case m = c; for (int i = 0; i < 3; i++) { Case o; double ad, mu; std::string w; static const int ts[] = { 0, 1, 2, 3, 4, 6 }; if (transform(m, o, ts[r.below(6)], r, ad, mu, a, w)) { m = o; what += " + " + w; } } d = m; break; }
        }
        return exact_domain(d, is_int);
    }
    void run(const Case &c, Ctx &ctx) override {
        tbb::global_control lim(tbb::global_control::max_allowed_parallelism, 2);
        int dim = csd(c); label_graph(ctx, c); if (c.get("pre")) ctx.label("graph object with a history"); ctx.nontrivial = dim >= 2; if (c.n > 100 && dim > 50) ctx.label("n > 100 and dimension > 50");
        int a = (int) (c.get("a") % 6), b = (int) (c.get("b") % 6); double base = report(c, a);
        bool small = c.e.size() <= 120;
        for (int x = 0; x < 6; x++) { if (x == a || !(small || x == b || (x % 3 != a % 3 && c.e.size() < 700 && x < 3))) continue; ctx.evals++; double w = report(c, x);
            PBT_REQUIRE(w == base, an[a] << " reports " << std::setprecision(17) << base << " but " << an[x] << " reports " << w << " on the same graph"); }
        Rng r(Rng::mix((u64) c.get("ts") + 99)); int t0 = (int) (c.get("t") % 9);
        for (int k = 0; k < (small ? 3 : 1); k++) {
            int t = (t0 + 4 * k) % 9; Case d; double add, mul; std::string what; if (!transform(c, d, t, r, add, mul, a, what)) { ctx.label("transformation not applicable"); continue; }
            ctx.label("t" + std::to_string(t) + " " + (t == 8 ? "several" : what)); ctx.evals++;
            int alg = k == 0 ? b : (int) r.below(6); double w = report(d, alg);
            PBT_REQUIRE(w == base * mul + add, what << ": " << an[a] << " reports " << std::setprecision(17) << base << " before, " << an[alg] << " reports " << w << " afterwards, expected " << base * mul + add);
        }
    }
};
int main(int argc, char **argv) { Meta ck; return pbt::main(argc, argv, ck, "C08"); }
