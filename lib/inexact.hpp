// Arbitrary double weights in [1e-3, 1e3] (C09): generator and judge. The exact values of the doubles are
// used, scaled to integers (__int128).
#pragma once
#include "inst.hpp"
namespace gr {
// weight of an edge: w / den, or (den == 0) a sum of decimal pieces: (w % 1000) / 10 added (w / 1000) times
inline double val(const Case &c, const E &x) { return (double) x.w / (double) c.get("den", 10); }
inline i128 fixed(double d) { int e; double m = std::frexp(d, &e); i128 r = (i128) (i64) std::ldexp(m, 53); int s = e - 53 + 75; return r << s; }   // d * 2^75, exact for d >= 2^-11

inline void inexact_weights(Rng &r, Case &c) {
    // weights
    int cls = (int) r.below(12); i64 den = 10, step = 1; c.p["cls"] = cls;
    std::vector<std::pair<i64, i64>> pt(c.n); for (auto &q : pt) q = { r.range(0, 9), r.range(0, 9) };
    static const i64 dens[] = { 10, 100, 1000, 3, 7, 30, 49, 90 };
    switch (cls) {
    case 0: case 1: den = 10; break;                     // 0.1 .. 0.9: sums tie in decimal, not in binary
    case 2: den = 100; break;
    case 3: den = dens[r.below(8)]; break;
    case 4: den = 1000000000000000LL; break;             // 1 + few ulps
    case 5: den = 1000000000000000LL; break;             // arbitrary
    case 6: den = 1000; break;                           // log-uniform
    case 7: den = 10; break;                             // all equal
    case 8: den = 10; break;                             // geometric: manhattan distances in decimals
    case 9: den = 1000; break;                           // extremes 0.001 and 1000
    case 10: den = 1000000000000000LL; step = 1; for (i64 k = r.range(3, 12); k > 0; k--) step *= 10; break;   // a * (1 + tiny), tiny from 1e-11 to 1e-2
    default: den = 100000; break;
    }
    i64 base = r.range(1, 9), kinds = r.range(2, 5); i64 pool[5]; for (auto &q : pool) q = r.range(1, 99);
    for (auto &x : c.e) switch (cls) {
    case 0: x.w = r.range(1, 9); break;
    case 1: x.w = pool[r.below((u64) kinds)]; break;
    case 2: x.w = r.range(1, 30); break;
    case 3: x.w = r.range(den / 10 + 1, 3 * den); break;
    case 4: x.w = base * 1000000000000000LL / 3 + r.range(-3, 3); break;
    case 5: x.w = r.range(1000000000000LL, 1000000000000000000LL); break;
    case 6: x.w = (i64) std::exp((double) r.range(0, 13815) / 1000.0); break;
    case 7: x.w = base; break;
    case 8: x.w = 1 + std::llabs(pt[x.u].first - pt[x.v].first) + std::llabs(pt[x.u].second - pt[x.v].second); break;
    case 9: x.w = r.chance(1, 2) ? r.range(1, 3) : r.range(999990, 1000000); break;
    case 10: x.w = r.range(1, 4) * 100000000000000LL + r.range(-9, 9) * step; break;
    default: x.w = r.range(100, 400) * 10 + r.range(-1, 1); break;
    }
    c.p["den"] = den;
}
inline bool inexact_valid(const Case &c) {
    if (c.n < 0 || !is_simple(c) || c.shift || c.get("den") < 1 || c.get("den") > 1000000000000000LL) return false;
    for (auto &x : c.e) { if (x.w <= 0) return false; double d = val(c, x); if (!(d >= 1e-3 && d <= 1e3)) return false; }
    return true;
}
struct InexactOracle {
    std::vector<i128> w; std::vector<double> dv; i128 best = 0;
    explicit InexactOracle(const Case &c, bool optimum = true) {
        for (auto &x : c.e) { double v = val(c, x); dv.push_back(v); w.push_back(fixed(v)); }
        if (optimum) for (auto &x : mcb_weights<i128>(c.n, c.e, w)) best += x;
    }
    // some pair of weights has a rounded sum
    bool inexact() const { std::set<double> s(dv.begin(), dv.end()); for (double a : s) for (double b : s) if (fixed(a) + fixed(b) != fixed(a + b)) return true; return false; }
    template<class I> void put(I &in) const { for (std::size_t i = 0; i < dv.size(); i++) boost::put(in.wm, in.ed[i], dv[i]); }
    void judge(const Case &c, const std::vector<std::vector<int>> &ids, double ret, const std::string &who) const {
        std::string err = basis_error(c, ids); PBT_REQUIRE(err.empty(), who << err);
        i128 sum = 0; for (auto &v : ids) for (int i : v) sum += w[i];
        double ds = std::ldexp((double) sum, -75), db = std::ldexp((double) best, -75);
        PBT_REQUIRE(std::fabs(ret - ds) <= 1e-9 * ds, who << "returned " << ret << " but the emitted cycles weigh " << ds);
        i128 diff = sum - best; PBT_REQUIRE(diff >= 0, "ORACLE SELF-CHECK FAILED: basis lighter than the optimum");
        PBT_REQUIRE((double) diff <= 1e-9 * (double) best, who << "emitted weight " << ds << ", minimum is " << db << " (relative excess " << (double) diff / (double) best << ")");
    }
};
} // namespace gr
