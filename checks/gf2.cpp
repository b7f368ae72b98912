// C17: SpVecGF2 against a dense/set reference model over operation histories.
#include "../lib/pbt.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/spvecgf2.hpp>
using namespace pbt;

// ops: {code, a, b, x...}; registers 0..R-1
static const int R = 5;
template<class U> void play(const Case &c, Ctx &ctx) {
    typedef parmcb::SpVecGF2<U> V; typedef std::set<U> S;
    std::vector<V> v(R); std::vector<S> m(R); bool adds = false, cancel = false; std::size_t k = 0;
    auto sym = [&](const S &a, const S &b) { S r; for (auto &x : a) if (!b.count(x)) r.insert(x); else cancel = true; for (auto &x : b) if (!a.count(x)) r.insert(x); return r; };
    auto dot = [&](const S &a, const S &b) { int r = 0; for (auto &x : a) r ^= (int) b.count(x); return r; };
    auto same = [&](const V &x, const S &s, const char *what) {
        std::vector<U> got(x.begin(), x.end()), want(s.begin(), s.end());
        if (got != want) { std::ostringstream o; o << what << " after op #" << k << " lists ["; for (auto &y : got) o << +y << " "; o << "], dense computation has ["; for (auto &y : want) o << +y << " "; o << "]"; throw Fail(o.str()); }
        PBT_REQUIRE(x.size() == want.size(), what << " after op #" << k << ": size() = " << x.size() << ", expected " << want.size());
    };
    for (auto &op : c.ops) {
        k++; int code = (int) op[0], a = (int) (op[1] % R), b = (int) (op[2] % R), d = (int) (op[3] % R); if (a < 0 || b < 0 || d < 0) continue;
        S xs; for (std::size_t i = 4; i < op.size(); i++) xs.insert((U) op[i]);
        switch (code) {
        case 0: v[a] = V(); m[a] = S(); break;
        case 1: { U x = xs.empty() ? U() : *xs.begin(); v[a] = V(x); m[a] = S { x }; break; }
        case 2: v[a] = V(xs); m[a] = xs; break;
        case 3: { V t(v[b]); same(t, m[b], "copy"); v[a] = t; m[a] = m[b]; same(t, m[a], "source of assignment"); break; }
        case 4: { V t(v[b]); V u(std::move(t)); same(u, m[b], "move-constructed vector"); v[a] = std::move(u); m[a] = m[b]; break; }
        case 5: v[d] = v[a] + v[b]; m[d] = sym(m[a], m[b]); adds = true; break;
        case 6: v[a] += v[b]; m[a] = sym(m[a], m[b]); adds = true; break;
        case 7: { V &r = v[a]; v[a] = r; break; }
        case 8: v[a].clear(); m[a].clear(); break;
        case 9: { U x = m[a].empty() ? (xs.empty() ? U() : *xs.begin()) : *m[a].rbegin();
            if (!m[a].empty()) { if (x == (std::numeric_limits<U>::max)()) break; x = (U) (x + 1); if (!xs.empty() && *xs.rbegin() > x) x = *xs.rbegin(); }
            v[a].add(x); m[a].insert(x); break; }
        case 10: { V &r = v[a]; v[a] += r; m[a].clear(); adds = true; break; }
        case 11: std::swap(v[a], v[b]); std::swap(m[a], m[b]); break;
        case 12: { V t = v[a] + v[b] + v[d]; same(t, sym(sym(m[a], m[b]), m[d]), "three-term sum"); adds = true; break; }
        case 13: { std::stringstream s; { boost::archive::binary_oarchive o(s); const V &t = v[a]; o << t; } V t(U(3)); { boost::archive::binary_iarchive i(s); i >> t; } same(t, m[a], "vector after serialisation"); break; }
        }
        PBT_REQUIRE(v[a] * v[b] == dot(m[a], m[b]), "product of registers " << a << " and " << b << " after op #" << k << " is " << v[a] * v[b] << ", parity of common coordinates is " << dot(m[a], m[b]));
        PBT_REQUIRE(v[b] * v[a] == dot(m[a], m[b]), "product is not symmetric after op #" << k);
        PBT_REQUIRE(v[a] * m[b] == dot(m[a], m[b]), "product with an index set after op #" << k << " is " << v[a] * m[b] << ", expected " << dot(m[a], m[b]));
        PBT_REQUIRE(v[a] * xs == dot(m[a], xs), "product with an index set after op #" << k << " is " << v[a] * xs << ", expected " << dot(m[a], xs));
        PBT_REQUIRE(v[a] * v[a] == (int) (m[a].size() & 1), "product with itself after op #" << k << " is " << v[a] * v[a] << ", expected " << (m[a].size() & 1));
        for (int i = 0; i < R; i++) same(v[i], m[i], ("register " + std::to_string(i)).c_str());
        if (m[a].size() > 20) ctx.label("vectors longer than 20");
    }
    ctx.nontrivial = adds && cancel;
    ctx.evals = c.ops.size();
}
struct T : Check {
    T() { batch = 512; shrink_params = { { "type", 0 } }; }
    Case gen(Rng &r, u64) override {
        Case c; c.p["type"] = r.weighted( { 55, 20, 15, 10 });
        int univ = (int) r.weighted( { 40, 30, 20, 10 }); i64 hi = univ == 0 ? 5 : univ == 1 ? 15 : univ == 2 ? 80 : (c.p["type"] == 3 ? 255 : (i64) 1 << 30);
        int len = (int) r.range(1, r.chance(1, 10) ? 120 : 25);
        for (int i = 0; i < len; i++) {
            std::vector<i64> op { (i64) r.weighted( { 2, 5, 20, 6, 5, 18, 18, 2, 3, 10, 3, 4, 6, 2 }), (i64) r.below(R), (i64) r.below(R), (i64) r.below(R) };
            int cnt = (int) r.below(r.chance(1, 8) ? 40 : 8);
            if (op[0] != 1 && op[0] != 2 && op[0] != 9 && !r.chance(1, 3)) cnt = 0;
            for (int j = 0; j < cnt; j++) { i64 x = r.range(0, hi); if (univ == 3 && c.p["type"] == 0 && r.chance(1, 6)) x = -1 - (i64) r.below(3); if (c.p["type"] == 1 && r.chance(1, 10)) x = -x; op.push_back(x); }
            c.ops.push_back(op);
        }
        return c;
    }
    bool valid(const Case &c) override { for (auto &o : c.ops) { if (o.size() < 4) return false; for (int j = 1; j < 4; j++) if (o[j] < 0) return false; } return true; }
    void run(const Case &c, Ctx &ctx) override {
        switch (c.get("type")) { case 1: play<int>(c, ctx); ctx.label("int"); break; case 2: play<unsigned>(c, ctx); ctx.label("unsigned"); break;
            case 3: play<unsigned char>(c, ctx); ctx.label("unsigned char"); break; default: play<std::size_t>(c, ctx); ctx.label("size_t"); }
    }
};
int main(int argc, char **argv) { T ck; return pbt::main(argc, argv, ck, "C17"); }
