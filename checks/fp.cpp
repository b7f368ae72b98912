// C18: ext_gcd, modular inverse, primality, SpVecFP.
#include "../lib/pbt.hpp"
#include <cmath>
#include <cassert>
#include <limits>
#include <boost/multiprecision/cpp_int.hpp>
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/fp.hpp>
#include <parmcb/spvecfp.hpp>
using namespace pbt;
typedef boost::multiprecision::cpp_int Z;

static Z big(i64 hi, i64 lo) { return (Z(hi) << 62) + lo; }
template<class T> T conv(i64 hi, i64 lo);
template<> int conv<int>(i64, i64 lo) { return (int) lo; }
template<> long conv<long>(i64, i64 lo) { return (long) lo; }
template<> long long conv<long long>(i64, i64 lo) { return lo; }
template<> short conv<short>(i64, i64 lo) { return (short) lo; }
template<> unsigned conv<unsigned>(i64, i64 lo) { return (unsigned) lo; }
template<> unsigned long conv<unsigned long>(i64, i64 lo) { return (unsigned long) lo; }
template<> Z conv<Z>(i64 hi, i64 lo) { return big(hi, lo); }
template<class T> bool isz() { return std::is_same<T, Z>::value; }

static Z zgcd(Z a, Z b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b != 0) { Z t = a % b; a = b; b = t; } return a; }

template<class T> void gcd_case(i64 ah, i64 al, i64 bh, i64 bl, Ctx &ctx) {
    T a = conv<T>(ah, al), b = conv<T>(bh, bl), a0 = a, b0 = b, x = T(77), y = T(-55); Z A(a0), B(b0);
    if (A == 0 && B == 0) return;
    Z want = zgcd(A, B);
    if (!isz<T>() && want > Z((std::numeric_limits<T>::max)())) return;   // gcd itself not representable
    T g = parmcb::fp<T>::ext_gcd(a, b, x, y);
    PBT_REQUIRE(Z(g) == want, "ext_gcd(" << A << ", " << B << ") returns " << g << ", the gcd is " << want);
    PBT_REQUIRE(A * Z(x) + B * Z(y) == Z(g), "ext_gcd(" << A << ", " << B << "): coefficients x=" << x << " y=" << y << " give " << A * Z(x) + B * Z(y) << ", not " << g);
    PBT_REQUIRE(Z(a) * Z(x) + Z(b) * Z(y) == Z(g), "ext_gcd(" << A << ", " << B << ") left a=" << a << " b=" << b << " for which a*x+b*y is " << Z(a) * Z(x) + Z(b) * Z(y) << ", not " << g);
    if (A == 0 || B == 0) ctx.label("gcd with a zero argument"); if (A < 0 || B < 0) ctx.label("gcd with a negative argument");
    if (A != 0 && B != 0) ctx.nontrivial = true;
}
template<class T> void inv_case(i64 ah, i64 al, i64 ph, i64 pl, Ctx &ctx) {
    T a = conv<T>(ah, al), p = conv<T>(ph, pl); Z A(a), P(p); if (P < 2) return;
    bool thrown = false; T r = T(0);
    try { r = parmcb::fp<T>::get_mult_inverse(a, p); } catch (Fail&) { throw; } catch (std::exception *e) { thrown = true; delete e; } catch (...) { thrown = true; }
    if (zgcd(A, P) == 1) {
        PBT_REQUIRE(!thrown, "get_mult_inverse(" << A << ", " << P << ") throws although the arguments are coprime");
        PBT_REQUIRE((A * Z(r) - 1) % P == 0, "get_mult_inverse(" << A << ", " << P << ") = " << r << " but a*r mod p = " << (A * Z(r)) % P);
        ctx.nontrivial = true; ctx.label("inverse exists");
    } else { PBT_REQUIRE(thrown, "get_mult_inverse(" << A << ", " << P << ") returns " << r << " although gcd is " << zgcd(A, P)); ctx.label("inverse does not exist"); }
}
static u64 mulm(u64 a, u64 b, u64 m) { return (u64) ((unsigned __int128) a * b % m); }
static bool mr_prime(u64 n) {
    if (n < 2) return false; for (u64 q : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { if (n % q == 0) return n == q; }
    u64 d = n - 1; int s = 0; while (!(d & 1)) { d >>= 1; s++; }
    for (u64 a : { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 }) { u64 x = 1, b = a, e = d; while (e) { if (e & 1) x = mulm(x, b, n); b = mulm(b, b, n); e >>= 1; }
        if (x == 1 || x == n - 1) continue; bool ok = false; for (int i = 1; i < s && !ok; i++) { x = mulm(x, x, n); if (x == n - 1) ok = true; } if (!ok) return false; }
    return true;
}
template<class T> void prime_case(i64 v, Ctx &ctx) {
    if (v < 2 || (!isz<T>() && Z(v) > Z((std::numeric_limits<T>::max)()))) return;
    T p = conv<T>(0, v); bool want = mr_prime((u64) v), got;
    try { got = parmcb::primes<T>::is_prime(p); } catch (std::exception *e) { PBT_FAIL("is_prime(" << v << ") throws: " << e->what()); } catch (std::exception &e) { PBT_FAIL("is_prime(" << v << ") throws: " << e.what()); }
    PBT_REQUIRE(got == want, "is_prime(" << v << ") = " << got << ", but it is " << (want ? "prime" : "composite"));
    ctx.nontrivial = true; ctx.label(want ? "is_prime: prime" : "is_prime: composite");
}
static i64 trial_cost_ok(i64 v, i64 lim) { for (i64 d = 2; d <= lim; d++) { if (d * d > v) return 1; if (v % d == 0) return 1; } return 0; }

// histories on sparse F_p vectors
static const int R = 4;
template<class P> void vec_case(const Case &c, Ctx &ctx) {
    typedef parmcb::SpVecFP<P> V; typedef std::map<std::size_t, Z> M;
    P p = conv<P>(c.get("ph"), c.get("pl")); Z ZP(p);
    std::vector<V> v(R, V(p)); std::vector<M> m(R); std::size_t k = 0; bool wrap = false;
    auto red = [&](Z z) { z %= ZP; if (z < 0) z += ZP; return z; };
    auto addm = [&](const M &a, const M &b) { M r(a); for (auto &x : b) { Z s = (r.count(x.first) ? r[x.first] : Z(0)) + x.second; if (s >= ZP) wrap = true; r[x.first] = red(s); if (r[x.first] == 0) r.erase(x.first); } return r; };
    auto same = [&](const V &x, const M &w, const std::string &what) {
        std::ostringstream a, b; std::size_t cnt = 0; long last = -1; bool ord = true;
        for (auto it = x.begin(); it != x.end(); ++it) { a << boost::get<0>(*it) << ":" << boost::get<1>(*it) << " "; cnt++; }
        (void) last; (void) ord;
        for (auto &y : w) b << y.first << ":" << y.second << " ";
        PBT_REQUIRE(a.str() == b.str(), what << " after op #" << k << " (p=" << ZP << ") holds {" << a.str() << "}, dense computation has {" << b.str() << "}");
        PBT_REQUIRE(x.size() == w.size(), what << ": size() = " << x.size() << ", expected " << w.size());
        PBT_REQUIRE(Z(x.prime()) == ZP, what << ": prime() = " << x.prime() << ", expected " << ZP);
    };
    for (auto &op : c.ops) {
        if (op.size() < 6) continue; k++;
        int code = (int) op[0], a = (int) op[1], b = (int) op[2], d = (int) op[3]; P s = conv<P>(op[4], op[5]); Z ZS(s);
        switch (code) {
        case 0: { std::size_t ix = (std::size_t) (op[5] & 0xffff) % (std::size_t) c.get("univ", 8); if (op[4] & 1) ix += (std::size_t) 1 << 40; v[a] = ix; m[a] = M { { ix, red(1) } }; break; }
        case 1: v[d] = v[a] + v[b]; m[d] = addm(m[a], m[b]); break;
        case 2: v[a] += v[b]; m[a] = addm(m[a], m[b]); break;
        case 3: { v[a] *= s; M r; for (auto &x : m[a]) { Z z = red(x.second * ZS); if (x.second * ZS >= ZP) wrap = true; if (z != 0) r[x.first] = z; } m[a] = r; break; }
        case 4: { v[d] = v[a] * s; M r; for (auto &x : m[a]) { Z z = red(x.second * ZS); if (z != 0) r[x.first] = z; } m[d] = r; break; }
        case 5: { V t(v[b]); same(t, m[b], "copy"); v[a] = t; m[a] = m[b]; break; }
        case 6: { V t(v[b]), u(std::move(t)); same(u, m[b], "move-constructed vector"); v[a] = std::move(u); m[a] = m[b]; break; }
        case 7: { V &r = v[a]; v[a] = r; break; }
        case 8: v[a].clear(); m[a].clear(); break;
        case 9: { V &r = v[a]; m[a] = addm(m[a], m[a]); v[a] += r; break; }
        }
        Z dot = 0; for (auto &x : m[a]) if (m[b].count(x.first)) { dot += x.second * m[b][x.first]; if (dot >= ZP) wrap = true; } dot = red(dot);
        PBT_REQUIRE(Z(v[a] * v[b]) == dot, "dot product of registers " << a << " and " << b << " after op #" << k << " (p=" << ZP << ") is " << v[a] * v[b] << ", expected " << dot);
        for (int i = 0; i < R; i++) same(v[i], m[i], "register " + std::to_string(i));
    }
    ctx.nontrivial = wrap; ctx.evals = c.ops.size();
}
struct T : Check {
    T() { batch = 512; cpu_limit = 20; }
    static i64 edge_int(Rng &r, i64 mx) {     // interesting integers in [-mx, mx]
        i64 v; switch (r.below(8)) {
        case 0: v = r.range(-3, 3); break; case 1: v = r.range(-20, 20); break; case 2: v = r.range(-1000, 1000); break; case 3: v = mx - r.range(0, 3); break;
        case 4: v = -(mx - r.range(0, 3)) - (i64) r.below(2); break; case 5: { static const i64 fib[] = { 1, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 987, 1597, 46368, 75025, 1836311903 }; v = fib[r.below(17)]; if (r.chance(1, 3)) v = -v; break; }
        case 6: { v = 1; int t = (int) r.range(1, 6); for (int i = 0; i < t; i++) { static const i64 q[] = { 2, 3, 4, 6, 7, 12, 30, 60 }; i64 f = q[r.below(8)]; if (v <= mx / f) v *= f; } if (r.chance(1, 3)) v = -v; break; }
        default: v = r.range(-(mx / 2), mx / 2) + r.range(-(mx / 2), mx / 2); }
        if (v < -mx - 1) v = -mx - 1; if (v > mx) v = mx; return v;
    }
    Case gen(Rng &r, u64 idx) override {
        Case c; int kind = (int) r.weighted( { 35, 20, 15, 30 }); int type = (int) r.weighted( { 40, 25, 25, 10 });   // int, long, cpp_int, other
        c.p["kind"] = kind; c.p["type"] = type;
        i64 mx = type == 0 ? INT32_MAX : type == 3 ? 32767 : INT64_MAX; if (type == 3 && kind >= 2) mx = INT32_MAX;
        if (kind == 0 || kind == 1) {
            int cnt = (int) r.range(1, 30);
            if (kind == 0 && idx % 7 == 0) { // dense small block
                i64 a = (i64) (idx / 7 % 81) - 40; for (i64 b = -40; b <= 40; b++) c.ops.push_back( { 0, a, 0, b }); return c; }
            for (int i = 0; i < cnt; i++) {
                i64 a = edge_int(r, mx), b = edge_int(r, mx), ah = 0, bh = 0;
                if (kind == 1) { if (b == INT64_MIN) b = INT64_MAX; b = std::llabs(b); if (b > mx) b = mx; }
                if (type == 2 && r.chance(1, 3)) { ah = edge_int(r, (i64) 1 << 40); bh = kind == 1 ? std::llabs(edge_int(r, (i64) 1 << 40)) : edge_int(r, (i64) 1 << 40); }
                if (r.chance(1, 8)) a = 0; if (kind == 0 && r.chance(1, 8)) b = 0;
                if (r.chance(1, 10) && b != 0 && b > -1000 && b < 1000 && a > -100000 && a < 100000) a = a * b;
                c.ops.push_back( { ah, a, bh, b });
            }
        } else if (kind == 2) {
            i64 base; int cnt = 40, sub = (int) r.below(6); if (type == 3) mx = UINT32_MAX;
            if (sub == 0) base = 2 + (i64) (idx % 20000) * 40; else if (sub == 1) { i64 q = r.range(2, type == 1 ? 1000000 : 46340); base = std::max<i64>(2, q * q - 20); }
            else if (sub == 2) base = mx == INT64_MAX ? INT64_MAX - 2000 + r.range(0, 1900) : mx - 45 - r.range(0, 1000); else if (sub == 3) base = r.range(2, 100000);
            else base = r.range(2, type == 2 ? 20000000 : type == 0 ? INT32_MAX - 50 : type == 3 ? (i64) UINT32_MAX - 50 : 1000000000000LL);
            if (type == 2) cnt = 8; if (type == 2 && base > 50000000) base %= 50000000; if (base > 1000000000) cnt = 10; if (base < 2) base = 2;
            for (int i = 0; i <= cnt; i++) if (base <= INT64_MAX - cnt) { i64 v = base + i; if (trial_cost_ok(v, 1000000)) c.ops.push_back( { v }); }
        } else {
            static const i64 small[] = { 2, 3, 5, 7, 11, 13, 17, 101, 251, 32749, 46337, 46349, 65521, 65537, 1000003, 1073741789, 2147483629, 2147483647 };
            static const i64 large[] = { 4294967291LL, 3037000493LL, 3037000507LL, 1000000000039LL, 2305843009213693951LL, 9223372036854775783LL };
            i64 p = small[r.below(18)], ph = 0; if ((type == 1 || type == 2) && r.chance(1, 2)) p = large[r.below(6)];
            if (type == 2 && r.chance(1, 3)) { ph = ((i64) 1 << 27); p = -1; }      // 2^89 - 1
            c.p["pl"] = p; c.p["ph"] = ph; c.p["univ"] = r.range(1, 12);
            int len = (int) r.range(1, 40);
            for (int i = 0; i < len; i++) {
                i64 s = edge_int(r, mx == 32767 ? INT32_MAX : mx), sh = 0; if (type == 2 && r.chance(1, 3)) sh = edge_int(r, (i64) 1 << 50);
                if (r.chance(1, 6) && ph == 0) { s = p * r.range(0, 1); if (r.chance(1, 2)) s = p - 1; if (r.chance(1, 4)) s = -s; }
                c.ops.push_back( { (i64) r.weighted( { 22, 20, 18, 18, 8, 3, 3, 1, 1, 4 }), (i64) r.below(R), (i64) r.below(R), (i64) r.below(R), sh, s });
            }
        }
        return c;
    }
    bool valid(const Case &c) override {
        for (auto &o : c.ops) { std::size_t need = c.get("kind") == 2 ? 1 : c.get("kind") == 3 ? 6 : 4; if (o.size() != need) return false;
            if (c.get("kind") == 3) for (int j = 1; j < 4; j++) if (o[j] < 0 || o[j] >= R) return false;
            if (c.get("kind") == 2 && !trial_cost_ok(o[0], 1000000)) return false; }
        return true;
    }
    void run(const Case &c, Ctx &ctx) override {
        int kind = (int) c.get("kind"), type = (int) c.get("type");
        static const char *kn[] = { "ext_gcd", "get_mult_inverse", "is_prime", "SpVecFP" }; ctx.label(kn[kind]);
        ctx.evals = c.ops.size();
        for (auto &o : c.ops) switch (kind) {
        case 0: switch (type) { case 0: gcd_case<int>(o[0], o[1], o[2], o[3], ctx); break; case 1: gcd_case<long>(o[0], o[1], o[2], o[3], ctx); break; case 2: gcd_case<Z>(o[0], o[1], o[2], o[3], ctx); break; default: gcd_case<short>(o[0], o[1], o[2], o[3], ctx); } break;
        case 1: switch (type) { case 0: inv_case<int>(o[0], o[1], o[2], o[3], ctx); break; case 1: inv_case<long>(o[0], o[1], o[2], o[3], ctx); break; case 2: inv_case<Z>(o[0], o[1], o[2], o[3], ctx); break; default: inv_case<long long>(o[0], o[1], o[2], o[3], ctx); } break;
        case 2: switch (type) { case 0: prime_case<int>(o[0], ctx); break; case 1: prime_case<long>(o[0], ctx); break; case 2: prime_case<Z>(o[0], ctx); break; default: prime_case<unsigned>(o[0], ctx); } break;
        }
        if (kind == 3) switch (type) { case 0: vec_case<int>(c, ctx); break; case 1: vec_case<long>(c, ctx); break; case 2: vec_case<Z>(c, ctx); break; default: vec_case<long long>(c, ctx); }
    }
};
int main(int argc, char **argv) { T ck; return pbt::main(argc, argv, ck, "C18"); }
