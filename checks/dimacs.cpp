// C10: DIMACS reader and graph validators.
#include "../lib/inst.hpp"
#include <parmcb/config.hpp>
#include <parmcb/parmcb.hpp>
#include <parmcb/util.hpp>
using namespace pbt; using namespace gr;

typedef boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> GListE;
typedef boost::adjacency_list<boost::multisetS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, i64>> GMultiset;
// text grammar: c.text is the file; c.n / c.e / p["bad"] describe what it denotes.
// Weights are kept as text: the denoted weight of line i is strtod of its third field.
struct Line { int kind; i64 u, v; double w; };     // 0 ignored, 1 problem, 2 edge
static bool denote(const std::string &text, int &n, std::vector<std::tuple<i64, i64, double>> &edges, bool &bad) {
    n = -1; bad = false; edges.clear(); std::istringstream in(text); std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == 'c' || line[0] == '#') continue;
        if (line.find_first_not_of(" \t") == std::string::npos) continue;
        std::istringstream s(line); std::string k; s >> k;
        if (k == "p") { std::string f; unsigned long nn, mm; if (n >= 0 || !(s >> f >> nn >> mm) || nn > 200000) return false; n = (int) nn; }
        else if (k == "e" || k == "a") {
            std::string a, b, w, x; if (!(s >> a >> b)) return false; s >> w; if (s >> x) return false;
            auto isnum = [](const std::string &t) { std::size_t i = t[0] == '-' ? 1 : 0; return t.size() > i && t.find_first_not_of("0123456789", i) == std::string::npos; };
            if (!isnum(a) || !isnum(b)) return false;
            double wt = 1; if (!w.empty()) { char *e; wt = strtod(w.c_str(), &e); if (*e) return false; if (w.find_first_not_of("0123456789.eE+-") != std::string::npos) return false; }
            auto vtx = [&](const std::string &t) -> i64 { if (t[0] == '-') return -1; std::size_t z = std::min(t.find_first_not_of('0'), t.size() - 1); if (t.size() - z > 18) return -1; i64 x = std::stoll(t.substr(z)); return x >= 1 && x <= n ? x : -1; };
            i64 u = vtx(a), v = vtx(b); if (u < 0 || v < 0) { bad = true; return true; }
            edges.emplace_back(u - 1, v - 1, wt);
        } else return false;
    }
    return true;
}
static FILE *open_text(const std::string &t, bool tmp) {
    if (!tmp && !t.empty()) return fmemopen((void*) t.data(), t.size(), "r");
    FILE *f = tmpfile(); if (fwrite(t.data(), 1, t.size(), f) != t.size()) { perror("tmpfile"); exit(3); } rewind(f); return f;
}
template<class G> void reader(const Case &c, Ctx &ctx) {
    int n; std::vector<std::tuple<i64, i64, double>> ed; bool bad; if (!denote(c.text, n, ed, bad)) return;
    G g; FILE *f = open_text(c.text, c.get("tmp")); bool thrown = false; std::string what;
    try { parmcb::read_dimacs_from_file(f, g); } catch (std::exception &e) { thrown = true; what = e.what(); } catch (...) { thrown = true; what = "?"; }
    fclose(f);
    if (bad) { PBT_REQUIRE(thrown, "an edge line names an undeclared vertex but no error is raised"); ctx.label("undeclared vertex"); ctx.nontrivial = true; return; }
    PBT_REQUIRE(!thrown, "a valid file is rejected: " << what);
    if (n < 0) n = 0;
    PBT_REQUIRE((int) boost::num_vertices(g) == n, "graph has " << boost::num_vertices(g) << " vertices, the problem line declares " << n);
    PBT_REQUIRE(boost::num_edges(g) == ed.size(), "graph has " << boost::num_edges(g) << " edges, the file has " << ed.size() << " edge lines");
    std::size_t i = 0; auto wm = boost::get(boost::edge_weight, g);
    for (auto er = boost::edges(g); er.first != er.second; ++er.first, ++i) {
        i64 u = (i64) boost::source(*er.first, g), v = (i64) boost::target(*er.first, g), a = std::get<0>(ed[i]), b = std::get<1>(ed[i]);
        PBT_REQUIRE((u == a && v == b) || (u == b && v == a), "edge #" << i << " joins " << u + 1 << " and " << v + 1 << ", the file says " << a + 1 << " and " << b + 1);
        double w = (double) boost::get(wm, *er.first), x = std::get<2>(ed[i]);
        PBT_REQUIRE(w == x, "edge #" << i << " (" << a + 1 << "-" << b + 1 << ") has weight " << w << ", the file says " << x);
    }
    ctx.nontrivial = ed.size() >= 2;
    if (!c.text.empty() && c.text.back() != '\n') ctx.label("no final newline");
    if (c.text.find("\n#") != std::string::npos || c.text.find("\nc") != std::string::npos || (!c.text.empty() && (c.text[0] == 'c' || c.text[0] == '#'))) ctx.label("with comments");
    std::istringstream in(c.text); std::string l; while (std::getline(in, l)) if (l.size() > 1000) { ctx.label("line longer than 1000"); break; }
}
template<class G> void validators(const Case &c, Ctx &ctx) {
    G g(c.n); auto wm = boost::get(boost::edge_weight, g); typedef typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type W;
    for (auto &x : c.e) { auto r = boost::add_edge(x.u, x.v, g); boost::put(wm, r.first, (W) (std::is_floating_point<W>::value ? std::ldexp((double) x.w, -c.shift) : (double) x.w)); }
    bool loops = false, multi = false, np = false; std::set<std::pair<int, int>> s;
    for (auto &x : c.e) { if (x.u == x.v) loops = true; if (!s.insert(std::minmax(x.u, x.v)).second) multi = true; if (x.w <= 0) np = true; }
    PBT_REQUIRE(parmcb::has_loops(g) == loops, "has_loops = " << !loops << ", expected " << loops);
    PBT_REQUIRE(parmcb::has_multiple_edges(g) == multi, "has_multiple_edges = " << !multi << ", expected " << multi);
    PBT_REQUIRE(parmcb::has_non_positive_weights(g, wm) == np, "has_non_positive_weights = " << !np << ", expected " << np);
    ctx.nontrivial = loops || multi || np; ctx.label(std::string("validators: ") + (loops ? "loop " : "") + (multi ? "multi " : "") + (np ? "nonpositive" : "") + (!loops && !multi && !np ? "clean" : ""));
}
struct T : Check {
    T() { batch = 512; shrink_params = { { "tmp", 0 } }; }
    static std::string wtext(Rng &r) {
        char b[64];
        switch (r.below(10)) {
        case 0: snprintf(b, sizeof b, "%d", (int) r.range(1, 9)); break; case 1: snprintf(b, sizeof b, "%.2f", r.range(1, 99999) / 100.0); break;
        case 2: snprintf(b, sizeof b, "%.17g", r.range(1, 1 << 30) / 977.0); break; case 3: snprintf(b, sizeof b, "%lld", (long long) r.range(1, (i64) 1 << 50)); break;
        case 4: snprintf(b, sizeof b, "%de%d", (int) r.range(1, 99), (int) r.range(-8, 8)); break; case 5: snprintf(b, sizeof b, "-%d", (int) r.range(1, 9)); break;
        case 6: snprintf(b, sizeof b, "0"); break; case 7: snprintf(b, sizeof b, ".%d", (int) r.range(1, 99)); break; case 8: snprintf(b, sizeof b, "%d.", (int) r.range(1, 99)); break;
        default: if (r.chance(1, 2)) snprintf(b, sizeof b, "%d.%dE%+d", (int) r.range(1, 9), (int) r.range(0, 99), (int) r.range(-5, 5)); else if (r.chance(1, 2)) snprintf(b, sizeof b, "%.17ge%d", r.range(1, 1 << 30) / 977.0, (int) r.range(-300, 290)); else { std::string z(r.range(1, 3), '0'); snprintf(b, sizeof b, "%s%d", z.c_str(), (int) r.range(1, 99)); } }
        return b;
    }
    static std::string comment(Rng &r) {
        std::string s = r.chance(1, 2) ? "c" : "#"; int len = r.chance(1, 12) ? (int) r.range(900, 3000) : r.chance(1, 20) ? (int) r.range(1018, 1028) : (int) r.range(0, 40);
        static const std::string al = "e 1 2 3 a 1 1 p x 9 9 #c-.\tzw";
        int mode = (int) r.below(3); for (int i = 0; i < len; i++) s += mode == 0 ? al[r.below(al.size())] : mode == 1 ? "e 1 1 5 "[i % 8] : (char) r.range(32, 126);
        if (r.chance(1, 2) && len) s[1] = ' '; return s;
    }
    // many vertices, few edges: pairs that are close to being equal (equal sums, products, low bits, swapped digits) but are not
    static void big(Rng &r, Case &c) {
        c.n = r.chance(1, 5) ? (int) r.range(65530, 140000) : (int) r.range(200, 5000); c.e.clear(); std::set<std::pair<int, int>> s;
        auto add = [&](i64 u, i64 v) { if (u == v || u < 0 || v < 0 || u >= c.n || v >= c.n || !s.insert(std::minmax((int) u, (int) v)).second) return; c.e.push_back(E { (int) u, (int) v, r.range(1, 9) }); };
        if (r.chance(1, 3)) { int h = (int) r.below(c.n), k = (int) r.range(10, 300); for (int i = 0; i < k; i++) add(h, (i64) r.below(c.n)); }
        int k = (int) r.range(3, 40);
        for (int i = 0; i < k; i++) {
            i64 u = (i64) r.below(c.n), v = (i64) r.below(c.n); add(u, v); static const i64 ds[] = { 1, 2, 7, 10, 16, 31, 64, 97, 100, 128, 256, 512, 1000, 1024, 4096, 10000, 32768, 65536, 100000 }; i64 d = ds[r.below(19)];
            if (c.n > 65530 && r.chance(1, 2)) { d = 65536; u = (i64) r.below(200); v = c.n - 1 - (i64) r.below(200); add(u, v); }
            switch (r.below(5)) { case 0: add(u + 1, v - d); break; case 1: add(u - 1, v + d); break; case 2: add(u, v + d); break; case 3: add(u + d, v - d); break; default: add(u + d, v + d); }
        }
    }
    Case gen(Rng &r, u64) override {
        Case c; c.p["mode"] = r.chance(1, 3); c.p["g"] = r.below(3); c.p["tmp"] = r.chance(1, 3);
        if (c.p["mode"] == 1) {
            if (r.chance(1, 40)) big(r, c); else graph(r, c, (int) r.range(1, 20), true);
            int k = (int) r.below(4); c.p["g"] = r.below(5);
            for (int i = 0; i < k && c.n; i++) switch (r.below(4)) {
            case 0: { int v = (int) r.below(c.n); c.e.push_back(E { v, v, 1 }); break; }
            case 1: if (!c.e.empty()) { E x = c.e[r.below(c.e.size())]; if (r.chance(1, 2)) std::swap(x.u, x.v); c.e.push_back(x); } break;
            case 2: if (!c.e.empty()) c.e[r.below(c.e.size())].w = 0; break;
            default: if (!c.e.empty()) c.e[r.below(c.e.size())].w = -r.range(1, 5); }
            if (r.chance(1, 2)) r.shuffle(c.e); if (c.p["g"] != 1 && c.p["g"] != 4 && r.chance(1, 3)) c.shift = r.chance(1, 2) ? (int) r.range(1, 10) : r.chance(1, 8) ? -(int) r.range(1, 900) : (int) r.range(10, 1070);
            return c;
        }
        Case h; if (r.chance(1, 60)) big(r, h); else graph(r, h, (int) r.range(1, 14), true); std::ostringstream o; int n = h.n;
        auto nl = [&]() { return "\n"; }; auto cm = [&](int num, int den) { while (r.chance(num, den)) { o << comment(r) << nl(); } };
        bool wide = r.chance(1, 40);             // long lines that are not comments: wide gaps, many digits
        auto sp = [&]() { return wide && r.chance(1, 6) ? std::string((std::size_t) (r.chance(1, 2) ? r.range(2, 300) : r.range(1000, 2100)), ' ') : std::string(r.chance(1, 8) ? "  " : r.chance(1, 12) ? "\t" : " "); };
        auto pad = [&]() { return wide && r.chance(1, 6) ? std::string((std::size_t) r.range(1, 400), '0') : std::string(r.chance(1, 100) ? "0" : ""); };
        cm(1, 3); static const char *fmt[] = { "edge", "col", "sp", "edges", "x" };
        if (r.chance(1, 60)) { if (r.chance(1, 3)) o << "e 1 2" << nl(); c.text = o.str(); return c; }
        o << "p" << sp() << fmt[r.below(5)] << sp() << n << sp() << (r.chance(1, 10) ? (int) r.below(50) : (int) h.e.size()); o << nl();
        bool badline = r.chance(1, 7); int badat = (int) r.below(h.e.size() + 1), style = (int) r.below(3);
        if (r.chance(1, 5)) for (int i = 0; i < 2 && n; i++) { h.e.push_back(E { (int) r.below(n), (int) r.below(n), 1 }); }
        for (int i = 0; i <= (int) h.e.size(); i++) {
            cm(1, 8); if (r.chance(1, 25)) o << (r.chance(1, 2) ? "" : " ") << nl();
            if (badline && i == badat) {
                static const char *bv[] = { "0", "-1", "4294967297", "4294967298", "8589934593", "18446744073709551617", "2147483648", "99999999999999999999" };
                std::string b = r.chance(1, 2) ? std::to_string(n + (int) r.range(1, 3)) : std::string(bv[r.below(8)]); std::string ok = n ? std::to_string(1 + r.below(n)) : "1";
                if (n > 200 && r.chance(1, 2)) b = std::to_string((r.chance(1, 2) ? 65536 : r.chance(1, 2) ? 32768 : 256) * (i64) (n / 256 + 1) + (i64) r.range(1, n));
                if (r.chance(1, 2)) o << "e " << b << " " << ok; else o << "a " << ok << " " << b;
                if (r.chance(1, 2)) o << " " << wtext(r); o << nl();
            }
            if (i == (int) h.e.size()) break;
            o << (r.chance(1, 3) ? "a" : "e") << sp() << pad() << h.e[i].u + 1 << sp() << pad() << h.e[i].v + 1;
            if (style == 0 ? r.chance(1, 2) : style == 1) { o << sp() << wtext(r); if (wide && r.chance(1, 6)) o << sp(); }
            if (r.chance(1, 30)) o << " "; o << nl();
        }
        cm(1, 6); c.text = o.str(); if (r.chance(2, 5) && !c.text.empty()) c.text.pop_back();
        return c;
    }
    bool valid(const Case &c) override {
        for (auto &x : c.e) if (x.u < 0 || x.v < 0 || x.u >= c.n || x.v >= c.n) return false;
        int n; std::vector<std::tuple<i64, i64, double>> ed; bool bad; return c.get("mode") == 1 || denote(c.text, n, ed, bad);
    }
    void run(const Case &c, Ctx &ctx) override {
        if (c.get("mode") == 1) { switch (c.get("g")) { case 1: validators<GInt>(c, ctx); break; case 3: validators<GListE>(c, ctx); break; case 4: validators<GMultiset>(c, ctx); break; default: validators<GDouble>(c, ctx); } }
        else { reader<GDouble>(c, ctx); }
    }
};
int main(int argc, char **argv) { T ck; return pbt::main(argc, argv, ck, "C10"); }
