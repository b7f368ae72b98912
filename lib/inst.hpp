// Boost graph instances of cases, translation of emitted edge descriptors to edge ids.
#pragma once
#include "graphs.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/property_map/property_map.hpp>
#include <cmath>

namespace gr {
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property,
        boost::property<boost::edge_weight_t, double>> GDouble;
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property,
        boost::property<boost::edge_weight_t, int>> GInt;
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property,
        boost::property<boost::edge_weight_t, float>> GFloat;
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property,
        boost::property<boost::edge_weight_t, unsigned>> GUnsigned;
typedef boost::adjacency_list<boost::setS, boost::vecS, boost::undirectedS, boost::no_property,
        boost::property<boost::edge_weight_t, double>> GSet;

typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property,
        boost::property<boost::edge_weight_t, long long>> GLong;

// Output iterator with a position of its own (copies advance independently, as those into an array do), or appending.
template<class C> struct PosOut {
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    C *l; std::size_t pos; bool append;
    PosOut& operator*() { return *this; } PosOut& operator++() { pos++; return *this; } PosOut operator++(int) { PosOut o = *this; pos++; return o; }
    PosOut& operator=(const typename C::value_type &x) {
        if (append) { l->push_back(x); return *this; }
        while (l->size() <= pos) l->emplace_back();
        *std::next(l->begin(), (std::ptrdiff_t) pos) = x; return *this; }
};
template<class C> PosOut<C> sink(C &l, bool append) { return PosOut<C> { &l, 0, append }; }

// W_: type of the weights; differs from that of the interior property only with an external map
template<class G, class W_ = typename boost::property_traits<typename boost::property_map<G, boost::edge_weight_t>::type>::value_type> struct Inst {
    typedef G Graph; typedef W_ W;
    typedef typename boost::graph_traits<G>::edge_descriptor Edge;
    typedef typename boost::property_map<G, boost::edge_weight_t>::type WMap;
    typedef typename boost::property_traits<WMap>::value_type WI;
    typedef std::list<std::list<Edge>> Cycles;
    typedef boost::associative_property_map<std::map<Edge, W>> ExtMap;
    const Case &c; G g; std::vector<Edge> ed; std::unordered_map<const void*, int> id; WMap wm;
    std::map<Edge, W> ext; ExtMap xm;      // external weight map; with use_ext the interior property holds other (positive) numbers
    bool ex;
    Inst(const Inst&) = delete;
    // staged: the edges of the graph with its vertices rotated, until stage(f) is called
    explicit Inst(const Case &cc, bool use_ext = false, bool staged = false) : c(cc), g(cc.n), wm(boost::get(boost::edge_weight, g)), xm(ext), ex(use_ext) {
        if (!staged) { add(c.e.size()); return; }
        for (auto &x : c.e) { Edge e = boost::add_edge((x.u + 1) % c.n, (x.v + 1) % c.n, g).first; W w = real(x.w); boost::put(wm, e, ex ? (WI) 1 : (WI) w); if (ex) ext[e] = w; }
    }
    // The same graph object had a history: f ran on it with other edges (as many), with half of the edges and with other weights.
    template<class F> void stage(F f) {
        f(); boost::remove_edge_if([](const Edge&) { return true; }, g); ext.clear();
        add(c.e.size() / 2); f(); add(c.e.size());
        for (std::size_t i = 0; i < ed.size(); i++) set(i, (W) (1 + (i * 5 + (std::size_t) c.e[i].w) % 7));
        f();
        for (std::size_t i = 0; i < ed.size(); i++) set(i, real(c.e[i].w));
    }
    void set(std::size_t i, W w) { if (ex) ext[ed[i]] = w; else boost::put(wm, ed[i], (WI) w); }
    void add(std::size_t upto) {
        for (std::size_t i = ed.size(); i < upto; i++) {
            auto &x = c.e[i];
            Edge e = boost::add_edge(x.u, x.v, g).first;
            boost::put(wm, e, ex ? (WI) (1 + (ed.size() * 7 + (std::size_t) x.w) % 11) : (WI) real(x.w)); if (ex) ext[e] = real(x.w);
            id[e.get_property()] = (int) ed.size(); ed.push_back(e);
        }
    }
    W real(i64 w) const { return std::is_floating_point<W>::value ? (W) std::ldexp((double) w, (int) -c.shift) : (W) w; }
    int edge_id(const Edge &e) const {
        auto it = id.find(e.get_property()); if (it == id.end()) return -1;
        const E &x = c.e[it->second];
        if (!((int) e.m_source == x.u && (int) e.m_target == x.v) && !((int) e.m_source == x.v && (int) e.m_target == x.u)) return -2;
        return it->second;
    }
    template<class CS> std::vector<std::vector<int>> ids(const CS &cycles) const {
        std::vector<std::vector<int>> r; int k = 0;
        for (auto &cy : cycles) {
            std::vector<int> v;
            for (auto &e : cy) { int i = edge_id(e);
                if (i == -1) PBT_FAIL("cycle #" << k << " contains a descriptor that is not an edge of the input graph");
                if (i == -2) PBT_FAIL("cycle #" << k << " contains a descriptor whose endpoints are not those of its edge");
                v.push_back(i); }
            r.push_back(v); k++;
        }
        return r;
    }
    i64 weight_of(const std::vector<std::vector<int>> &cs) const { i64 s = 0; for (auto &v : cs) for (int i : v) s += c.e[i].w; return s; }
    std::vector<i64> weights_of(const std::vector<std::vector<int>> &cs) const {
        std::vector<i64> r; for (auto &v : cs) { i64 s = 0; for (int i : v) s += c.e[i].w; r.push_back(s); } std::sort(r.begin(), r.end()); return r; }
};
inline std::string show(const std::vector<i64> &v) { std::ostringstream o; o << "["; for (std::size_t i = 0; i < v.size() && i < 40; i++) o << (i ? " " : "") << v[i]; o << "]"; return o.str(); }
} // namespace gr
