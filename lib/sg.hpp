// A graph whose vertex index map has a state of its own: reading through a copy that is gone is a use of dead storage
// that AddressSanitizer can see (the index map of adjacency_list<vecS, vecS> is an empty class). Include before the library.
#pragma once
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/property_map/property_map.hpp>

namespace sg {
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> Plain;
struct Graph : Plain { Graph() {} explicit Graph(std::size_t n) : Plain(n) {} };
struct IndexMap {
    typedef std::size_t value_type; typedef value_type reference; typedef std::size_t key_type; typedef boost::readable_property_map_tag category;
    std::size_t mul = 1, add = 0;
    value_type operator[](key_type v) const { return v * mul + add; }
};
inline std::size_t get(const IndexMap &m, std::size_t v) { return m[v]; }
} // namespace sg
namespace boost {
template<> struct property_map<sg::Graph, vertex_index_t> { typedef sg::IndexMap type; typedef sg::IndexMap const_type; };
template<> struct property_map<sg::Graph, edge_weight_t> : property_map<sg::Plain, edge_weight_t> {};
inline sg::IndexMap get(vertex_index_t, const sg::Graph&) { return sg::IndexMap(); }
inline sg::IndexMap get(vertex_index_t, sg::Graph&) { return sg::IndexMap(); }
inline std::size_t get(vertex_index_t, const sg::Graph &g, std::size_t v) { (void) g; return v; }
} // namespace boost
