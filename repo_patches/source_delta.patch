From 0ddf1debea4d0b07dcbb3d3e31bedae3c560f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 01/21] fix: ext_gcd sets both coefficients and the sign when
 an argument is zero, leaves its arguments alone, accepts the smallest
 built-in value

---
 include/parmcb/fp.hpp | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 5a51a18..e556777 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -13,14 +13,14 @@ class fp {
 
 public:
     // extended euclidean gcd algorithm
-    static T ext_gcd(T &a, T &b, T &x, T &y);
-    static T get_mult_inverse(T &a, T &p);
+    static T ext_gcd(const T &a, const T &b, T &x, T &y);
+    static T get_mult_inverse(const T &a, const T &p);
 
 };
 
 // extended euclidean gcd algorithm
 template<class T>
-T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
+T fp<T>::ext_gcd(const T &a, const T &b, T &x, T &y) {
 
     // initialize
     T _x[2], _y[2], _a[2], q;
@@ -33,33 +33,38 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     aneg = a < 0;
     bneg = b < 0;
 
-    a = (a < 0) ? -a : a;
-    b = (b < 0) ? -b : b;
     if (a == 0) {
+        x = 0;
         y = bneg ? -1 : 1;
-        return b;
+        return bneg ? T(-b) : b;
     }
     if (b == 0) {
-        x = bneg ? -1 : 1;
-        return a;
+        x = aneg ? -1 : 1;
+        y = 0;
+        return aneg ? T(-a) : a;
     }
 
+    // work on negated absolute values, as the absolute value of
+    // the smallest number of a built-in type might overflow
+    const T na = aneg ? a : T(-a);
+    const T nb = bneg ? b : T(-b);
+
     // swap arguments appropriately
-    _a[0] = a;
-    _a[1] = b;
+    _a[0] = na;
+    _a[1] = nb;
     bool swap = false;
-    if (b > a) {
-        _a[0] = b;
-        _a[1] = a;
+    if (nb < na) {
+        _a[0] = nb;
+        _a[1] = na;
         swap = true;
     }
 
     // do the work
     std::size_t i = 0;
     while (true) {
-        q = _a[i] / _a[1 - i];
-        if (_a[i] % _a[1 - i] == 0)
+        if (_a[1 - i] == -1 || _a[i] % _a[1 - i] == 0)
             break;
+        q = _a[i] / _a[1 - i];
         _a[i] = _a[i] % _a[1 - i];
         _x[i] = _x[i] - q * _x[1 - i];
         _y[i] = _y[i] - q * _y[1 - i];
@@ -76,15 +81,15 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     }
 
 #ifdef PARMCB_INVARIANTS_CHECK
-    assert(_a[1 - i] == ((aneg) ? (-a) : (a)) * x + ((bneg) ? (-b) : (b)) * y);
+    assert(_a[1 - i] == -1 || (a % _a[1 - i] == 0 && b % _a[1 - i] == 0));
 #endif
 
-    return _a[1 - i];
+    return T(-_a[1 - i]);
 }
 
 // compute multiplication inverse of an element
 template<class T>
-T fp<T>::get_mult_inverse(T &a, T &p) {
+T fp<T>::get_mult_inverse(const T &a, const T &p) {
 #ifdef PARMCB_INVARIANTS_CHECK
     if ( p <= 0 )
         throw new std::runtime_error("p is not positive");
-- 
2.43.0


From 9b2a82fd99a7d41c7742d0d15e13891a6edf15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 02/21] fix: is_prime accepts 2 and does not overflow on primes
 close to the largest value of the type

---
 include/parmcb/fp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index e556777..47435f8 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -115,11 +115,11 @@ public:
          assert( p >= t );
  #endif
         if (p % 2 == 0)
-            return false;
+            return p == t;
         T zero = T(0);
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
-         if ( sqrtt * sqrtt < p )
+         if ( sqrtt < p / sqrtt )
              throw new std::runtime_error("error calculating square");
 #endif
         while (t <= sqrtt) {
-- 
2.43.0


From 504b5b13c48e8e45c662fe264ac5275e6fb23ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 03/21] fix: fp.hpp throws its exceptions by value

---
 include/parmcb/fp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 47435f8..433f977 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -92,12 +92,12 @@ template<class T>
 T fp<T>::get_mult_inverse(const T &a, const T &p) {
 #ifdef PARMCB_INVARIANTS_CHECK
     if ( p <= 0 )
-        throw new std::runtime_error("p is not positive");
+        throw std::runtime_error("p is not positive");
 #endif
 
     T x, y;
     if (fp<T>::ext_gcd(a, p, x, y) != 1) {
-        throw new std::runtime_error("mult inverse does not exist");
+        throw std::runtime_error("mult inverse does not exist");
     }
     return x;
 }
@@ -120,7 +120,7 @@ public:
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
          if ( sqrtt < p / sqrtt )
-             throw new std::runtime_error("error calculating square");
+             throw std::runtime_error("error calculating square");
 #endif
         while (t <= sqrtt) {
             if (p % t == zero)
-- 
2.43.0


From 03bfd8c27b3c39e89bd13d6ae4a70baf26bde24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 04/21] fix: SpVecFP arithmetic does not overflow built-in
 types

---
 include/parmcb/spvecfp.hpp | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/parmcb/spvecfp.hpp b/include/parmcb/spvecfp.hpp
index 68072b3..377f534 100644
--- a/include/parmcb/spvecfp.hpp
+++ b/include/parmcb/spvecfp.hpp
@@ -10,12 +10,39 @@
 #include <set>
 #include <iostream>
 #include <cassert>
+#include <limits>
 
 #include <boost/tuple/tuple.hpp>
 #include <boost/serialization/vector.hpp>
 
 namespace parmcb {
 
+namespace detail {
+
+// x + y modulo p without overflow, given 0 <= x, y < p
+template<typename P>
+P add_mod(const P &x, const P &y, const P &p) {
+    return x < p - y ? P(x + y) : P(x - (p - y));
+}
+
+// x * y modulo p without overflow, given 0 <= x, y < p
+template<typename P>
+P mul_mod(P x, P y, const P &p) {
+    if (!std::numeric_limits<P>::is_bounded || y == 0 || x <= (std::numeric_limits<P>::max)() / y) {
+        return (x * y) % p;
+    }
+    P res = 0;
+    while (y > 0) {
+        if (y % 2 == 1)
+            res = add_mod(res, x, p);
+        x = add_mod(x, x, p);
+        y /= 2;
+    }
+    return res;
+}
+
+} // detail
+
 template<typename P>
 class SpVecFP {
 
@@ -90,8 +117,8 @@ public:
             } else if (index < v_index) {
                 it++;
             } else {
-                P v = (boost::get<1>(entry) * boost::get<1>(v_entry)) % p;
-                res = (res + v) % p;
+                P v = detail::mul_mod<P>(boost::get<1>(entry), boost::get<1>(v_entry), p);
+                res = detail::add_mod<P>(res, v, p);
                 it++;
                 v_it++;
             }
@@ -121,7 +148,7 @@ public:
                 res.entries.push_back(boost::make_tuple(index, value));
                 it++;
             } else {
-                P v = (value + v_value) % p;
+                P v = detail::add_mod<P>(value, v_value, p);
                 while (v < 0)
                     v += p;   // make [-i]_p = [p-i]_p
                 while (v >= p)
@@ -160,13 +187,16 @@ public:
 
     SpVecFP<P> operator*(const P &a) const {
         SpVecFP<P> res(p);
+        P factor = a % p;
+        if (factor < 0)
+            factor += p;
         auto it = entries.begin(), it_e = entries.end();
         while (it != it_e) {
             entry_type entry = *it;
             std::size_t index = boost::get<0>(entry);
             P value = boost::get<1>(entry);
 
-            P v = (value * a) % p;
+            P v = detail::mul_mod<P>(value, factor, p);
             while (v < 0)
                 v += p;   // make [-i]_p = [p-i]_p
             while (v >= p)
-- 
2.43.0


From 94aa28375f9047cb3a85b61c926e9db32369caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 05/21] fix: SpVecGF2::add does not dereference the end
 iterator in its assertion

---
 include/parmcb/spvecgf2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index f6bdbef..0cb4046 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -147,7 +147,7 @@ namespace parmcb {
         }
 
         void add(U pos) {
-            assert(ones.empty() || pos >= *(ones.end()));
+            assert(ones.empty() || pos > ones.back());
 
             ones.push_back(pos);
         }
-- 
2.43.0


From a5c9f07a56d280e45fe1e0e5b6b77a92b277c4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 06/21] fix: has_multiple_edges does not count a single
 self-loop as a repeated pair

---
 include/parmcb/util.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index a569267..4ea6fc4 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -44,16 +44,26 @@ namespace parmcb {
     template<class Graph>
     bool has_multiple_edges(const Graph &g) {
         typedef typename boost::graph_traits<Graph>::vertex_descriptor Vertex;
+        typedef typename boost::graph_traits<Graph>::edge_descriptor Edge;
 
         auto vRange = boost::vertices(g);
         for (auto vit = vRange.first; vit != vRange.second; ++vit) {
             auto v = *vit;
             std::set<Vertex> neighbors;
+            std::set<Edge> loops;
 
             auto eRange = boost::out_edges(v, g);
             for (auto eit = eRange.first; eit != eRange.second; ++eit) {
                 auto e = *eit;
                 auto u = boost::opposite(e, v, g);
+                if (u == v) {
+                    // a loop might be listed once for each of its endpoints
+                    loops.insert(e);
+                    if (loops.size() > 1) {
+                        return true;
+                    }
+                    continue;
+                }
                 if (!neighbors.insert(u).second) {
                     return true;
                 }
-- 
2.43.0


From b2d06d4a7917ae0a0528deabd4470e7dc34557f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 07/21] fix: read_dimacs_from_file keeps the last character of
 an unterminated line and does not split long lines

---
 include/parmcb/util.hpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 4ea6fc4..7081a2f 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstdio>
+#include <string>
 #include <vector>
 #include <set>
 #include <map>
@@ -116,24 +118,42 @@ namespace parmcb {
         });
     }
 
+    namespace detail {
+
+        // read a whole line of any length, without its newline
+        inline bool read_line(FILE *fp, std::string &line) {
+            char buffer[BUFFER_SIZE];
+            line.clear();
+            while (fgets(buffer, sizeof(buffer), fp) != NULL) {
+                line += buffer;
+                if (!line.empty() && line.back() == '\n') {
+                    line.pop_back(); // eat the newline
+                    return true;
+                }
+            }
+            return !line.empty();
+        }
+
+    } // detail
+
     template<class Graph>
     void read_dimacs_from_file(FILE *fp, Graph &graph) {
         typedef typename boost::graph_traits<Graph>::vertex_descriptor vertex_descriptor;
         typedef typename boost::graph_traits<Graph>::edge_descriptor edge_descriptor;
 
-        char buffer[BUFFER_SIZE], problem[BUFFER_SIZE];
+        std::string line;
 
-        std::size_t nnodes, nedges;
+        std::size_t nnodes = 0, nedges = 0;
         std::map<std::size_t, vertex_descriptor> vertex_map;
 
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
-        while (fgets(buffer, sizeof(buffer), fp) != NULL) {
-            buffer[strlen(buffer) - 1] = '\0'; // eat the newline
+        while (detail::read_line(fp, line)) {
+            const char *buffer = line.c_str();
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
             } else if (buffer[0] == 'p') {
-                sscanf(buffer, "p %s %lu %lu", problem, &nnodes, &nedges);
+                sscanf(buffer, "p %*s %lu %lu", &nnodes, &nedges);
                 for (std::size_t i = 1; i <= nnodes; i++) {
                     vertex_map[i] = boost::add_vertex(graph);
                 }
-- 
2.43.0


From 5b7e2d3ecad629228c512d1b1941b39af5059ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 08/21] fix: read_dimacs_from_file rejects vertex numbers which
 do not fit into an int or are missing

---
 include/parmcb/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 7081a2f..7839b87 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -158,10 +158,10 @@ namespace parmcb {
                     vertex_map[i] = boost::add_vertex(graph);
                 }
             } else if (buffer[0] == 'a' || buffer[0] == 'e') {
-                int rs, rt;
+                long rs = 0, rt = 0;
                 double rw = 1;
                 char fc;
-                sscanf(buffer, "%c %d %d %lf", &fc, &rs, &rt, &rw);
+                sscanf(buffer, "%c %ld %ld %lf", &fc, &rs, &rt, &rw);
 
                 if (vertex_map.find(rs) == vertex_map.end()) {
                     throw std::system_error(EIO, std::generic_category(), "Vertex not found");
-- 
2.43.0


From d56f1029e1775205974eaffe36cd450123c9d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 09/21] fix: approximate algorithms emit spanner cycles as
 edges of the input graph and with the input weights

---
 include/parmcb/detail/approx_spanner.hpp        | 15 ++++++++++++++-
 include/parmcb/parmcb_approx_sva_signed.hpp     |  7 +++++--
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp |  7 +++++--
 include/parmcb/parmcb_approx_sva_trees.hpp      | 14 ++++++++++----
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  | 14 ++++++++++----
 5 files changed, 44 insertions(+), 13 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 3988cec..84fc081 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -278,7 +278,18 @@ public:
         EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
                 _spanner);
         ExactAlgorithm exact_mcb_algo;
-        _weight += exact_mcb_algo(_spanner, spanner_weight_map, out);
+        std::list<std::list<Edge>> spanner_cycles;
+        _weight += exact_mcb_algo(_spanner, spanner_weight_map,
+                std::back_inserter(spanner_cycles));
+
+        // output spanner cycles using the edges of the input graph
+        for (const auto &spanner_cycle : spanner_cycles) {
+            std::list<Edge> cycle_edgelist;
+            for (const auto &spanner_e : spanner_cycle) {
+                cycle_edgelist.push_back(_edge_spanner_to_g.at(spanner_e));
+            }
+            *out++ = cycle_edgelist;
+        }
 
         // compute remaining cycles
         parmcb::detail::NonSpannerEdgesCycleBuilder<Graph, WeightMap,
@@ -351,6 +362,8 @@ private:
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
+                boost::put(boost::edge_weight, _spanner, spanner_e,
+                        boost::get(_weight_map, e));
                 _edge_spanner_to_g[spanner_e] = e;
             } else {
                 // record missing edge from spanner
diff --git a/include/parmcb/parmcb_approx_sva_signed.hpp b/include/parmcb/parmcb_approx_sva_signed.hpp
index 2efae66..1fc5572 100644
--- a/include/parmcb/parmcb_approx_sva_signed.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed.hpp
@@ -15,8 +15,11 @@ namespace detail {
 
 template<class Graph, class WeightMap, class CycleOutputIterator>
 struct mcb_sva_signed {
-    typename boost::property_traits<WeightMap>::value_type operator()(
-            const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
+    // used on the spanner which has its own weight map and output
+    template<class SpannerWeightMap, class SpannerCycleOutputIterator>
+    typename boost::property_traits<SpannerWeightMap>::value_type operator()(
+            const Graph &g, const SpannerWeightMap &weight,
+            SpannerCycleOutputIterator out) {
         return parmcb::mcb_sva_signed(g, weight, out);
     }
 };
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 19d81b8..81b8003 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -15,8 +15,11 @@ namespace detail {
 
 template<class Graph, class WeightMap, class CycleOutputIterator>
 struct mcb_sva_signed_tbb {
-    typename boost::property_traits<WeightMap>::value_type operator()(
-            const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
+    // used on the spanner which has its own weight map and output
+    template<class SpannerWeightMap, class SpannerCycleOutputIterator>
+    typename boost::property_traits<SpannerWeightMap>::value_type operator()(
+            const Graph &g, const SpannerWeightMap &weight,
+            SpannerCycleOutputIterator out) {
         return parmcb::mcb_sva_signed_tbb(g, weight, out);
     }
 };
diff --git a/include/parmcb/parmcb_approx_sva_trees.hpp b/include/parmcb/parmcb_approx_sva_trees.hpp
index b916eac..85ff641 100644
--- a/include/parmcb/parmcb_approx_sva_trees.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees.hpp
@@ -15,16 +15,22 @@ namespace detail {
 
 template<class Graph, class WeightMap, class CycleOutputIterator>
 struct mcb_sva_fvs_trees{
-    typename boost::property_traits<WeightMap>::value_type operator()(
-            const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
+    // used on the spanner which has its own weight map and output
+    template<class SpannerWeightMap, class SpannerCycleOutputIterator>
+    typename boost::property_traits<SpannerWeightMap>::value_type operator()(
+            const Graph &g, const SpannerWeightMap &weight,
+            SpannerCycleOutputIterator out) {
         return parmcb::mcb_sva_fvs_trees(g, weight, out);
     }
 };
 
 template<class Graph, class WeightMap, class CycleOutputIterator>
 struct mcb_sva_iso_trees{
-    typename boost::property_traits<WeightMap>::value_type operator()(
-            const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
+    // used on the spanner which has its own weight map and output
+    template<class SpannerWeightMap, class SpannerCycleOutputIterator>
+    typename boost::property_traits<SpannerWeightMap>::value_type operator()(
+            const Graph &g, const SpannerWeightMap &weight,
+            SpannerCycleOutputIterator out) {
         return parmcb::mcb_sva_iso_trees(g, weight, out);
     }
 };
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 5abe2ae..3f49f33 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -15,16 +15,22 @@ namespace detail {
 
 template<class Graph, class WeightMap, class CycleOutputIterator>
 struct mcb_sva_fvs_trees_tbb{
-    typename boost::property_traits<WeightMap>::value_type operator()(
-            const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
+    // used on the spanner which has its own weight map and output
+    template<class SpannerWeightMap, class SpannerCycleOutputIterator>
+    typename boost::property_traits<SpannerWeightMap>::value_type operator()(
+            const Graph &g, const SpannerWeightMap &weight,
+            SpannerCycleOutputIterator out) {
         return parmcb::mcb_sva_fvs_trees_tbb(g, weight, out);
     }
 };
 
 template<class Graph, class WeightMap, class CycleOutputIterator>
 struct mcb_sva_iso_trees_tbb{
-    typename boost::property_traits<WeightMap>::value_type operator()(
-            const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
+    // used on the spanner which has its own weight map and output
+    template<class SpannerWeightMap, class SpannerCycleOutputIterator>
+    typename boost::property_traits<SpannerWeightMap>::value_type operator()(
+            const Graph &g, const SpannerWeightMap &weight,
+            SpannerCycleOutputIterator out) {
         return parmcb::mcb_sva_iso_trees_tbb(g, weight, out);
     }
 };
-- 
2.43.0


From 369785303811650e5a217c2a0c8e5faefeef570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 10/21] fix: the hop limit of the spanner does not wrap around
 for huge k

---
 include/parmcb/detail/approx_spanner.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 84fc081..da62f41 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -10,6 +10,7 @@
 #include <parmcb/detail/bfs.hpp>
 
 #include <functional>
+#include <limits>
 #include <numeric>
 
 #ifdef PARMCB_HAVE_TBB
@@ -343,6 +344,12 @@ private:
             _vertex_g_to_spanner[v] = spanner_v;
         }
 
+        // hop limit, avoid wrap around for huge k
+        const std::size_t max_k = (std::numeric_limits<std::size_t>::max)() / 2;
+        const std::size_t max_hops =
+                _k > max_k ? (std::numeric_limits<std::size_t>::max)() :
+                        2 * _k - 1;
+
         // construct edge set of spanner
         EdgeVectorIt ei, ei_end;
         for (ei = sorted_edges.begin(), ei_end = sorted_edges.end();
@@ -358,7 +365,7 @@ private:
             }
 
             if (!parmcb::is_bfs_reachable(_spanner, spanner_v, spanner_u,
-                    2 * _k - 1)) {
+                    max_hops)) {
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
-- 
2.43.0


From 260735d0e141b2d5be9f7cfb10155bbcd7a00721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 11/21] fix: the isometric cycles builder keeps all candidates
 when rounding makes the shortest path trees inconsistent

---
 include/parmcb/detail/cycles.hpp | 50 ++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/include/parmcb/detail/cycles.hpp b/include/parmcb/detail/cycles.hpp
index 8e3e5d3..3f877db 100644
--- a/include/parmcb/detail/cycles.hpp
+++ b/include/parmcb/detail/cycles.hpp
@@ -111,6 +111,16 @@ namespace parmcb {
                     allcycles.insert(allcycles.end(), tree_cycles.begin(), tree_cycles.end());
                 }
 
+                /*
+                 * The linking below relies on mutually consistent trees. Rounding errors of inexact
+                 * weights may break near-ties differently in different trees. In such a case keep all
+                 * of Horton's candidate cycles.
+                 */
+                if (!trees_are_consistent(g, index_map, trees, trees_index_map)) {
+                    cycles.insert(cycles.end(), allcycles.begin(), allcycles.end());
+                    return;
+                }
+
                 /*
                  * Create graph with candidate cycles
                  */
@@ -236,6 +246,46 @@ namespace parmcb {
                     }
                 }
             }
+
+        private:
+            /*
+             * Whether every tree path is the reverse of the tree path in the opposite direction and
+             * every sub-path of a tree path is also a tree path.
+             */
+            template<class IndexMap>
+            bool trees_are_consistent(const Graph &g, const IndexMap &index_map,
+                    std::vector<parmcb::SPTree<Graph, WeightMap>> &trees,
+                    const std::vector<std::size_t> &trees_index_map) {
+                typedef typename boost::graph_traits<Graph>::vertex_iterator VertexIt;
+
+                for (auto &tree_x : trees) {
+                    VertexIt vi, viend;
+                    for (boost::tie(vi, viend) = boost::vertices(g); vi != viend; ++vi) {
+                        auto v = *vi;
+                        auto node_v = tree_x.node(v);
+                        if (node_v == nullptr || !node_v->has_pred()) {
+                            continue;
+                        }
+                        auto parent = boost::opposite(node_v->pred(), v, g);
+
+                        // leave v through the edge by which x reaches v
+                        auto &tree_v = trees[trees_index_map[index_map[v]]];
+                        if (tree_v.first(tree_x.source()) != parent) {
+                            return false;
+                        }
+
+                        // the rest of the path, after the first edge, is also a tree path
+                        auto first = tree_x.first(v);
+                        if (first != v) {
+                            auto node_first_v = trees[trees_index_map[index_map[first]]].node(v);
+                            if (boost::opposite(node_first_v->pred(), v, g) != parent) {
+                                return false;
+                            }
+                        }
+                    }
+                }
+                return true;
+            }
         };
 
     } // detail
-- 
2.43.0


From 5f24a7b3830353e07feaf65e5f9535bca26946c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 12/21] fix: set_global_tbb_concurrency keeps its limit in
 force after it returns and is inline

---
 include/parmcb/util.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 7839b87..d21b4c3 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -7,6 +7,7 @@
 //          https://www.boost.org/LICENSE_1_0.txt)
 
 #include <cstdio>
+#include <memory>
 #include <string>
 #include <vector>
 #include <set>
@@ -179,11 +180,17 @@ namespace parmcb {
     }
 
 #ifdef PARMCB_HAVE_TBB
-    void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+    inline void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+        // the limit is in force as long as the control object is alive
 #if TBB_VERSION_MAJOR > 2020
-    	oneapi::tbb::global_control global_limit(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint);
+        static std::unique_ptr<oneapi::tbb::global_control> global_limit;
+        global_limit.reset();
+        global_limit.reset(new oneapi::tbb::global_control(oneapi::tbb::global_control::max_allowed_parallelism,
+                hardware_concurrency_hint));
 #else
-    	tbb::task_scheduler_init init(hardware_concurrency_hint);
+        static std::unique_ptr<tbb::task_scheduler_init> global_limit;
+        global_limit.reset();
+        global_limit.reset(new tbb::task_scheduler_init(hardware_concurrency_hint));
 #endif
     }
 #endif
-- 
2.43.0


From 54e7ed264561f52b1a40e073c18e432bc088484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 13/21] fix: the --cores option of the demos does not depend on
 --verbose

---
 src/approx-mcb-dimacs.cpp | 6 ++++--
 src/mcb-dimacs.cpp        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index 34b6ab1..c4934ba 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -112,8 +112,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index f2df810..47f4ad5 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -101,8 +101,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
-- 
2.43.0


From c1174dc6097803059f1a55f2fc524ef52a2bcbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:42 +0000
Subject: [PATCH 14/21] fix: make the stream output operator of a header inline

Including the header from two translation units failed to link.
---
 include/parmcb/detail/signed_dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/detail/signed_dijkstra.hpp b/include/parmcb/detail/signed_dijkstra.hpp
index 6bf6180..99ef151 100644
--- a/include/parmcb/detail/signed_dijkstra.hpp
+++ b/include/parmcb/detail/signed_dijkstra.hpp
@@ -22,7 +22,7 @@
 
 namespace std {
 
-    std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
+    inline std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
         out << v.first << (v.second ? "+" : "-");
         return out;
     }
-- 
2.43.0


From d83322e181c8dd8fa2668dea32dd50a05fe14eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 15/21] fix: include what the headers use

fp.hpp and mpi/sptrees.hpp did not compile when they were the only header
included, other headers relied on declarations that Boost headers happen to
provide.
---
 include/parmcb/detail/approx_spanner.hpp  | 9 +++++++++
 include/parmcb/detail/bfs.hpp             | 4 ++++
 include/parmcb/detail/cycles.hpp          | 4 ++++
 include/parmcb/detail/dijkstra.hpp        | 4 ++++
 include/parmcb/detail/fvs.hpp             | 4 ++++
 include/parmcb/detail/lex_dijkstra.hpp    | 6 ++++++
 include/parmcb/detail/signed_dijkstra.hpp | 7 +++++++
 include/parmcb/detail/spanning_forest.hpp | 2 ++
 include/parmcb/detail/util.hpp            | 1 +
 include/parmcb/forestindex.hpp            | 1 +
 include/parmcb/fp.hpp                     | 6 ++++++
 include/parmcb/mpi/parmcb_sva_signed.hpp  | 6 ++++++
 include/parmcb/mpi/parmcb_sva_trees.hpp   | 4 ++++
 include/parmcb/mpi/sptrees.hpp            | 4 ++++
 include/parmcb/parmcb_sva_signed.hpp      | 4 ++++
 include/parmcb/parmcb_sva_signed_tbb.hpp  | 4 ++++
 include/parmcb/parmcb_sva_trees.hpp       | 3 +++
 include/parmcb/sptrees.hpp                | 7 ++++++-
 include/parmcb/spvecgf2.hpp               | 2 ++
 include/parmcb/util.hpp                   | 4 ++++
 20 files changed, 85 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index da62f41..7e2adfb 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -9,9 +9,18 @@
 #include <parmcb/detail/dijkstra.hpp>
 #include <parmcb/detail/bfs.hpp>
 
+#include <algorithm>
 #include <functional>
+#include <iostream>
+#include <iterator>
 #include <limits>
+#include <list>
+#include <map>
 #include <numeric>
+#include <stdexcept>
+#include <tuple>
+#include <type_traits>
+#include <vector>
 
 #ifdef PARMCB_HAVE_TBB
 #include <tbb/parallel_for.h>
diff --git a/include/parmcb/detail/bfs.hpp b/include/parmcb/detail/bfs.hpp
index 3ec2bdb..82ba18e 100644
--- a/include/parmcb/detail/bfs.hpp
+++ b/include/parmcb/detail/bfs.hpp
@@ -6,8 +6,12 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <functional>
 #include <iostream>
+#include <limits>
 #include <queue>
+#include <tuple>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/cycles.hpp b/include/parmcb/detail/cycles.hpp
index 3f877db..c745c19 100644
--- a/include/parmcb/detail/cycles.hpp
+++ b/include/parmcb/detail/cycles.hpp
@@ -6,8 +6,12 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstddef>
 #include <iostream>
+#include <iterator>
 #include <map>
+#include <memory>
+#include <vector>
 #include <parmcb/util.hpp>
 #include <parmcb/sptrees.hpp>
 #include <parmcb/detail/fvs.hpp>
diff --git a/include/parmcb/detail/dijkstra.hpp b/include/parmcb/detail/dijkstra.hpp
index 2f04d9c..d1b011f 100644
--- a/include/parmcb/detail/dijkstra.hpp
+++ b/include/parmcb/detail/dijkstra.hpp
@@ -6,7 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <functional>
 #include <iostream>
+#include <limits>
+#include <tuple>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/fvs.hpp b/include/parmcb/detail/fvs.hpp
index 0969d0f..96136bd 100644
--- a/include/parmcb/detail/fvs.hpp
+++ b/include/parmcb/detail/fvs.hpp
@@ -6,7 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstddef>
+#include <deque>
 #include <iostream>
+#include <map>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/lex_dijkstra.hpp b/include/parmcb/detail/lex_dijkstra.hpp
index 5f5f543..56d32dd 100644
--- a/include/parmcb/detail/lex_dijkstra.hpp
+++ b/include/parmcb/detail/lex_dijkstra.hpp
@@ -6,7 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
 #include <iostream>
+#include <iterator>
+#include <limits>
+#include <set>
+#include <tuple>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/signed_dijkstra.hpp b/include/parmcb/detail/signed_dijkstra.hpp
index 99ef151..926be2c 100644
--- a/include/parmcb/detail/signed_dijkstra.hpp
+++ b/include/parmcb/detail/signed_dijkstra.hpp
@@ -6,7 +6,14 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cassert>
+#include <functional>
 #include <iostream>
+#include <limits>
+#include <set>
+#include <tuple>
+#include <utility>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/spanning_forest.hpp b/include/parmcb/detail/spanning_forest.hpp
index 56281dd..723dac8 100644
--- a/include/parmcb/detail/spanning_forest.hpp
+++ b/include/parmcb/detail/spanning_forest.hpp
@@ -9,6 +9,8 @@
 #include <map>
 #include <queue>
 #include <set>
+#include <unordered_set>
+#include <vector>
 
 #include <boost/graph/adjacency_list.hpp>
 
diff --git a/include/parmcb/detail/util.hpp b/include/parmcb/detail/util.hpp
index 67711f4..26b8ece 100644
--- a/include/parmcb/detail/util.hpp
+++ b/include/parmcb/detail/util.hpp
@@ -6,6 +6,7 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <limits>
 #include <vector>
 #include <set>
 #include <map>
diff --git a/include/parmcb/forestindex.hpp b/include/parmcb/forestindex.hpp
index 18f9655..69b8629 100644
--- a/include/parmcb/forestindex.hpp
+++ b/include/parmcb/forestindex.hpp
@@ -6,6 +6,7 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <iterator>
 #include <vector>
 #include <map>
 #include <queue>
diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 433f977..ca822b2 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -6,6 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cassert>
+#include <cmath>
+#include <cstddef>
+#include <stdexcept>
+
 namespace parmcb {
 
 template<class T>
@@ -117,6 +122,7 @@ public:
         if (p % 2 == 0)
             return p == t;
         T zero = T(0);
+        using std::sqrt;
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
          if ( sqrtt < p / sqrtt )
diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 2f25179..dbcec3d 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -6,12 +6,18 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <cassert>
+#include <cmath>
 #include <cstddef>
 #include <functional>
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <list>
+#include <map>
 #include <set>
+#include <tuple>
 #include <vector>
 
 #include <boost/graph/graph_traits.hpp>
diff --git a/include/parmcb/mpi/parmcb_sva_trees.hpp b/include/parmcb/mpi/parmcb_sva_trees.hpp
index e3762f8..fa60ca5 100644
--- a/include/parmcb/mpi/parmcb_sva_trees.hpp
+++ b/include/parmcb/mpi/parmcb_sva_trees.hpp
@@ -15,12 +15,16 @@
 #include <boost/mpi/collectives.hpp>
 #include <boost/mpi/timer.hpp>
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <list>
+#include <map>
 #include <set>
+#include <tuple>
 #include <vector>
 #include <cmath>
 
diff --git a/include/parmcb/mpi/sptrees.hpp b/include/parmcb/mpi/sptrees.hpp
index 96e85bf..07748af 100644
--- a/include/parmcb/mpi/sptrees.hpp
+++ b/include/parmcb/mpi/sptrees.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <boost/mpi/datatype.hpp>
+#include <boost/mpi/operations.hpp>
+#include <boost/mpl/bool.hpp>
+
 #include <parmcb/sptrees.hpp>
 
 namespace boost {
diff --git a/include/parmcb/parmcb_sva_signed.hpp b/include/parmcb/parmcb_sva_signed.hpp
index 67a37b8..936e82f 100644
--- a/include/parmcb/parmcb_sva_signed.hpp
+++ b/include/parmcb/parmcb_sva_signed.hpp
@@ -11,12 +11,16 @@
 #include <boost/tuple/detail/tuple_basic.hpp>
 #include <boost/timer/timer.hpp>
 
+#include <algorithm>
+#include <cassert>
 #include <cstddef>
 #include <functional>
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <list>
 #include <set>
+#include <tuple>
 #include <vector>
 
 #include <parmcb/config.hpp>
diff --git a/include/parmcb/parmcb_sva_signed_tbb.hpp b/include/parmcb/parmcb_sva_signed_tbb.hpp
index 5132ad6..013ea36 100644
--- a/include/parmcb/parmcb_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_sva_signed_tbb.hpp
@@ -6,12 +6,16 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <list>
+#include <map>
 #include <set>
+#include <tuple>
 #include <vector>
 
 #include <boost/graph/graph_traits.hpp>
diff --git a/include/parmcb/parmcb_sva_trees.hpp b/include/parmcb/parmcb_sva_trees.hpp
index ed19dfd..1d3cecd 100644
--- a/include/parmcb/parmcb_sva_trees.hpp
+++ b/include/parmcb/parmcb_sva_trees.hpp
@@ -11,12 +11,15 @@
 #include <boost/tuple/detail/tuple_basic.hpp>
 #include <boost/timer/timer.hpp>
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <iostream>
 #include <iterator>
 #include <limits>
+#include <list>
 #include <set>
+#include <tuple>
 #include <vector>
 
 #include <parmcb/config.hpp>
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 788f7ea..093d1b7 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -24,9 +24,14 @@
 #include <parmcb/forestindex.hpp>
 #include <parmcb/spvecgf2.hpp>
 
+#include <functional>
+#include <limits>
 #include <memory>
+#include <set>
 #include <stack>
-#include <functional>
+#include <tuple>
+#include <type_traits>
+#include <vector>
 
 #ifdef PARMCB_HAVE_TBB
 #include <tbb/parallel_for.h>
diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index 0cb4046..47ce151 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <iterator>
 #include <vector>
 #include <set>
 #include <iostream>
diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index d21b4c3..09d6b26 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -6,9 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <cerrno>
 #include <cstdio>
+#include <list>
 #include <memory>
 #include <string>
+#include <system_error>
 #include <vector>
 #include <set>
 #include <map>
-- 
2.43.0


From 30595e1c1be1c3d0863477d899e864052ae394b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:43 +0000
Subject: [PATCH 16/21] fix: compile the headers without TBB or MPI

Several headers, parmcb.hpp among them, used TBB without checking whether it is
enabled; the MPI headers needed MPI and TBB even if these were not enabled.
---
 include/parmcb/detail/approx_spanner.hpp        |  2 ++
 include/parmcb/mpi/parmcb_sva_signed.hpp        |  7 ++++++-
 include/parmcb/mpi/parmcb_sva_trees.hpp         | 11 ++++++++++-
 include/parmcb/mpi/sptrees.hpp                  |  6 ++++++
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp |  6 ++++++
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  |  6 ++++++
 include/parmcb/parmcb_sva_signed_tbb.hpp        |  9 ++++++---
 include/parmcb/parmcb_sva_trees.hpp             |  4 ++++
 include/parmcb/sptrees.hpp                      |  2 ++
 9 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 7e2adfb..84e7883 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -139,6 +139,7 @@ private:
         return total_weight;
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class CycleOutputIterator, bool is_tbb_enabled = ParallelUsingTBB>
     WeightType construct_cycles_for_non_spanner_edges(CycleOutputIterator out,
             typename std::enable_if<is_tbb_enabled>::type* = 0) {
@@ -235,6 +236,7 @@ private:
 
         return total_weight;
     }
+#endif
 
     const Graph &_g;
     const WeightMap &_weight_map;
diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index dbcec3d..f113815 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#if defined(PARMCB_HAVE_MPI) && defined(PARMCB_HAVE_TBB)
+
 #include <algorithm>
 #include <cassert>
 #include <cmath>
@@ -33,7 +37,6 @@
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
 
-#include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
 #include <parmcb/mpi/sptrees.hpp>
 #include <parmcb/forestindex.hpp>
@@ -306,3 +309,5 @@ namespace parmcb {
 } // namespace parmcb
 
 #endif
+
+#endif
diff --git a/include/parmcb/mpi/parmcb_sva_trees.hpp b/include/parmcb/mpi/parmcb_sva_trees.hpp
index fa60ca5..49a618d 100644
--- a/include/parmcb/mpi/parmcb_sva_trees.hpp
+++ b/include/parmcb/mpi/parmcb_sva_trees.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_MPI
+
 #include <boost/graph/graph_traits.hpp>
 #include <boost/property_map/property_map.hpp>
 #include <boost/tuple/detail/tuple_basic.hpp>
@@ -28,7 +32,6 @@
 #include <vector>
 #include <cmath>
 
-#include <parmcb/config.hpp>
 #include <parmcb/forestindex.hpp>
 #include <parmcb/spvecgf2.hpp>
 #include <parmcb/detail/fvs.hpp>
@@ -225,12 +228,14 @@ namespace parmcb {
                 parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>, false>(g, weight_map, out, world);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_fvs_trees_tbb_mpi(const Graph &g,
             WeightMap weight_map, CycleOutputIterator out, boost::mpi::communicator &world) {
         return _mcb_sva_trees_mpi<Graph, WeightMap, CycleOutputIterator,
                 parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>, true>(g, weight_map, out, world);
     }
+#endif
 
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_mpi(const Graph &g, WeightMap weight_map,
@@ -239,13 +244,17 @@ namespace parmcb {
                 parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>, false>(g, weight_map, out, world);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_tbb_mpi(const Graph &g,
             WeightMap weight_map, CycleOutputIterator out, boost::mpi::communicator &world) {
         return _mcb_sva_trees_mpi<Graph, WeightMap, CycleOutputIterator,
                 parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>, true>(g, weight_map, out, world);
     }
+#endif
 
 } // namespace mcb
 
 #endif
+
+#endif
diff --git a/include/parmcb/mpi/sptrees.hpp b/include/parmcb/mpi/sptrees.hpp
index 07748af..2430dcf 100644
--- a/include/parmcb/mpi/sptrees.hpp
+++ b/include/parmcb/mpi/sptrees.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_MPI
+
 #include <boost/mpi/datatype.hpp>
 #include <boost/mpi/operations.hpp>
 #include <boost/mpl/bool.hpp>
@@ -28,3 +32,5 @@ namespace boost {
 }
 
 #endif
+
+#endif
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 81b8003..a7da04d 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_TBB
+
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_signed_tbb.hpp>
 
@@ -38,3 +42,5 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb
 } // parmcb
 
 #endif
+
+#endif
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 3f49f33..6e18f31 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_TBB
+
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_trees.hpp>
 
@@ -58,3 +62,5 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_
 } // parmcb
 
 #endif
+
+#endif
diff --git a/include/parmcb/parmcb_sva_signed_tbb.hpp b/include/parmcb/parmcb_sva_signed_tbb.hpp
index 013ea36..6647aa4 100644
--- a/include/parmcb/parmcb_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_sva_signed_tbb.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_TBB
+
 #include <algorithm>
 #include <cstddef>
 #include <functional>
@@ -23,14 +27,11 @@
 #include <boost/tuple/detail/tuple_basic.hpp>
 #include <boost/timer/timer.hpp>
 
-#ifdef PARMCB_HAVE_TBB
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
 #include <tbb/concurrent_vector.h>
 #include <tbb/task_group.h>
-#endif
 
-#include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
 #include <parmcb/forestindex.hpp>
 #include <parmcb/spvecgf2.hpp>
@@ -290,3 +291,5 @@ namespace parmcb {
 } // namespace parmcb
 
 #endif
+
+#endif
diff --git a/include/parmcb/parmcb_sva_trees.hpp b/include/parmcb/parmcb_sva_trees.hpp
index 1d3cecd..ac7cecb 100644
--- a/include/parmcb/parmcb_sva_trees.hpp
+++ b/include/parmcb/parmcb_sva_trees.hpp
@@ -141,12 +141,14 @@ namespace parmcb {
                 false>(g, weight_map, out);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_fvs_trees_tbb(const Graph &g, WeightMap weight_map,
             CycleOutputIterator out) {
         return _mcb_sva_trees<Graph, WeightMap, CycleOutputIterator, parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>,
                 true>(g, weight_map, out);
     }
+#endif
 
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees(const Graph &g, WeightMap weight_map,
@@ -155,12 +157,14 @@ namespace parmcb {
                 false>(g, weight_map, out);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_tbb(const Graph &g, WeightMap weight_map,
             CycleOutputIterator out) {
         return _mcb_sva_trees<Graph, WeightMap, CycleOutputIterator, parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>,
                 true>(g, weight_map, out);
     }
+#endif
 
 } // namespace parmcb
 
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 093d1b7..89a744f 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -629,6 +629,7 @@ namespace parmcb {
             return min;
         }
 
+#ifdef PARMCB_HAVE_TBB
         template<bool is_tbb_enabled = ParallelUsingTBB>
         std::tuple<std::set<Edge>, WeightType, bool> compute_shortest_odd_cycle(const std::set<Edge> &edges,
                 typename std::enable_if<is_tbb_enabled>::type* = 0) {
@@ -674,6 +675,7 @@ namespace parmcb {
                     },
                     cycle_min);
         }
+#endif
 
         const Graph &g;
         const WeightMap &weight_map;
-- 
2.43.0


From b55f77612251994692655cfaadbcfefb56f56db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 17/21] fix: reject bad input on every rank

The MPI demo checked the graph on rank 0 only. On a rejected graph rank 0
returned and the other ranks waited for it in a collective.
---
 src/mcb-dimacs-mpi.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mcb-dimacs-mpi.cpp b/src/mcb-dimacs-mpi.cpp
index 5925589..9938844 100644
--- a/src/mcb-dimacs-mpi.cpp
+++ b/src/mcb-dimacs-mpi.cpp
@@ -92,20 +92,27 @@ int main(int argc, char *argv[]) {
     parmcb::read_dimacs_from_file(fp, graph);
     fclose(fp);
 
-    if (world.rank() == 0) {
-        if (parmcb::has_loops(graph)) {
+    // all ranks read the same graph, hence either all of them or none abort
+    if (parmcb::has_loops(graph)) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has loops, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
-        if (parmcb::has_multiple_edges(graph)) {
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_multiple_edges(graph)) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has multiple edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
-        if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
+        return EXIT_FAILURE;
+    }
 
+    if (world.rank() == 0) {
         std::cout << "Graph has " << num_vertices(graph) << " vertices" << std::endl;
         std::cout << "Graph has " << num_edges(graph) << " edges" << std::endl;
         std::cout << std::flush;
-- 
2.43.0


From 75a16b4c23e7d3a25ba063eda354998b47548d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 18/21] fix: order the signed edges by index in the MPI signed
 algorithm

Every process splits the signed edges and hides the ones before its own, but
took the order from a set of edge descriptors, that is from addresses, which
differ between processes. The minimum odd cycle could be missed.
---
 include/parmcb/mpi/parmcb_sva_signed.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index f113815..1694f0d 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -100,13 +100,19 @@ namespace parmcb {
                  * Heuristic in case number of signed edges is small compared to the number of vertices.
                  */
                 std::map<Edge, std::set<Edge>> hidden_edges_per_edge;
-                std::vector<Edge> signed_edges_as_vector;
+                /*
+                 * The order must be the same in all processes. The order of a set of edges depends
+                 * on their addresses, so use the indices of the edges.
+                 */
+                std::vector<Edge> signed_edges_as_vector(signed_edges.begin(), signed_edges.end());
+                std::sort(signed_edges_as_vector.begin(), signed_edges_as_vector.end(),
+                        [&](const Edge &a, const Edge &b) {
+                            return forest_index(a) < forest_index(b);
+                        });
                 std::set<Edge> tmp_signed_edges = signed_edges;
-                while (!tmp_signed_edges.empty()) {
-                    auto bit = tmp_signed_edges.begin();
-                    hidden_edges_per_edge.insert(std::make_pair(*bit, tmp_signed_edges));
-                    signed_edges_as_vector.push_back(*bit);
-                    tmp_signed_edges.erase(bit);
+                for (const auto &se : signed_edges_as_vector) {
+                    hidden_edges_per_edge.insert(std::make_pair(se, tmp_signed_edges));
+                    tmp_signed_edges.erase(se);
                 }
 
                 std::vector<Edge> local_signed_edges_as_vector;
-- 
2.43.0


From b90d1df88147e5054b734b83109eaffe2543710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 19/21] fix: keep the vertex index map by value in trees and
 spanner

SPTree and BaseApproxSpannerAlgorithm kept a reference to the vertex index
map they were constructed with; the component builders and the approximate
algorithms pass a temporary, so the reference dangled.
---
 include/parmcb/detail/approx_spanner.hpp | 2 +-
 include/parmcb/sptrees.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 84e7883..dc27739 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -318,7 +318,7 @@ private:
     const Graph &_g;
     const WeightMap &_weight_map;
     const std::size_t _k;
-    const VertexIndexMapType &_index_map;
+    const VertexIndexMapType _index_map;
     std::vector<Vertex> _vertex_g_to_spanner_vec;
     const boost::function_property_map<
             parmcb::detail::VertexIndexFunctor<Graph, Vertex>, Vertex, Vertex&> _vertex_g_to_spanner;
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 89a744f..bfb3b8c 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -262,7 +262,7 @@ namespace parmcb {
         const std::size_t _id;
         const Graph &_g;
         const WeightMap &_weight_map;
-        const VertexIndexMapType &_index_map;
+        const VertexIndexMapType _index_map;
         const Vertex _source;
 
         /*
-- 
2.43.0


From 42e01c67fa36edb914e099a68ed560daa1239948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 20/21] fix: use the sequential algorithms when TBB is not
 available

---
 src/approx-mcb-dimacs.cpp | 9 ++++++---
 src/mcb-dimacs.cpp        | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index c4934ba..9697f6e 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -131,7 +131,8 @@ int main(int argc, char *argv[]) {
             std::cout << "Using APPROX_MCB_SVA_SIGNED_TBB" << std::endl;
             mcb_weight = parmcb::approx_mcb_sva_signed_tbb(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #else
-            std::cerr << "TBB not supported, bailing out." << std::endl;
+            std::cerr << "TBB not supported, using the sequential algorithm." << std::endl;
+            mcb_weight = parmcb::approx_mcb_sva_signed(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #endif
         } else {
             std::cout << "Using APPROX_MCB_SVA_SIGNED" << std::endl;
@@ -143,7 +144,8 @@ int main(int argc, char *argv[]) {
             std::cout << "Using APPROX_MCB_SVA_FVS_TREES_TBB" << std::endl;
             mcb_weight = parmcb::approx_mcb_sva_fvs_trees_tbb(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #else
-            std::cerr << "TBB not supported, bailing out." << std::endl;
+            std::cerr << "TBB not supported, using the sequential algorithm." << std::endl;
+            mcb_weight = parmcb::approx_mcb_sva_fvs_trees(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #endif
         } else {
             std::cout << "Using APPROX_MCB_SVA_FVS_TREES" << std::endl;
@@ -155,7 +157,8 @@ int main(int argc, char *argv[]) {
             std::cout << "Using APPROX_MCB_SVA_ISO_TREES_TBB" << std::endl;
                     mcb_weight = parmcb::approx_mcb_sva_iso_trees_tbb(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #else
-            std::cerr << "TBB not supported, bailing out." << std::endl;
+            std::cerr << "TBB not supported, using the sequential algorithm." << std::endl;
+            mcb_weight = parmcb::approx_mcb_sva_iso_trees(graph, get(boost::edge_weight, graph), k, std::back_inserter(cycles));
 #endif
         } else {
         std::cout << "Using APPROX_MCB_SVA_ISO_TREES" << std::endl;
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index 47f4ad5..09668e5 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -120,7 +120,8 @@ int main(int argc, char *argv[]) {
             std::cout << "Using MCB_SVA_SIGNED_TBB" << std::endl;
             mcb_weight = parmcb::mcb_sva_signed_tbb(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #else
-            std::cerr << "TBB not supported, bailing out." << std::endl;
+            std::cerr << "TBB not supported, using the sequential algorithm." << std::endl;
+            mcb_weight = parmcb::mcb_sva_signed(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #endif
         } else {
             std::cout << "Using MCB_SVA_SIGNED" << std::endl;
@@ -132,7 +133,8 @@ int main(int argc, char *argv[]) {
             std::cout << "Using MCB_SVA_FVS_TREES_TBB" << std::endl;
             mcb_weight = parmcb::mcb_sva_fvs_trees_tbb(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #else
-            std::cerr << "TBB not supported, bailing out." << std::endl;
+            std::cerr << "TBB not supported, using the sequential algorithm." << std::endl;
+            mcb_weight = parmcb::mcb_sva_fvs_trees(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #endif
         } else {
             std::cout << "Using MCB_SVA_FVS_TREES" << std::endl;
@@ -144,7 +146,8 @@ int main(int argc, char *argv[]) {
             std::cout << "Using MCB_SVA_ISO_TREES_TBB" << std::endl;
             mcb_weight = parmcb::mcb_sva_iso_trees_tbb(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #else
-            std::cerr << "TBB not supported, bailing out." << std::endl;
+            std::cerr << "TBB not supported, using the sequential algorithm." << std::endl;
+            mcb_weight = parmcb::mcb_sva_iso_trees(graph, get(boost::edge_weight, graph), std::back_inserter(cycles));
 #endif
         } else {
             std::cout << "Using MCB_SVA_ISO_TREES" << std::endl;
-- 
2.43.0


From da63f1c5c06b4aedecf0d6462734d2881e79308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 21/21] fix: the spanner keeps its weights in the type of the
 caller's weight map

---
 include/parmcb/detail/approx_spanner.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index dc27739..55a2cdd 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -40,7 +40,7 @@ public:
     typedef typename boost::graph_traits<Graph>::edge_descriptor Edge;
     typedef typename boost::property_map<Graph, boost::vertex_index_t>::type VertexIndexMapType;
     typedef typename boost::property_traits<WeightMap>::value_type WeightType;
-    typedef typename boost::property_map<Graph, boost::edge_weight_t>::type EdgeWeightMapType;
+    typedef boost::const_associative_property_map<std::map<Edge, WeightType>> EdgeWeightMapType;
 
     NonSpannerEdgesCycleBuilder(const Graph &g, const WeightMap &weight_map,
             const Graph &spanner, const VertexIndexMapType &spanner_index_map,
@@ -261,7 +261,7 @@ public:
     typedef typename boost::graph_traits<Graph>::edge_iterator EdgeIt;
     typedef typename std::vector<Edge>::iterator EdgeVectorIt;
     typedef typename boost::property_traits<WeightMap>::value_type WeightType;
-    typedef typename boost::property_map<Graph, boost::edge_weight_t>::type EdgeWeightMapType;
+    typedef boost::const_associative_property_map<std::map<Edge, WeightType>> EdgeWeightMapType;
 
     BaseApproxSpannerAlgorithm(const Graph &g, const WeightMap &weight_map, const VertexIndexMapType& index_map,
             std::size_t k) :
@@ -287,8 +287,7 @@ public:
 #endif
 
         // compute spanner MCB with exact algorithm
-        EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
-                _spanner);
+        EdgeWeightMapType spanner_weight_map(_spanner_weights);
         ExactAlgorithm exact_mcb_algo;
         std::list<std::list<Edge>> spanner_cycles;
         _weight += exact_mcb_algo(_spanner, spanner_weight_map,
@@ -328,6 +327,8 @@ private:
     Graph _spanner;
     VertexIndexMapType _spanner_index_map;
     std::map<Edge, Edge> _edge_spanner_to_g;
+    // the weights may not fit into the edge_weight property of the graph
+    std::map<Edge, WeightType> _spanner_weights;
 
     // mcb
     WeightType _weight;
@@ -380,8 +381,7 @@ private:
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
-                boost::put(boost::edge_weight, _spanner, spanner_e,
-                        boost::get(_weight_map, e));
+                _spanner_weights[spanner_e] = boost::get(_weight_map, e);
                 _edge_spanner_to_g[spanner_e] = e;
             } else {
                 // record missing edge from spanner
-- 
2.43.0

