From 914dcbc2acb157db17aef4e1b5226b3aabf18aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 01/83] fix: concurrent union-find loses unions

Linking a root updated the parent and the rank with two separate CAS operations
and took the first back when the second failed.  Two threads could in the
meantime build on the link that is taken back, so completed unions disappeared
and Union() reported a wrong number of merges.  Keep parent and rank in one word
and link with a single CAS.
---
 lib/parallel/data_structure/union_find.h | 60 +++++++++++++-----------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/lib/parallel/data_structure/union_find.h b/lib/parallel/data_structure/union_find.h
index 71080ae..8103065 100644
--- a/lib/parallel/data_structure/union_find.h
+++ b/lib/parallel/data_structure/union_find.h
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <utility>
 #include <vector>
 
@@ -22,10 +23,9 @@
 // This is sometimes also caled "disjoint sets datastructure.
 class union_find {
  public:
-    explicit union_find(unsigned n) : m_parent(n), m_rank(n) {
+    explicit union_find(unsigned n) : m_parent(n) {
         for (unsigned i = 0; i < m_parent.size(); i++) {
-            m_parent[i] = i;
-            m_rank[i] = 0;
+            m_parent[i] = Pack(i, 0);
         }
     }
 
@@ -42,15 +42,15 @@ class union_find {
                 return false;
             }
 
-            r_lhs = m_rank[lhs];
-            r_rhs = m_rank[rhs];
+            r_lhs = Rank(m_parent[lhs]);
+            r_rhs = Rank(m_parent[rhs]);
 
             if (r_lhs > r_rhs || (r_lhs == r_rhs && lhs > rhs)) {
                 std::swap(lhs, rhs);
                 std::swap(r_lhs, r_rhs);
             }
 
-            if (UpdateRoot(lhs, r_lhs, rhs, r_rhs))
+            if (UpdateRoot(lhs, r_lhs, rhs, r_lhs))
                 break;
         }
 
@@ -67,19 +67,21 @@ class union_find {
             y = Find(y);
             if (x == y)
                 return true;
-            if (m_parent[x] == x) {
+            if (Parent(m_parent[x]) == x) {
                 return false;
             }
         }
     }
 
     inline unsigned Find(unsigned element) {
-        while (m_parent[element] != element) {
-            unsigned next = m_parent[element];
+        uint64_t current = m_parent[element];
+        while (Parent(current) != element) {
+            unsigned next = Parent(m_parent[Parent(current)]);
             // CAS path halving
-            __sync_bool_compare_and_swap(&m_parent[element], next,
-                                         m_parent[next]);
-            element = m_parent[next];
+            __sync_bool_compare_and_swap(&m_parent[element], current,
+                                         Pack(next, Rank(current)));
+            element = next;
+            current = m_parent[element];
         }
         return element;
     }
@@ -87,7 +89,7 @@ class union_find {
     inline unsigned n() {
         std::vector<bool> found(m_parent.size(), false);
         unsigned n = 0;
-        for (auto& e : m_parent) {
+        for (unsigned e = 0; e < m_parent.size(); ++e) {
             if (!found[Find(e)]) {
                 ++n;
                 found[Find(e)] = true;
@@ -97,22 +99,26 @@ class union_find {
     }
 
  private:
-    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
-        unsigned old = x;
-        if (m_parent[old] != x || m_rank[old] != xr) {
-            return false;
-        }
+    static inline uint64_t Pack(unsigned parent, unsigned rank) {
+        return (static_cast<uint64_t>(rank) << 32) | parent;
+    }
 
-        if (__sync_bool_compare_and_swap(&m_parent[x], old, y)) {
-            if (__sync_bool_compare_and_swap(&m_rank[x], m_rank[old], yr)) {
-                return true;
-            }
+    static inline unsigned Parent(uint64_t entry) {
+        return static_cast<unsigned>(entry);
+    }
 
-            __sync_bool_compare_and_swap(&m_parent[x], y, old);
-        }
-        return false;
+    static inline unsigned Rank(uint64_t entry) {
+        return static_cast<unsigned>(entry >> 32);
+    }
+
+    // succeeds only if x is still a root of rank xr. Parent and rank have to
+    // change together: otherwise another thread can see (and build on) a link
+    // that is taken back, or link in the opposite direction.
+    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
+        return __sync_bool_compare_and_swap(&m_parent[x],
+                                            Pack(x, xr), Pack(y, yr));
     }
 
-    std::vector<unsigned> m_parent;
-    std::vector<unsigned> m_rank;
+    // parent of each element (lower half) and its rank (upper half)
+    std::vector<uint64_t> m_parent;
 };
-- 
2.43.0


From d1e3b34c56f8ae9ae86c9fe7a656a709469c4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 02/83] fix: contraction to a single vertex reads past the
 block sizes

---
 lib/parallel/coarsening/contract_graph.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 281f40c..4871d96 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -302,7 +302,8 @@ class contraction {
         NodeID block0 = 0;
         NodeID block1 = 0;
 
-        if (G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
+        if (num_nodes > 1
+            && G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
             std::vector<uint32_t> el(num_nodes);
             for (size_t i = 0; i < mapping.size(); ++i) {
                 ++el[mapping[i]];
-- 
2.43.0


From baf68adea8b5a878db3bd710947077fea34451cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 03/83] fix: heavy triangle test compares unsorted weights

---
 lib/coarsening/contraction_tests.h          | 3 +--
 lib/parallel/coarsening/contraction_tests.h | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index b944909..9147eed 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -25,8 +25,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight
-                      w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 9266e8f..14382ec 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -29,7 +29,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
-- 
2.43.0


From f35b65b820c708a498abd098707d41ee32f18b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 04/83] fix: weighted vertex degrees truncated to 32 bits in
 reduction tests

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 4 ++--
 lib/coarsening/contraction_tests.h            | 4 ++--
 lib/parallel/coarsening/contraction_tests.h   | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index c34eb35..9e16328 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -169,8 +169,8 @@ class ks_minimum_cut : public minimum_cut {
                     NodeID tgt = G->getEdgeTarget(e);
                     EdgeWeight wgte = G->getEdgeWeight(e);
                     if (tgt > n && currentN > 2) {
-                        NodeWeight degn = G->getWeightedNodeDegree(n);
-                        NodeWeight degt = G->getWeightedNodeDegree(tgt);
+                        EdgeWeight degn = G->getWeightedNodeDegree(n);
+                        EdgeWeight degt = G->getWeightedNodeDegree(tgt);
                         if (wgte > G->getMinDegree() || wgte * 2 > degn
                             || wgte * 2 > degt) {
                             NodeID first = uf.Find(n);
diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index 9147eed..ae46564 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -60,11 +60,11 @@ class tests {
         G->computeDegrees();
         std::vector<bool> contracted(G->number_of_nodes(), false);
         for (NodeID n : G->nodes()) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
             for (EdgeID e : G->edges_of(n)) {
                 auto [t, wgt] = G->getEdge(n, e);
                 NodeID target = uf.Find(t);
-                NodeID t_wgt = G->getWeightedNodeDegree(t);
+                EdgeWeight t_wgt = G->getWeightedNodeDegree(t);
                 NodeID source = uf.Find(n);
 
                 if (wgt >= limit) {
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 14382ec..21ef283 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -69,11 +69,11 @@ class tests {
         NodeID end = G->number_of_nodes();
 #pragma omp parallel for schedule(dynamic, 100)
         for (NodeID n = 0; n < end; ++n) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
 
             for (EdgeID e : G->edges_of(n)) {
                 auto [tgt, wgt] = G->getEdge(n, e);
-                NodeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
+                EdgeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
                 if (wgt >= weight_limit) {
                     contracted[n] = true;
                     contracted[tgt] = true;
@@ -137,10 +137,10 @@ class tests {
                     }
                 }
 
-                NodeID deg_n = G->getWeightedNodeDegree(n);
+                EdgeWeight deg_n = G->getWeightedNodeDegree(n);
                 for (EdgeID e1 : G->edges_of(n)) {
                     auto [tgt, w1] = G->getEdge(n, e1);
-                    NodeID deg_tgt = G->getWeightedNodeDegree(tgt);
+                    EdgeWeight deg_tgt = G->getWeightedNodeDegree(tgt);
                     finished[tgt] = true;
                     EdgeWeight wgt_sum = w1;
                     if (tgt > n) {
-- 
2.43.0


From 1c14383b2d926428d259907b2d4bb74fef5ce296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 05/83] fix: all-cuts reduction uses overestimated block
 degrees

---
 .../global_mincut/cactus/all_cut_local_red.h  | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
index f92a43e..a580aaa 100644
--- a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
+++ b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
@@ -39,21 +39,23 @@ class all_cut_local_red {
 
         for (NodeID n : G->nodes()) {
             for (EdgeID e : G->edges_of(n)) {
-                NodeID target = uf.Find(G->getEdgeTarget(n, e));
+                NodeID t = G->getEdgeTarget(n, e);
+                NodeID target = uf.Find(t);
                 NodeID source = uf.Find(n);
                 EdgeWeight wgt = G->getEdgeWeight(n, e);
 
-                if (target != source
-                    && (wgt > limit
-                        || 2 * wgt > degrees[source]
-                        || 2 * wgt > degrees[target])
-                    && degrees[source] > limit
-                    && degrees[target] > limit) {
-                    EdgeWeight new_w =
-                        degrees[source] + degrees[target] - (2 * wgt);
-
-                    degrees[source] = new_w;
-                    degrees[target] = new_w;
+                // degrees are only known for vertices that have not been
+                // contracted, as we do not maintain edges between blocks
+                bool contractible =
+                    wgt > limit
+                    || (!contracted[n] && degrees[n] > limit
+                        && 2 * wgt > degrees[n])
+                    || (!contracted[t] && degrees[t] > limit
+                        && 2 * wgt > degrees[t]);
+
+                if (target != source && contractible) {
+                    contracted[n] = true;
+                    contracted[t] = true;
                     uf.Union(source, target);
                 }
             }
-- 
2.43.0


From ca221eb193da03ba960353bc61d93587172bfc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 06/83] fix: race in parallel capforest leaves stale queue key
 and contracts a cut

---
 lib/parallel/algorithm/exact_parallel_minimum_cut.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index 287e3d5..c9313ca 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -222,13 +222,13 @@ class exact_parallel_minimum_cut : public minimum_cut {
                                 size_t new_rv =
                                     std::min(r_v[tgt] + wgt,
                                              mincut);
+                                // r_v and queue key need to agree, so visited
+                                // must not be checked again in between
                                 r_v[tgt] = new_rv;
-                                if (!visited[tgt] && !local_visited[tgt]) {
-                                    if (pq.contains(tgt)) {
-                                        pq.increaseKey(tgt, new_rv);
-                                    } else {
-                                        pq.insert(tgt, new_rv);
-                                    }
+                                if (pq.contains(tgt)) {
+                                    pq.increaseKey(tgt, new_rv);
+                                } else {
+                                    pq.insert(tgt, new_rv);
                                 }
                             }
                         }
-- 
2.43.0


From 5e8a8dfca85d3dae32adc17327cfe8f69d43ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 07/83] fix: parallel edge sampling indexes past its tables and
 misreports the result

---
 lib/parallel/coarsening/sparsify.h | 98 ++++++++----------------------
 1 file changed, 27 insertions(+), 71 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 124226c..f498f96 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -53,105 +53,61 @@ class sparsify {
  public:
     NodeID sample_contractible_weighted(graphAccessPtr G,
                                         union_find* uf) {
-        NodeID n_reduce;
+        NodeID to_reduce = std::min(elementsToReduce(G),
+                                    G->number_of_nodes() - 2);
         timer t;
-        size_t num_threads = omp_get_num_threads();
-        std::vector<std::vector<EdgeWeight> > prefixsum;
-
-        std::vector<EdgeWeight> processor_prefixes;
 
 #pragma omp parallel
         {
-            if (!omp_get_thread_num()) {
-                prefixsum.resize(num_threads);
-                processor_prefixes.resize(num_threads);
-            }
-#pragma omp barrier
-
+            size_t num_threads = omp_get_num_threads();
+            size_t id = omp_get_thread_num();
             EdgeID m = G->number_of_edges();
-            size_t wgt = 0;
-            EdgeID per_thread =
-                std::ceil(static_cast<double>(m)
-                          / static_cast<double>(num_threads));
-
-            auto id = omp_get_thread_num();
-            prefixsum[id].reserve(per_thread);
-
-            EdgeID my_start = id * per_thread;
-            EdgeID my_end = std::min((id + 1) * per_thread,
-                                     G->number_of_edges());
+            EdgeID my_start = m * id / num_threads;
+            EdgeID my_end = m * (id + 1) / num_threads;
 
-            for (size_t m = my_start; m < my_end; ++m) {
-                wgt += G->getEdgeWeight(m);
-                prefixsum[id].push_back(wgt);
-            }
-
-            processor_prefixes[id] = wgt;
-#pragma omp barrier
+            // every thread samples from its own range of edges
+            std::vector<EdgeWeight> prefixsum;
+            prefixsum.reserve(my_end - my_start);
+            EdgeWeight wgt = 0;
 
-            EdgeWeight my_prefix = 0;
-            for (int i = 0; i < id; ++i) {
-                my_prefix += processor_prefixes[i];
+            for (EdgeID e = my_start; e < my_end; ++e) {
+                wgt += G->getEdgeWeight(e);
+                prefixsum.push_back(wgt);
             }
 
-            for (size_t m = my_start; m < my_end; ++m) {
-                prefixsum[m / per_thread][m % per_thread] += my_prefix;
-            }
-
-            double factor = configuration::getConfig()->contraction_factor;
-            n_reduce = std::min(static_cast<NodeID>(
-                                    static_cast<double>(G->number_of_nodes())
-                                    * factor),
-                                G->number_of_nodes() - 2);
-            size_t contracted = 0;
-            std::mt19937_64 m_mt(configuration::getConfig()->seed);
-            n_reduce /= num_threads;
-
-#pragma omp barrier
-            while (contracted < n_reduce) {
-                auto random = m_mt();
-                EdgeWeight e_rand = (random % processor_prefixes[id])
-                                    + my_prefix;
+            std::mt19937_64 m_mt(configuration::getConfig()->seed + id);
+            NodeID to_try = wgt > 0 ? to_reduce / num_threads : 0;
 
-                auto edge = std::lower_bound(
-                    prefixsum[id].begin(), prefixsum[id].end(), e_rand,
-                    [](const auto& in1, const EdgeWeight& e) {
-                        return in1 < e;
-                    });
+            for (NodeID tries = 0; tries < to_try; ++tries) {
+                EdgeWeight e_rand = m_mt() % wgt;
 
-                EdgeID e = edge - prefixsum[id].begin() + (per_thread * id);
+                auto edge = std::upper_bound(
+                    prefixsum.begin(), prefixsum.end(), e_rand);
 
-                NodeID src = G->getEdgeSource(e);
-                NodeID tgt = G->getEdgeTarget(e);
-
-                if (!uf->SameSet(src, tgt)) {
-                    if (uf->Union(src, tgt)) {
-                        ++contracted;
-                    }
-                }
+                EdgeID e = edge - prefixsum.begin() + my_start;
+                uf->Union(G->getEdgeSource(e), G->getEdgeTarget(e));
             }
         }
 
-        return G->number_of_nodes() - n_reduce * num_threads;
+        return uf->n();
     }
 
     NodeID sample_contractible_separate(graphAccessPtr G,
                                         union_find* uf) {
         NodeID to_reduce = elementsToReduce(G);
-        std::atomic<NodeID> reduced = 0;
         timer t;
-        NodeID to_try = to_reduce / configuration::getConfig()->threads;
-        const EdgeID my_range = G->number_of_edges()
-                                / configuration::getConfig()->threads;
 
 #pragma omp parallel
         {
+            const size_t num_threads = omp_get_num_threads();
+            const NodeID to_try = to_reduce / num_threads;
+            const EdgeID my_range = G->number_of_edges() / num_threads;
             std::mt19937_64 m_mt(configuration::getConfig()->seed
                                  + omp_get_thread_num());
             EdgeID my_start = my_range * omp_get_thread_num();
             size_t tries = 0;
             NodeID my_reduced = 0;
-            while (tries < to_try) {
+            while (tries < to_try && my_range > 0) {
                 EdgeWeight e_rand = (m_mt() % my_range) + my_start;
                 tries++;
 
@@ -167,7 +123,7 @@ class sparsify {
                  << "s (success in " << my_reduced << ")";
         }
 
-        return G->number_of_nodes() - reduced;
+        return uf->n();
     }
 
     NodeID sample_geometric(graphAccessPtr G,
-- 
2.43.0


From 7dbde64b40363db6025ffddb67ed31833756368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 08/83] fix: VieCut loses the cut found by its exact stage on
 the coarsest graph

---
 .../global_mincut/minimum_cut_helpers.h           | 15 +++++++++++++++
 lib/algorithms/global_mincut/viecut.h             |  7 ++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index f1e8615..9e13bd4 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -85,6 +85,21 @@ class minimum_cut_helpers {
         }
     }
 
+    // transfer the cut marked on the coarsest graph to the input graph
+    static void transferCut(const std::vector<GraphPtr>& graphs) {
+        if (graphs.size() < 2)
+            return;
+
+        for (NodeID idx : graphs[0]->nodes()) {
+            NodeID coarseID = idx;
+            for (size_t lv = 0; lv < graphs.size() - 1; ++lv) {
+                coarseID = graphs[lv]->getPartitionIndex(coarseID);
+            }
+            graphs[0]->setNodeInCut(
+                idx, graphs.back()->getNodeInCut(coarseID));
+        }
+    }
+
     static void retrieveMinimumCut(
         std::vector<GraphPtr> graphs) {
         GraphPtr G = graphs[0];
diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 0a7e601..855d65a 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -106,7 +106,12 @@ class viecut : public minimum_cut {
         if (graphs.back()->number_of_nodes() > 1) {
             timer t;
             noi_minimum_cut<GraphPtr> noi;
-            cut = std::min(cut, noi.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight exact = noi.perform_minimum_cut(graphs.back(), true);
+            if (exact < cut) {
+                cut = exact;
+                if (configuration::getConfig()->save_cut)
+                    minimum_cut_helpers<GraphPtr>::transferCut(graphs);
+            }
 
             LOGC(timing) << "Exact Algorithm:"
                          << t.elapsedToZero() << " deg: "
-- 
2.43.0


From 74c18f817c41b5e5be4b3af36ecbd7ac1bc57464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 09/83] fix: Padberg-Rinaldi and Matula contract the caller's
 graph in place

---
 lib/algorithms/global_mincut/matula_approx.h   | 3 ++-
 lib/algorithms/global_mincut/padberg_rinaldi.h | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index 3f36082..f162bfe 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -57,7 +57,8 @@ class matula_approx : public minimum_cut {
             auto uf = noi.modified_capforest(
                 graphs.back(),
                 std::max(mincut / 2, static_cast<EdgeWeight>(1)));
-            graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
+            graphs.emplace_back(
+                contraction::fromUnionFind(graphs.back(), &uf, true));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
 
diff --git a/lib/algorithms/global_mincut/padberg_rinaldi.h b/lib/algorithms/global_mincut/padberg_rinaldi.h
index 09a4b04..0c1a0ec 100644
--- a/lib/algorithms/global_mincut/padberg_rinaldi.h
+++ b/lib/algorithms/global_mincut/padberg_rinaldi.h
@@ -54,12 +54,14 @@ class padberg_rinaldi : public minimum_cut {
                && graphs.back()->number_of_nodes() < last_nodes) {
             last_nodes = graphs.back()->number_of_nodes();
             union_find uf_34 = tests::prTests34(graphs.back(), cut);
-            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34);
+            auto G_34 = contraction::fromUnionFind(
+                graphs.back(), &uf_34, true);
             graphs.push_back(G_34);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
 
             union_find uf_12 = tests::prTests12(graphs.back(), cut);
-            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12);
+            auto G_12 = contraction::fromUnionFind(
+                graphs.back(), &uf_12, true);
             graphs.push_back(G_12);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
         }
-- 
2.43.0


From 3a594f70e27b8df2e0258ab3325767f53cf6d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 10/83] fix: sequential trivial cut search loses track of the
 moved vertex

---
 lib/coarsening/contract_graph.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 4abb7ba..3f7ca3f 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -122,6 +122,9 @@ class contraction {
                     reverse_mapping.push_back({ bestNode });
                     LOG << reverse_mapping.size() << " size";
                     mapping[bestNode] = reverse_mapping.size() - 1;
+                    if (configuration::getConfig()->save_cut) {
+                        G->setPartitionIndex(bestNode, mapping[bestNode]);
+                    }
                     p--;
                 }
             }
-- 
2.43.0


From 95799de57200e5d6bbc34e065199c571511f59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 11/83] fix: cactus uses partition indices that are not
 maintained without save_cut

---
 .../global_mincut/cactus/cactus_mincut.h         |  1 +
 .../global_mincut/minimum_cut_helpers.h          | 16 ++++++++++++++++
 lib/parallel/algorithm/parallel_cactus.h         |  1 +
 3 files changed, 18 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 9a97994..6fceff7 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -73,6 +73,7 @@ class cactus_mincut : public minimum_cut {
             return std::make_tuple(
                 -1, empty, std::vector<std::pair<NodeID, EdgeID> > { });
         }
+        typename minimum_cut_helpers<GraphPtr>::maintain_partition_indices mpi;
         recursive_cactus<GraphPtr> rc;
         EdgeWeight mincut = graphs.back()->getMinDegree();
         timer t;
diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index 9e13bd4..b7f16fd 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -39,6 +39,22 @@ class minimum_cut_helpers {
     }
 
  public:
+    // vertex locations in the cactus are derived from the partition indices
+    // written by every contraction, which are only maintained with save_cut
+    class maintain_partition_indices {
+     public:
+        maintain_partition_indices()
+            : previous(configuration::getConfig()->save_cut) {
+            configuration::getConfig()->save_cut = true;
+        }
+        ~maintain_partition_indices() {
+            configuration::getConfig()->save_cut = previous;
+        }
+
+     private:
+        bool previous;
+    };
+
     // set minimum cut to initial value (one minimum degree vertex)
     // - this cut will be updated later in the global_mincut
     static void setInitialCutValues(
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 3417342..e88b9eb 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -83,6 +83,7 @@ class parallel_cactus : public minimum_cut {
         }
         timer t;
         EdgeWeight mincut = graphs.back()->getMinDegree();
+        typename minimum_cut_helpers<GraphPtr>::maintain_partition_indices mpi;
         recursive_cactus<GraphPtr> rc;
         exact_parallel_minimum_cut<GraphPtr> mc;
         if (known_mincut != UNDEFINED_NODE) {
-- 
2.43.0


From 2c79b3edb4775ee4d109737f34d6c3d737bfc137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 12/83] fix: cut and leaf edges of the all-cuts algorithms
 stale when the last stage improves the bound

---
 .../global_mincut/cactus/cactus_mincut.h        | 17 ++++++++++++-----
 lib/parallel/algorithm/parallel_cactus.h        |  9 +++++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 6fceff7..43f9ae5 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -79,16 +79,15 @@ class cactus_mincut : public minimum_cut {
         timer t;
         if (known_mincut == UNDEFINED_NODE) {
             viecut<GraphPtr> vc;
-            mincut = vc.perform_minimum_cut(graphs.back());
+            mincut = vc.perform_minimum_cut(graphs.back(), true);
         } else {
             mincut = known_mincut;
+            minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
         }
         noi_minimum_cut<GraphPtr> noi;
         std::vector<std::vector<std::pair<NodeID, NodeID> > > guaranteed_edges;
         std::vector<size_t> ge_ids;
 
-        minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
-
         NodeID previous_size = UNDEFINED_NODE;
         while (graphs.back()->number_of_nodes() * 1.01 < previous_size) {
             previous_size = graphs.back()->number_of_nodes();
@@ -165,8 +164,16 @@ class cactus_mincut : public minimum_cut {
             }
         }
 
-        if (graphs.back()->number_of_nodes() > 1)
-            mincut = noi.perform_minimum_cut(graphs.back());
+        // check whether there is a small cut hidden in graphs.back()
+        if (graphs.back()->number_of_nodes() > 1) {
+            EdgeWeight hidden = noi.perform_minimum_cut(graphs.back(), true);
+            if (hidden < mincut) {
+                mincut = hidden;
+                minimum_cut_helpers<GraphPtr>::transferCut(graphs);
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
+        }
 
         rc.setMincut(mincut);
         auto out_graph = rc.flowMincut(graphs);  // This is the cactus graph!
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index e88b9eb..e6c1d23 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -192,8 +192,13 @@ class parallel_cactus : public minimum_cut {
 
         // check whether there is a small cut hidden in graphs.back()
         if (graphs.back()->number_of_nodes() > 1) {
-            mincut = std::min(mincut,
-                              mc.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight hidden = mc.perform_minimum_cut(graphs.back(), true);
+            if (hidden < mincut) {
+                mincut = hidden;
+                minimum_cut_helpers<GraphPtr>::transferCut(graphs);
+                guaranteed_edges.clear();
+                ge_ids.clear();
+            }
         }
 
         rc.setMincut(mincut);
-- 
2.43.0


From d98542d1ef7f48bf3552f9d2e00cf2680e867673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 13/83] fix: Karger-Stein transfers cuts with overwritten
 partition indices

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 9e16328..ae53207 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -197,16 +197,29 @@ class ks_minimum_cut : public minimum_cut {
         EdgeWeight mincut_to_return = 0;
 
         if (graphs.back()->number_of_nodes() > 50) {
+            const bool save_cut = configuration::getConfig()->save_cut;
+            // the second recursion overwrites the partition indices of G2, so
+            // the cut of the first one has to be transferred before
+            auto transferCut = [&](size_t u_from) {
+                std::vector<PartitionID> in_cut(G2->number_of_nodes());
+                for (NodeID n : G2->nodes()) {
+                    in_cut[n] = graphs[u_from]->getNodeInCut(
+                        G2->getPartitionIndex(n));
+                }
+                return in_cut;
+            };
+            std::vector<PartitionID> in_cut;
             auto w1 = recurse(current_position, iteration);
+            if (save_cut)
+                in_cut = transferCut(w1.second);
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
 
-            if (configuration::getConfig()->save_cut) {
-                size_t u_from = w1.first < w2.first ? w1.second : w2.second;
+            if (save_cut) {
+                if (w2.first <= w1.first)
+                    in_cut = transferCut(w2.second);
                 for (NodeID n : G2->nodes()) {
-                    NodeID ctr = G2->getPartitionIndex(n);
-                    PartitionID pid = graphs[u_from]->getNodeInCut(ctr);
-                    G2->setNodeInCut(n, pid);
+                    G2->setNodeInCut(n, in_cut[n]);
                 }
             }
             mincut_to_return = std::min(w1.first, w2.first);
-- 
2.43.0


From 0bb602e30a106bfdd7a9bc2177710a5a8f2ed0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 14/83] fix: Karger-Stein samples forever on graphs with many
 components

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index ae53207..5d9bdc4 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -91,6 +91,16 @@ class ks_minimum_cut : public minimum_cut {
             static_cast<NodeID>(static_cast<double>(currentN) * reduction),
             currentN - 2);
 
+        // edges can not reduce the graph below its number of components
+        union_find components(G->number_of_nodes());
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                components.Union(n, G->getEdgeTarget(e));
+            }
+        }
+        n_reduce = std::min(n_reduce,
+                            static_cast<NodeID>(currentN - components.n()));
+
         EdgeID num_edges = G->number_of_edges();
 
         std::mt19937_64 m_mt(iteration);
-- 
2.43.0


From 37e53fe7559f25a7ec59bd74d7dccc2a9262106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 15/83] hook: VIECUT_COARSE_LIMIT, default unchanged

---
 lib/algorithms/global_mincut/viecut.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 855d65a..44894a0 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -41,6 +41,12 @@
 #include "coarsening/label_propagation.h"
 #endif
 
+// graphs with more vertices are clustered and contracted before the exact
+// algorithm is run. Simulations set it to let small graphs take this path.
+#ifndef VIECUT_COARSE_LIMIT
+#define VIECUT_COARSE_LIMIT 10000
+#endif
+
 template <class GraphPtr>
 class viecut : public minimum_cut {
  public:
@@ -67,7 +73,7 @@ class viecut : public minimum_cut {
 
         minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
 
-        while (graphs.back()->number_of_nodes() > 10000 &&
+        while (graphs.back()->number_of_nodes() > VIECUT_COARSE_LIMIT &&
                (graphs.size() == 1 ||
                 (graphs.back()->number_of_nodes() <
                  graphs[graphs.size() - 2]->number_of_nodes()))) {
-- 
2.43.0


From c1653df53cd9b6c0cb3adb91b78d7ef261d45e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 16/83] fix: multicut(): index problems by position, not by
 component number

---
 lib/algorithms/multicut/multiterminal_cut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 801884b..8853ff7 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -265,7 +265,7 @@ class multiterminal_cut {
 
                 for (size_t i = 0; i < mapping.size(); ++i) {
                     NodeID n = mapping[i];
-                    nodeProblemMapping[n] = problem;
+                    nodeProblemMapping[n] = problems.size();
                     if (positionInProblem[n] != UNDEFINED_NODE) {
                         LOG1 << "ERROR: NODE IN MULTIPLE CCs";
                         exit(1);
-- 
2.43.0


From f51ed7d593d8a5156154aae35a9f51c0fe03f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 17/83] fix: low degree contraction must not merge a terminal
 of degree three

---
 lib/algorithms/multicut/kernelization_criteria.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 50c16a1..63c0390 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -186,7 +186,8 @@ class kernelization_criteria {
             if (graph->getUnweightedNodeDegree(n) == 1) {
                 NodeID tgt = graph->getEdgeTarget(n, 0);
                 uf.Union(n, tgt);
-                if (graph->getUnweightedNodeDegree(tgt) == 3) {
+                if (!terminals[tgt]
+                    && graph->getUnweightedNodeDegree(tgt) == 3) {
                     // this will become a degree 2 vertex
                     // so we run the degree 2 contraction
                     EdgeID reverse = graph->getReverseEdge(n, 0);
-- 
2.43.0


From 71fa7dd3a539084b626194d878de8fdd4b65bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 18/83] fix: discard problem when NOI contraction merges
 terminals

---
 lib/algorithms/multicut/branch_multicut.h        |  4 +++-
 lib/algorithms/multicut/kernelization_criteria.h | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 10f18fd..42964e0 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -362,7 +362,9 @@ class branch_multicut {
         if (outOfMemory())
             return;
 
-        if (problem->deleted_weight > static_cast<EdgeWeight>(pm.bestCut())) {
+        if (!pm.checkProblem(problem)
+            || problem->deleted_weight
+            > static_cast<EdgeWeight>(pm.bestCut())) {
             return;
         }
 
diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 63c0390..67f1b42 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -84,6 +84,12 @@ class kernelization_criteria {
                                    - problem->deleted_weight
                                    - tlx::div_ceil(contr_flow, 4);
             auto uf_noi = noi.modified_capforest(problem->graph, noi_limit);
+            if (mergesTerminals(&uf_noi, problem)) {
+                // terminals can not be separated by a cut that is better than
+                // the global upper bound, so this problem can be discarded
+                problem->lower_bound = global_upper_bound;
+                return std::nullopt;
+            }
             contractIfImproved(&uf_noi, problem, "noi", &active_n);
 
             find_articulation_points find_aps(problem->graph);
@@ -109,6 +115,16 @@ class kernelization_criteria {
     }
 
  private:
+    bool mergesTerminals(union_find* uf, problemPointer problem) {
+        std::unordered_set<NodeID> blocks;
+        for (const auto& t : problem->terminals) {
+            if (!blocks.insert(uf->Find(t.position)).second) {
+                return true;
+            }
+        }
+        return false;
+    }
+
     void contractIfImproved(union_find* uf,
                             problemPointer problem,
                             const std::string& str,
-- 
2.43.0


From e754646b9775dc8e9c7d1ef4a1be11faf5bb65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 19/83] fix: solution of contracted problem keeps terminals in
 their blocks

---
 lib/algorithms/multicut/measurements.h       |  6 ++++++
 lib/algorithms/multicut/problem_management.h | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/measurements.h b/lib/algorithms/multicut/measurements.h
index 55b462e..89fd15e 100644
--- a/lib/algorithms/multicut/measurements.h
+++ b/lib/algorithms/multicut/measurements.h
@@ -35,6 +35,12 @@ class measurements {
     std::vector<NodeID> getSolution(problemPointer problem) {
         std::vector<NodeID> current_solution(original_graph.n(), 0);
         std::vector<size_t> blocksize(original_terminals.size(), 0);
+        // contractions do not keep the block of contracted terminals
+        for (size_t i = 0; i < original_terminals.size(); ++i) {
+            NodeID t_coarse = problem->mapped(original_terminals[i]);
+            problem->graph->setPartitionIndex(
+                problem->graph->getCurrentPosition(t_coarse), i);
+        }
         for (NodeID n = 0; n < current_solution.size(); ++n) {
             NodeID n_coarse = problem->mapped(n);
             auto t = problem->graph->getCurrentPosition(n_coarse);
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index c856bce..91b0536 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -216,9 +216,18 @@ class problem_management {
     std::optional<FlowType> processNewProblem(
         problemPointer new_p, size_t thread_id) {
         size_t numTerminals = new_p->terminals.size();
-        if (numTerminals < 2 && runLocalSearch(new_p)) {
-            auto sol = msm.getSolution(new_p);
-            return findBestSolution(&sol, numTerminals);
+        if (numTerminals < 2) {
+            // no cut left to find, all vertices are in block of last terminal
+            NodeID block = numTerminals ? new_p->terminals[0].original_id : 0;
+            for (NodeID n : new_p->graph->nodes()) {
+                new_p->graph->setPartitionIndex(n, block);
+            }
+            new_p->upper_bound = new_p->deleted_weight;
+            if (runLocalSearch(new_p)) {
+                auto sol = msm.getSolution(new_p);
+                return findBestSolution(&sol, numTerminals);
+            }
+            return std::nullopt;
         }
 
         if (numTerminals == 2) {
-- 
2.43.0


From 4f911ffd0ef27705a60519d8bcecff7c16b3a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 20/83] fix: update best solution and upper bound of
 multiterminal cut atomically

---
 lib/algorithms/multicut/problem_management.h | 50 +++++++++++---------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 91b0536..36d0f44 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -47,11 +47,12 @@ class problem_management {
     bool is_finished;
     std::atomic<uint> idle_threads;
 
-    FlowType global_upper_bound;
+    std::atomic<FlowType> global_upper_bound;
     std::vector<FlowType> terminalGUB;
     std::vector<FlowType> beforeLSGUB;
 
     std::vector<NodeID> best_solution;
+    FlowType best_solution_value;
     bool bestSolutionInitialized;
     measurements msm;
     timer t;
@@ -76,6 +77,7 @@ class problem_management {
           global_upper_bound(UNDEFINED_FLOW),
           terminalGUB(original_terminals.size() + 1, UNDEFINED_FLOW),
           beforeLSGUB(original_terminals.size() + 1, UNDEFINED_FLOW),
+          best_solution_value(UNDEFINED_FLOW),
           bestSolutionInitialized(false),
           msm(this->original_graph, this->original_terminals) {
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
@@ -276,17 +278,7 @@ class problem_management {
         if (prev_gub > beforeLSGUB[numTerminals])
             return std::nullopt;
 
-        if (prev_gub < global_upper_bound) {
-            global_upper_bound = prev_gub;
-            LOG1 << "Improvement after " << t.elapsed()
-                 << " to " << prev_gub << " (beforehand)";
-            bestsol_mutex.lock();
-            for (size_t i = 0; i < current_solution->size(); ++i) {
-                best_solution[i] = (*current_solution)[i];
-            }
-            initalizeBestSolution();
-            bestsol_mutex.unlock();
-        }
+        updateBestSolution(*current_solution, prev_gub, " (beforehand)");
         FlowType total_improvement = ls.improveSolution(t);
         FlowType ls_bound = prev_gub - total_improvement;
 
@@ -295,21 +287,30 @@ class problem_management {
             beforeLSGUB[numTerminals] = prev_gub;
         }
 
-        if (ls_bound < global_upper_bound || !bestSolutionInitialized) {
-            global_upper_bound = ls_bound;
-            LOG1 << "Improvement after " << t.elapsed() << " to " << ls_bound;
-
-            bestsol_mutex.lock();
-            for (size_t i = 0; i < current_solution->size(); ++i) {
-                best_solution[i] = (*current_solution)[i];
-            }
-            initalizeBestSolution();
-            bestsol_mutex.unlock();
+        if (updateBestSolution(*current_solution, ls_bound, "")) {
             return ls_bound;
         }
         return std::nullopt;
     }
 
+    // stores solution unless a solution that is at least as good is stored
+    bool updateBestSolution(const std::vector<NodeID>& solution,
+                            FlowType value, const char* note) {
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
+        if (bestSolutionInitialized && value >= best_solution_value) {
+            return false;
+        }
+
+        LOG1 << "Improvement after " << t.elapsed() << " to " << value << note;
+        best_solution = solution;
+        best_solution_value = value;
+        if (value < global_upper_bound) {
+            global_upper_bound = value;
+        }
+        initalizeBestSolution();
+        return true;
+    }
+
     void singleBranch(problemPointer problem,
                       size_t thread_id) {
         auto [b_vtx, b_edge] = findEdgeSingleBranch(problem);
@@ -395,7 +396,10 @@ class problem_management {
     }
 
     void updateBound(FlowType newSolution) {
-        global_upper_bound = std::min(newSolution, global_upper_bound);
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
+        if (newSolution < global_upper_bound) {
+            global_upper_bound = newSolution;
+        }
     }
 
     FlowType bestCut() {
-- 
2.43.0


From b2cbe7a1da31d420beb206be540d8b09cb0ed5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 21/83] fix: single edge branching must not delete edges of
 degree three vertex

---
 lib/algorithms/multicut/problem_management.h | 46 +++-----------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 36d0f44..d7200c7 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -85,40 +85,6 @@ class problem_management {
         best_solution.resize(original_graph.number_of_nodes());
     }
 
-    bool degreeThreeContraction(problemPointer problem,
-                                NodeID b_vtx, EdgeID b_edge) {
-        auto& g = problem->graph;
-        auto c = g->getEdgeWeight(b_vtx, b_edge);
-        NodeID term = g->getEdgeTarget(b_vtx, b_edge);
-        EdgeWeight max_incident_wgt = 0;
-        if (!(g->getUnweightedNodeDegree(b_vtx) == 3))
-            return false;
-
-        for (EdgeID e : g->edges_of(b_vtx)) {
-            auto wgt = g->getEdgeWeight(b_vtx, e);
-            if (wgt > max_incident_wgt) {
-                max_incident_wgt = wgt;
-            }
-        }
-
-        if (max_incident_wgt != c)
-            return false;
-
-        for (EdgeID e = 0; e < g->getUnweightedNodeDegree(b_vtx); ++e) {
-            if (g->getEdgeTarget(b_vtx, e) != term) {
-                problem->deleted_weight += g->getEdgeWeight(b_vtx, e);
-                g->deleteEdge(b_vtx, e);
-                --e;
-            }
-        }
-        g->contractEdge(b_vtx, 0);
-
-        for (auto& t : problem->terminals) {
-            t.invalid_flow = true;
-        }
-        return true;
-    }
-
     std::optional<problemPointer> pullProblem(
         size_t thread_id, bool send) {
         return problems.pullProblem(thread_id, send);
@@ -347,13 +313,11 @@ class problem_management {
             processNewProblem(del_p, thread_id);
         }
         // |-> edge not in multicut
-        if (!degreeThreeContraction(problem, b_vtx, b_edge)) {
-            problem->graph->contractEdge(b_vtx, b_edge);
-            problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
-            for (size_t i = 0; i < problem->terminals.size(); ++i) {
-                if (i == target_terminal_id) {
-                    problem->terminals[i].invalid_flow = true;
-                }
+        problem->graph->contractEdge(b_vtx, b_edge);
+        problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
+        for (size_t i = 0; i < problem->terminals.size(); ++i) {
+            if (i == target_terminal_id) {
+                problem->terminals[i].invalid_flow = true;
             }
         }
 
-- 
2.43.0


From 195a83cc64ae19a816419a52c611503f1aefc3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 22/83] fix: per_thread_problem_queue: decide on send problem
 under its lock

---
 .../problem_queues/per_thread_problem_queue.h | 28 +++++--------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 617657e..96e20ce 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -159,39 +159,25 @@ class per_thread_problem_queue {
             min_index = local_id;
         }
 
-        pop_mutex[min_index].lock();
+        std::lock_guard<std::mutex> pop_lock(pop_mutex[min_index]);
+        std::lock_guard<std::mutex> send_lock(send_problem_mutex);
 
         if (!haveSendProblem) {
-            send_problem_mutex.lock();
-
             sendProblem = p;
             sendProblemWeight = sendProblem->lower_bound;
             haveSendProblem = true;
-            pop_mutex[min_index].unlock();
-            send_problem_mutex.unlock();
             return local_id;
         }
 
         sizes[min_index].first += 1;
 
-        bool movedProblem = false;
         if (sendProblemWeight > p->lower_bound) {
-            send_problem_mutex.lock();
-            if (haveSendProblem) {
-                problemPointer mcp = sendProblem;
-                pq[min_index].push(mcp);
-                sendProblem = p;
-                sendProblemWeight = sendProblem->lower_bound;
-                movedProblem = true;
-                send_problem_mutex.unlock();
-            }
-            send_problem_mutex.unlock();
-        }
-
-        if (!movedProblem) {
+            pq[min_index].push(sendProblem);
+            sendProblem = p;
+            sendProblemWeight = sendProblem->lower_bound;
+        } else {
             pq[min_index].push(p);
         }
-        pop_mutex[min_index].unlock();
         return min_index;
     }
 
@@ -287,7 +273,7 @@ class per_thread_problem_queue {
                                              const problemPointer&)> > > pq;
 
     problemPointer sendProblem;
-    bool haveSendProblem;
+    std::atomic<bool> haveSendProblem;
     FlowType sendProblemWeight;
 
     std::vector<std::mutex> pop_mutex;
-- 
2.43.0


From 649c3bbe6631c5ce5165f1947135bfa969c20566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:33 +0000
Subject: [PATCH 23/83] fix: non-terminal flows must not start from a terminal

---
 lib/algorithms/multicut/maximum_flow.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index 17d418c..e0b5318 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -113,6 +113,7 @@ class maximum_flow {
         for (const auto& t : problem->terminals) {
             previous.insert(t.position);
         }
+        const std::unordered_set<NodeID> terminal_set = previous;
 
         for (size_t i = 0; i < configuration::getConfig()->random_flows; ++i) {
             NodeID r = random_functions::nextInt(0, problem->graph->n() - 1);
@@ -127,6 +128,10 @@ class maximum_flow {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
+            if (terminal_set.count(r) > 0) {
+                continue;
+            }
+
             previous.insert(r);
             std::vector<NodeID> terms;
             for (const auto& t : problem->terminals) {
@@ -158,7 +163,7 @@ class maximum_flow {
             NodeID last = hdv.size() - 1;
             NodeID idx = random_functions::nextInt(last * hd_factor, last);
             NodeID r = hdv[idx];
-            if (uf.Find(r) != r) {
+            if (uf.Find(r) != r || terminal_set.count(r) > 0) {
                 continue;
             }
 
-- 
2.43.0


From 0697285bc4c1cc67f16422f37208631832041aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 24/83] fix: triangle contraction must keep an optimal solution

---
 .../multicut/kernelization_criteria.h         | 62 ++++++++++++-------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 67f1b42..dd6d3d0 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -295,6 +295,34 @@ class kernelization_criteria {
         return uf;
     }
 
+    // contracts edge (a, b) of triangle (a, b, c) if there is an optimal solution
+    // in which a and b are in the same block
+    static void contractTrianglePair(NodeID a, NodeID b,
+                                     EdgeWeight degree_a, EdgeWeight degree_b,
+                                     EdgeWeight ab, EdgeWeight ac,
+                                     EdgeWeight bc,
+                                     union_find* uf,
+                                     std::vector<bool>* contracted) {
+        // weights are only valid for vertices that are not contracted yet
+        if ((*contracted)[a] || (*contracted)[b])
+            return;
+
+        EdgeWeight other_a = degree_a - ab - ac;
+        EdgeWeight other_b = degree_b - ab - bc;
+
+        // if c is in block of a or b, moving the other one there is not worse
+        if (other_a > ab + ac || other_b > ab + bc)
+            return;
+
+        // all three in different blocks
+        if (other_a <= std::max(ab, ac) || other_b <= std::max(ab, bc)
+            || other_a + other_b <= ab + ac + bc) {
+            uf->Union(a, b);
+            (*contracted)[a] = true;
+            (*contracted)[b] = true;
+        }
+    }
+
     union_find triangleDetection(problemPointer problem,
                                  const std::vector<bool>& active) {
         auto graph = problem->graph;
@@ -309,6 +337,7 @@ class kernelization_criteria {
 
         std::vector<EdgeID> marked(problem->graph->n(), UNDEFINED_EDGE);
         std::vector<bool> done(problem->graph->n(), false);
+        std::vector<bool> contracted(problem->graph->n(), false);
 
         for (NodeID v1 : graph->nodes()) {
             NodeID in = graph->containedVertices(v1)[0];
@@ -362,27 +391,18 @@ class kernelization_criteria {
                                     EdgeWeight weight_e3 =
                                         graph->getEdgeWeight(v1, e3);
 
-                                    bool heavy_v1 =
-                                        ((weight_v1 <=
-                                          (weight_e1 + weight_e3) * 2)
-                                         && (uf.Find(v1) == v1));
-                                    bool heavy_v2 =
-                                        ((weight_v2 <=
-                                          (weight_e1 + weight_e2) * 2)
-                                         && (uf.Find(v2) == v2));
-                                    bool heavy_v3 =
-                                        ((weight_v3 <=
-                                          (weight_e2 + weight_e3) * 2)
-                                         && (uf.Find(v3) == v3));
-
-                                    if (heavy_v1 && heavy_v2)
-                                        uf.Union(v1, v2);
-
-                                    if (heavy_v1 && heavy_v3)
-                                        uf.Union(v1, v3);
-
-                                    if (heavy_v2 && heavy_v3)
-                                        uf.Union(v2, v3);
+                                    contractTrianglePair(
+                                        v1, v2, weight_v1, weight_v2,
+                                        weight_e1, weight_e3, weight_e2,
+                                        &uf, &contracted);
+                                    contractTrianglePair(
+                                        v1, v3, weight_v1, weight_v3,
+                                        weight_e3, weight_e1, weight_e2,
+                                        &uf, &contracted);
+                                    contractTrianglePair(
+                                        v2, v3, weight_v2, weight_v3,
+                                        weight_e2, weight_e1, weight_e3,
+                                        &uf, &contracted);
                                 } else {
                                     LOG1 << "Graph corrupted!";
                                     exit(1);
-- 
2.43.0


From cdc8213198068f376652a01517d4b9c317e6708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 25/83] fix: crossing source sets of non-terminal flows must
 not be united

---
 lib/algorithms/multicut/maximum_flow.h | 33 ++++++++++++++++++--------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index e0b5318..b923423 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -89,13 +89,31 @@ class maximum_flow {
         return order;
     }
 
+    // unites source set of vertex r. Vertices that were already claimed by
+    // another vertex are only united if that vertex is also in the source set,
+    // as there might not be an optimal solution in which crossing source sets
+    // are in the same block
+    static void uniteSourceSet(const std::vector<NodeID>& source_set, NodeID r,
+                               std::vector<NodeID>* owner, union_find* uf) {
+        std::unordered_set<NodeID> in_set(source_set.begin(), source_set.end());
+        for (const auto& s : source_set) {
+            NodeID o = (*owner)[s];
+            if (o == UNDEFINED_NODE || in_set.count(o) > 0) {
+                uf->Union(s, r);
+                (*owner)[s] = r;
+            }
+        }
+    }
+
     union_find nonTerminalFlow(problemPointer problem,
                                bool parallel,
                                const std::vector<bool>& active) {
         union_find uf(problem->graph->n());
+        std::vector<NodeID> owner(problem->graph->n(), UNDEFINED_NODE);
         std::unordered_set<NodeID> previous;
 
         std::vector<std::future<std::vector<NodeID> > > futures;
+        std::vector<NodeID> future_vertices;
         std::vector<push_relabel<false, true> > prs(
             configuration::getConfig()->random_flows +
             configuration::getConfig()->high_distance_flows);
@@ -145,14 +163,13 @@ class maximum_flow {
                     std::async(&push_relabel<false, true>::callable_max_flow,
                                &prs[pr_id++],
                                problem->graph, terms, num_t, true));
+                future_vertices.emplace_back(r);
             } else {
                 push_relabel pr;
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                uniteSourceSet(sourceSet, r, &owner, &uf);
             }
         }
 
@@ -181,24 +198,20 @@ class maximum_flow {
                     std::async(&push_relabel<false, true>::callable_max_flow,
                                &prs[pr_id++],
                                problem->graph, terms, num_t, true));
+                future_vertices.emplace_back(r);
             } else {
                 push_relabel pr;
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                uniteSourceSet(sourceSet, r, &owner, &uf);
             }
         }
 
         for (size_t i = 0; i < futures.size(); ++i) {
             auto& t = futures[i];
             const auto& vec = t.get();
-            NodeID head = vec[0];
-            for (const auto& n : vec) {
-                uf.Union(n, head);
-            }
+            uniteSourceSet(vec, future_vertices[i], &owner, &uf);
         }
 
         return uf;
-- 
2.43.0


From a9974e6a9e33512ec7249513b027be33f116e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:55 +0000
Subject: [PATCH 26/83] fix: push_relabel: flow problem ids must be unique

---
 lib/algorithms/flow/push_relabel.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index eb6a41a..41f80f0 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -15,6 +15,7 @@
 #pragma once
 
 #include <algorithm>
+#include <atomic>
 #include <iostream>
 #include <memory>
 #include <queue>
@@ -33,6 +34,14 @@ const int WORK_OP_RELABEL = 9;
 const double GLOBAL_UPDATE_FRQ = 0.51;
 const int WORK_NODE_TO_EDGES = 4;
 
+// unique id, so that flows of an earlier problem on the same graph are never
+// used. Random ids are only unique if they are not drawn concurrently.
+inline size_t newFlowProblemID() {
+    // ids that are given explicitly are random 32 bit numbers
+    static std::atomic<size_t> last_id = UNDEFINED_NODE;
+    return ++last_id;
+}
+
 template <bool limited = false, bool parallel_flows = false>
 class push_relabel {
  public:
@@ -343,7 +352,7 @@ class push_relabel {
         NodeID curr_source,
         bool compute_source_set,
         FlowType limit = 0,
-        size_t problem_id = random_functions::nextInt(0, UNDEFINED_NODE)) {
+        size_t problem_id = newFlowProblemID()) {
         t.restart();
         for (NodeID s : sources) {
             if (s >= G->number_of_nodes()) {
-- 
2.43.0


From 2d4071fb61f4f1309c6917fe01d2a9682f490449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 27/83] fix: multicut termination check must not miss threads
 that just received a problem

---
 lib/algorithms/multicut/branch_multicut.h    |  7 +++++--
 lib/algorithms/multicut/problem_management.h | 22 +++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 42964e0..bf5cf07 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -218,8 +218,11 @@ class branch_multicut {
                     im_idle = true;
                 }
 
-                if (pm.allThreadsIdle() && pm.allEmpty()) {
-                    if (mpi_mutex.try_lock()) {
+                if (pm.noWorkLeft() && mpi_mutex.try_lock()) {
+                    // previous holder of mutex might have received a problem
+                    if (!pm.noWorkLeft()) {
+                        mpi_mutex.unlock();
+                    } else {
                         auto src = mpic.waitForProblem();
                         if (std::holds_alternative<int>(src)) {
                             if (sent_done) {
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index d7200c7..3afe943 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -45,7 +45,9 @@ class problem_management {
     std::vector<std::mutex> q_mutex;
     std::vector<std::condition_variable> q_cv;
     bool is_finished;
-    std::atomic<uint> idle_threads;
+    // lower half: number of idle threads, upper half: number of times that a
+    // thread stopped being idle
+    std::atomic<uint64_t> idle_threads;
 
     std::atomic<FlowType> global_upper_bound;
     std::vector<FlowType> terminalGUB;
@@ -402,7 +404,21 @@ class problem_management {
     }
 
     bool allThreadsIdle() {
-        return idle_threads == num_threads;
+        return numIdle(idle_threads) == num_threads;
+    }
+
+    // true if there are no unsolved problems. Subproblems might be pulled from
+    // the queue between checking threads and queue, so no thread might have
+    // stopped being idle in between.
+    bool noWorkLeft() {
+        uint64_t idle_before = idle_threads;
+        return numIdle(idle_before) == num_threads
+               && allEmpty()
+               && idle_threads == idle_before;
+    }
+
+    static size_t numIdle(uint64_t idle) {
+        return idle & ((1UL << 32) - 1);
     }
 
     void incrementIdleThreads() {
@@ -410,7 +426,7 @@ class problem_management {
     }
 
     void decrementIdleThreads() {
-        --idle_threads;
+        idle_threads += (1UL << 32) - 1;
     }
 
     bool finished() {
-- 
2.43.0


From 4a527bc5b19cf410618822337b598a9deb349fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 28/83] fix: mpi: received problem must not have a priority
 edge

---
 lib/algorithms/multicut/mpi_communication.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 9af06b0..f929d14 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -111,6 +111,7 @@ class mpi_communication {
         problem->lower_bound = data[0];
         problem->upper_bound = data[1];
         problem->deleted_weight = data[2];
+        problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
         size_t num_terminals = data[3];
         size_t next_index = 4;
         for (size_t i = 0; i < num_terminals; ++i) {
-- 
2.43.0


From 94cdc46b93455e6b2acd4e7304928829bba9ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 29/83] fix: mutable_graph: serialized vertices and edge
 targets must be distinguishable

---
 lib/data_structure/mutable_graph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a4447fb..8d2a078 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -842,7 +842,6 @@ class mutable_graph {
     static mutableGraphPtr deserialize(std::vector<uint64_t> v) {
         mutableGraphPtr G = std::make_shared<mutable_graph>();
         uint64_t num_nodes = v[0];
-        size_t num_edges = v[1];
         uint64_t original_nodes = v[3];
         G->start_construction(num_nodes);
         G->set_partition_count(v[2]);
@@ -851,11 +850,11 @@ class mutable_graph {
         size_t deserial = 4;
         while (n < num_nodes) {
             uint64_t next = v[deserial++];
-            if (next >= num_edges) {
+            if (next >= num_nodes) {
                 if (next == UNDEFINED_EDGE) {
                     break;
                 }
-                n = next - num_edges;
+                n = next - num_nodes;
                 continue;
             }
             uint64_t wgt = v[deserial++];
@@ -887,7 +886,8 @@ class mutable_graph {
         size_t next = 4;
 
         for (NodeID n : nodes()) {
-            serial[next++] = static_cast<uint64_t>(num_edges + n);
+            // larger than id of any edge target
+            serial[next++] = static_cast<uint64_t>(vertices.size() + n);
             for (const auto& [t, w, r, f, l] : vertices[n]) {
                 // I am deeply sorry for this ugly code, but structured bindings
                 // seem to not work in combination with maybe_unused to suppress
-- 
2.43.0


From f307a435e69787109778287cd09e3d8a6d86dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 30/83] fix: mpi: broadcast of solutions must not overwrite
 messages and have an owner

Buffers of solutions that are sent were overwritten before the message was
received, the best solution was read and written by multiple threads without
synchronization and there might have been no worker (or one that does not have
the solution) to broadcast the result.
---
 lib/algorithms/multicut/branch_multicut.h   |  9 ++++--
 lib/algorithms/multicut/mpi_communication.h | 33 ++++++++++-----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index bf5cf07..054b123 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -148,14 +148,17 @@ class branch_multicut {
             }
         }
 
-        FlowType total_weight = pm.bestCut();
+        FlowType local_weight = UNDEFINED_FLOW;
+        if (pm.isBestSolutionInitialized()) {
+            local_weight = msm.flowValue(false, pm.getBestSolution());
+        }
 
-        FlowType local_weight = total_weight;
+        FlowType total_weight = local_weight;
         MPI_Allreduce(&local_weight, &total_weight, 1, MPI_LONG,
                       MPI_MIN, MPI_COMM_WORLD);
 
         size_t local_bcast_id = mpi_size;
-        if (mpic.bestSolutionIsLocal() && local_weight == total_weight) {
+        if (local_weight == total_weight) {
             // find processor which has best solution to broadcast
             local_bcast_id = mpi_rank;
         }
diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index f929d14..585a80d 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -13,7 +13,9 @@
 #include <mpi.h>
 
 #include <chrono>
+#include <deque>
 #include <memory>
+#include <mutex>
 #include <thread>
 #include <vector>
 
@@ -24,14 +26,13 @@ class mpi_communication {
  public:
     static const bool debug = false;
 
-    mpi_communication() : bestSolutionLocal(false),
-                          best_solution(UNDEFINED_NODE) {
+    mpi_communication() : best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
-        req.resize(mpi_size);
     }
 
     FlowType getGlobalBestSolution() {
+        std::lock_guard<std::mutex> lock(solution_mutex);
         int result = 1;
         while (result > 0) {
             MPI_Status status;
@@ -42,7 +43,6 @@ class mpi_communication {
                          15123, MPI_COMM_WORLD, NULL);
                 if (best_solution > recv) {
                     best_solution = recv;
-                    bestSolutionLocal = false;
                     LOG1 << mpi_rank << " received better solution "
                          << best_solution << " from " << status.MPI_SOURCE;
                 }
@@ -52,18 +52,19 @@ class mpi_communication {
     }
 
     void broadcastImprovedSolution(FlowType solution) {
-        FlowType beforeBest = best_solution;
+        // lock so every solution is only sent once
+        std::lock_guard<std::mutex> lock(solution_mutex);
         if (solution < best_solution) {
-            bool updated = __sync_bool_compare_and_swap(
-                &best_solution, beforeBest, solution);
-            if (!updated) return;  // CAS so every solution is only sent once
-            bestSolutionLocal = true;
-
+            best_solution = solution;
+            // buffer has to be valid until message is received
+            sent_solutions.emplace_back(solution);
             for (int i = 0; i < mpi_size; ++i) {
                 if (i != mpi_rank) {
                     LOG0 << mpi_rank << " send " << best_solution << " > " << i;
-                    MPI_Isend(&best_solution, 1, MPI_LONG,
-                              i, 15123, MPI_COMM_WORLD, &req[i]);
+                    MPI_Request rq;
+                    MPI_Isend(&sent_solutions.back(), 1, MPI_LONG,
+                              i, 15123, MPI_COMM_WORLD, &rq);
+                    MPI_Request_free(&rq);
                 }
             }
         }
@@ -214,14 +215,10 @@ class mpi_communication {
         }
     }
 
-    bool bestSolutionIsLocal() {
-        return bestSolutionLocal;
-    }
-
  private:
     int mpi_size;
     int mpi_rank;
-    std::vector<MPI_Request> req;
-    bool bestSolutionLocal;
+    std::mutex solution_mutex;
     FlowType best_solution;
+    std::deque<FlowType> sent_solutions;
 };
-- 
2.43.0


From d7cb53d98cf20c17afd069884434ff9798641c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 31/83] fix: mpi: workers must not terminate while there are
 unsolved problems

The last worker declared all workers to be done when all had reported so, even
if a problem was still being sent, reports arrived out of order or it received
a problem itself. Promised problems were never sent when the queue turned out
to be empty, answers to requests were left over and mistaken for answers in the
next run, and messages were read from buffers that were already gone.
---
 lib/algorithms/multicut/branch_multicut.h   | 135 +++++-----------
 lib/algorithms/multicut/mpi_communication.h | 169 +++++++++++++++++---
 2 files changed, 186 insertions(+), 118 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 054b123..689faf0 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -85,9 +85,6 @@ class branch_multicut {
           mpic() {
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
-        mpi_num_done = 0;
-        mpi_done.resize(mpi_size, 0);
-        sent_done = false;
     }
 
     ~branch_multicut() { }
@@ -125,28 +122,7 @@ class branch_multicut {
             t.join();
         }
 
-        MPI_Request all_done;
-        MPI_Ibarrier(MPI_COMM_WORLD, &all_done);
-
-        int finished = 0;
-        while (finished == 0) {
-            MPI_Test(&all_done, &finished, MPI_STATUS_IGNORE);
-            int ms;
-            MPI_Status status;
-
-            MPI_Iprobe(MPI_ANY_SOURCE, 3000, MPI_COMM_WORLD, &ms, &status);
-
-            if (ms > 0) {
-                int re;
-                MPI_Recv(&re, 1, MPI_LONG, status.MPI_SOURCE, 3000,
-                         MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-
-                MessageStatus answer = allEmpty;
-                MPI_Request rq;
-                MPI_Isend(&answer, 1, MPI_INT, status.MPI_SOURCE,
-                          3000, MPI_COMM_WORLD, &rq);
-            }
-        }
+        mpic.finish();
 
         FlowType local_weight = UNDEFINED_FLOW;
         if (pm.isBestSolutionInitialized()) {
@@ -199,16 +175,21 @@ class branch_multicut {
                     pm.updateBound(mpic.getGlobalBestSolution());
                 }
 
-                std::optional<int> sending = std::nullopt;
-                if (mpi_size > 1 && thread_id == 0 && pm.numProblems() > 1) {
-                    sending = mpic.checkForReceiver();
-                }
+                bool has_receiver = mpi_size > 1 && thread_id == 0
+                                    && pm.numProblems() > 1
+                                    && mpic.hasReceiver();
 
-                auto problem = pm.pullProblem(thread_id, sending.has_value());
+                auto problem = pm.pullProblem(thread_id, has_receiver);
                 if (!problem.has_value()) {
                     continue;
                 }
 
+                // only answer receiver when there is a problem to send
+                std::optional<int> sending = std::nullopt;
+                if (has_receiver) {
+                    sending = mpic.checkForReceiver();
+                }
+
                 if (sending.has_value()) {
                     // forget this problem if it was sent to another worker
                     mpic.sendProblem(problem.value(), sending.value());
@@ -222,69 +203,15 @@ class branch_multicut {
                 }
 
                 if (pm.noWorkLeft() && mpi_mutex.try_lock()) {
+                    std::lock_guard<std::mutex> lock(mpi_mutex,
+                                                     std::adopt_lock);
                     // previous holder of mutex might have received a problem
-                    if (!pm.noWorkLeft()) {
-                        mpi_mutex.unlock();
-                    } else {
-                        auto src = mpic.waitForProblem();
-                        if (std::holds_alternative<int>(src)) {
-                            if (sent_done) {
-                                int done = 0;
-                                sent_done = false;
-                                MPI_Request rq;
-                                MPI_Isend(&done, 1, MPI_INT, mpi_size - 1,
-                                          4000, MPI_COMM_WORLD, &rq);
-                            }
-                            auto p = mpic.recvProblem(std::get<int>(src));
-                            pm.addProblem(p, thread_id, true);
-                        } else {
-                            if (std::get<bool>(src)) {
-                                pm.setFinish();
-                                pm.notifyAllThreads();
-                                return;
-                            }
-
-                            if (mpi_rank == mpi_size - 1) {
-                                int result = 1;
-                                while (result > 0) {
-                                    MPI_Status stat;
-                                    MPI_Iprobe(MPI_ANY_SOURCE, 4000,
-                                               MPI_COMM_WORLD, &result, &stat);
-                                    if (result > 0) {
-                                        int done;
-                                        int source = stat.MPI_SOURCE;
-                                        MPI_Recv(&done, 1, MPI_INT, source,
-                                                 4000, MPI_COMM_WORLD,
-                                                 MPI_STATUS_IGNORE);
-                                        int done_before = mpi_done[source];
-                                        mpi_done[source] = done;
-                                        mpi_num_done += (done - done_before);
-                                    }
-                                }
-
-                                if (mpi_num_done == mpi_size - 1) {
-                                    for (int i = 0; i < mpi_size - 1; ++i) {
-                                        MessageStatus fnl =
-                                            MessageStatus::allEmpty;
-                                        MPI_Request fr;
-                                        MPI_Isend(&fnl, 1, MPI_INT, i, 3000,
-                                                  MPI_COMM_WORLD, &fr);
-                                        pm.setFinish();
-                                        pm.notifyAllThreads();
-                                        return;
-                                    }
-                                }
-                            } else {
-                                if (!sent_done) {
-                                    int done = 1;
-                                    sent_done = true;
-                                    MPI_Request rq;
-                                    MPI_Isend(&done, 1, MPI_INT, mpi_size - 1,
-                                              4000, MPI_COMM_WORLD, &rq);
-                                }
-                            }
-                        }
-                        mpi_mutex.unlock();
+                    // or finished
+                    if (!pm.finished() && pm.noWorkLeft()
+                        && askForProblem(thread_id)) {
+                        pm.setFinish();
+                        pm.notifyAllThreads();
+                        return;
                     }
                 }
 
@@ -298,6 +225,27 @@ class branch_multicut {
         }
     }
 
+    // asks another worker for a problem, returns true if all workers are done
+    bool askForProblem(size_t thread_id) {
+        mpic.reportDone();
+        auto src = mpic.waitForProblem();
+        if (std::holds_alternative<int>(src)) {
+            auto p = mpic.recvProblem(std::get<int>(src));
+            pm.addProblem(p, thread_id, true);
+            return false;
+        }
+
+        if (std::get<bool>(src)) {
+            return true;
+        }
+
+        if (mpi_rank == mpi_size - 1 && mpic.allDone()) {
+            mpic.sendAllEmpty();
+            return true;
+        }
+        return false;
+    }
+
     bool outOfMemory() {
 #ifdef USE_TCMALLOC
         uint64_t heapsize = 0;
@@ -643,10 +591,7 @@ class branch_multicut {
     int mpi_size;
     int mpi_rank;
     mpi_communication mpic;
-    int mpi_num_done;
     // only used in rank mpi_size - 1
-    std::vector<int> mpi_done;
-    bool sent_done;
     std::mutex mpi_mutex;
 
     size_t print_index = 0;
diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 585a80d..9fb4ecd 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -12,15 +12,17 @@
 
 #include <mpi.h>
 
-#include <chrono>
 #include <deque>
 #include <memory>
 #include <mutex>
-#include <thread>
+#include <optional>
+#include <variant>
 #include <vector>
 
 #include "algorithms/multicut/multicut_problem.h"
 #include "common/definitions.h"
+#include "data_structure/mutable_graph.h"
+#include "tools/random_functions.h"
 
 class mpi_communication {
  public:
@@ -29,6 +31,10 @@ class mpi_communication {
     mpi_communication() : best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
+        // at the start, only first worker has a problem
+        num_done.resize(mpi_size, 1);
+        num_done[0] = 0;
+        reported_done = (mpi_rank != 0);
     }
 
     FlowType getGlobalBestSolution() {
@@ -40,7 +46,7 @@ class mpi_communication {
             if (result > 0) {
                 FlowType recv;
                 MPI_Recv(&recv, 1, MPI_LONG, status.MPI_SOURCE,
-                         15123, MPI_COMM_WORLD, NULL);
+                         15123, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
                 if (best_solution > recv) {
                     best_solution = recv;
                     LOG1 << mpi_rank << " received better solution "
@@ -61,10 +67,7 @@ class mpi_communication {
             for (int i = 0; i < mpi_size; ++i) {
                 if (i != mpi_rank) {
                     LOG0 << mpi_rank << " send " << best_solution << " > " << i;
-                    MPI_Request rq;
-                    MPI_Isend(&sent_solutions.back(), 1, MPI_LONG,
-                              i, 15123, MPI_COMM_WORLD, &rq);
-                    MPI_Request_free(&rq);
+                    sendMessage(&sent_solutions.back(), MPI_LONG, i, 15123);
                 }
             }
         }
@@ -95,6 +98,11 @@ class mpi_communication {
         data.emplace_back(serial.size());
         data.insert(data.end(), serial.begin(), serial.end());
 
+        // report before target can report that it is done with the problem
+        if (static_cast<int>(tgt) != mpi_size - 1) {
+            report(tgt);
+        }
+
         size_t datasize = data.size();
         MPI_Send(&datasize, 1, MPI_LONG, tgt, 1010, MPI_COMM_WORLD);
         MPI_Send(&data.front(), datasize, MPI_LONG, tgt, 1020, MPI_COMM_WORLD);
@@ -138,22 +146,28 @@ class mpi_communication {
                       &data[next_index + serialsize]);
 
         problem->graph = mutable_graph::deserialize(serial);
+        reported_done = false;
         LOG << mpi_rank << " returns new problem";
         return problem;
     }
 
-    std::optional<int> checkForReceiver() {
+    bool hasReceiver() {
         int result;
         LOG0 << mpi_rank << "probing";
         MPI_Iprobe(MPI_ANY_SOURCE, 3000, MPI_COMM_WORLD,
                    &result, MPI_STATUS_IGNORE);
-        if (result > 0) {
+        return result > 0;
+    }
+
+    // if this returns a receiver, it waits until a problem is sent to it
+    std::optional<int> checkForReceiver() {
+        if (hasReceiver()) {
+            int message;
             MPI_Status st;
-            MPI_Recv(&result, 1, MPI_LONG, MPI_ANY_SOURCE, 3000,
+            MPI_Recv(&message, 1, MPI_INT, MPI_ANY_SOURCE, 3000,
                      MPI_COMM_WORLD, &st);
             LOG << mpi_rank << " found probe from " << st.MPI_SOURCE;
-            MessageStatus message = haveProblem;
-            MPI_Send(&message, 1, MPI_INT, st.MPI_SOURCE, 3000, MPI_COMM_WORLD);
+            sendStatus(haveProblem, st.MPI_SOURCE);
             return st.MPI_SOURCE;
         }
         LOG0 << mpi_rank << " no receiver found";
@@ -165,7 +179,6 @@ class mpi_communication {
             return true;
         }
 
-        MessageStatus message = needProblem;
         int src = 0;
 
         do {
@@ -173,18 +186,20 @@ class mpi_communication {
         } while (src == mpi_rank);
 
         LOG << mpi_rank << " waiting for " << src;
-        MPI_Request request;
-        MPI_Isend(&message, 1, MPI_INT, src, 3000, MPI_COMM_WORLD, &request);
+        sendStatus(needProblem, src);
 
+        bool all_empty = false;
         while (true) {
             int ms;
             MPI_Status stat;
 
-            MPI_Recv(&ms, 1, MPI_LONG, MPI_ANY_SOURCE, 3000,
+            MPI_Recv(&ms, 1, MPI_INT, MPI_ANY_SOURCE, 3000,
                      MPI_COMM_WORLD, &stat);
 
             if (ms == MessageStatus::allEmpty) {
-                return true;
+                // still wait for answer to our request, so there are
+                // no more messages to this worker when it is finished
+                all_empty = true;
             }
 
             if (ms == MessageStatus::emptyAsWell) {
@@ -193,17 +208,14 @@ class mpi_communication {
                          << stat.MPI_SOURCE << "EMPTY AS WELL !";
                     exit(1);
                 }
-                return false;
+                return all_empty;
             }
 
             if (ms == MessageStatus::needProblem) {
-                MessageStatus answer = emptyAsWell;
-                MPI_Request rq;
-                MPI_Isend(&answer, 1, MPI_INT, stat.MPI_SOURCE,
-                          3000, MPI_COMM_WORLD, &rq);
+                sendStatus(emptyAsWell, stat.MPI_SOURCE);
             }
 
-            if (ms == MessageStatus::haveProblem && stat.MPI_SOURCE == src) {
+            if (ms == MessageStatus::haveProblem) {
                 if (stat.MPI_SOURCE != src) {
                     LOG1 << mpi_rank << "WRONG SENDER "
                          << stat.MPI_SOURCE << "HAS PROBLEM !";
@@ -215,10 +227,121 @@ class mpi_communication {
         }
     }
 
+    // tell last worker that we have no more problems. Has to be called before
+    // asking for a problem
+    void reportDone() {
+        if (mpi_rank != mpi_size - 1 && !reported_done) {
+            reported_done = true;
+            report(done);
+        }
+    }
+
+    // only called by last worker when it has no problems. A worker that reports
+    // a sent problem reports being done itself only later. Thus, if all workers
+    // were done exactly once more than they were sent a problem, no worker
+    // has a problem and no problem is currently being sent.
+    bool allDone() {
+        int result = 1;
+        while (result > 0) {
+            MPI_Status stat;
+            MPI_Iprobe(MPI_ANY_SOURCE, 4000, MPI_COMM_WORLD, &result, &stat);
+            if (result > 0) {
+                int message;
+                MPI_Recv(&message, 1, MPI_INT, stat.MPI_SOURCE, 4000,
+                         MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+                if (message == done) {
+                    num_done[stat.MPI_SOURCE]++;
+                } else {
+                    num_done[message]--;
+                }
+            }
+        }
+
+        for (int i = 0; i < mpi_size - 1; ++i) {
+            if (num_done[i] != 1)
+                return false;
+        }
+        return true;
+    }
+
+    void sendAllEmpty() {
+        for (int i = 0; i < mpi_size; ++i) {
+            if (i != mpi_rank) {
+                sendStatus(allEmpty, i);
+            }
+        }
+    }
+
+    // called when all threads of this worker are finished. Answers requests
+    // until all workers are finished and makes sure that there are no messages
+    // left when this returns
+    void finish() {
+        MPI_Request all_finished;
+        MPI_Ibarrier(MPI_COMM_WORLD, &all_finished);
+
+        int finished = 0;
+        while (finished == 0) {
+            MPI_Test(&all_finished, &finished, MPI_STATUS_IGNORE);
+            if (hasReceiver()) {
+                int message;
+                MPI_Status st;
+                MPI_Recv(&message, 1, MPI_INT, MPI_ANY_SOURCE, 3000,
+                         MPI_COMM_WORLD, &st);
+                sendStatus(emptyAsWell, st.MPI_SOURCE);
+            }
+        }
+
+        static const FlowType no_more_solutions = UNDEFINED_FLOW;
+        for (int i = 0; i < mpi_size; ++i) {
+            if (i != mpi_rank) {
+                sendMessage(&no_more_solutions, MPI_LONG, i, 15123);
+            }
+        }
+
+        int num_open = mpi_size - 1;
+        while (num_open > 0) {
+            FlowType recv;
+            MPI_Recv(&recv, 1, MPI_LONG, MPI_ANY_SOURCE,
+                     15123, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+            if (recv == no_more_solutions) {
+                num_open--;
+            }
+        }
+    }
+
  private:
+    static const int done = -1;
+
+    static void sendMessage(const void* buffer, MPI_Datatype type,
+                            int tgt, int tag) {
+        MPI_Request rq;
+        MPI_Isend(buffer, 1, type, tgt, tag, MPI_COMM_WORLD, &rq);
+        MPI_Request_free(&rq);
+    }
+
+    static void sendStatus(MessageStatus status, int tgt) {
+        // buffer has to be valid until message is received
+        static const int messages[] = { needProblem, haveProblem,
+                                        emptyAsWell, allEmpty };
+        sendMessage(&messages[status], MPI_INT, tgt, 3000);
+    }
+
+    // report being done or worker that is sent a problem to last worker
+    void report(int message) {
+        if (mpi_rank == mpi_size - 1) {
+            num_done[message]--;
+        } else {
+            sent_reports.emplace_back(message);
+            sendMessage(&sent_reports.back(), MPI_INT, mpi_size - 1, 4000);
+        }
+    }
+
     int mpi_size;
     int mpi_rank;
     std::mutex solution_mutex;
     FlowType best_solution;
     std::deque<FlowType> sent_solutions;
+    std::deque<int> sent_reports;
+    std::vector<int> num_done;
+    bool reported_done;
 };
-- 
2.43.0


From bbe348f456c7633da430fe7665fca542b9ba79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 32/83] fix: push_relabel: initial distances of limited flows
 must stay within the label counts

---
 lib/algorithms/flow/push_relabel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index 41f80f0..2aa4a78 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -93,7 +93,8 @@ class push_relabel {
         size_t depthPR = configuration::getConfig()->depthOfPartialRelabeling;
 
         if constexpr (limited && initial) {
-            size_t fillValue = depthPR + 1;
+            // labels above n are out of range of the label counts
+            size_t fillValue = std::min<size_t>(depthPR + 1, m_G->n());
             std::fill(m_distance.begin(), m_distance.end(), fillValue);
             m_count[0] = 0;
             m_count[fillValue] = m_G->n() - 1;
-- 
2.43.0


From df4603472ac8b2af3c1caf2623b621c0ee4c3035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 33/83] fix: dynamic minimum cut must contract the vertices in
 which a path through the cactus enters another cycle

---
 .../global_mincut/dynamic/cactus_path.h       | 97 ++++++++++---------
 .../global_mincut/dynamic/dynamic_mincut.h    |  4 +-
 2 files changed, 53 insertions(+), 48 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/cactus_path.h b/lib/algorithms/global_mincut/dynamic/cactus_path.h
index 7a6afb7..e40c1af 100644
--- a/lib/algorithms/global_mincut/dynamic/cactus_path.h
+++ b/lib/algorithms/global_mincut/dynamic/cactus_path.h
@@ -11,9 +11,8 @@
 
 #pragma once
 
-#include <queue>
-#include <tuple>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #include "common/definitions.h"
@@ -24,56 +23,62 @@ class cactus_path {
     cactus_path() { }
     ~cactus_path() { }
 
+    // finds the vertices of the cactus that need to be contracted when s and t
+    // can not be separated by a minimum cut anymore. These are s, t and all
+    // vertices in which every path between them enters another block of the
+    // cactus (a cycle or a tree edge). Vertices inside of a cycle are not
+    // contracted, as there are minimum cuts that separate them from s and t.
     static std::unordered_set<NodeID> findPath(mutableGraphPtr cactus, NodeID s,
-                                               NodeID t, EdgeWeight mincut) {
-        // BFS from both vertices
-        std::vector<std::tuple<NodeID, NodeID, bool> > parents(
-            cactus->n(), std::make_tuple(UNDEFINED_NODE, UNDEFINED_NODE, true));
-        std::queue<NodeID> nodes;
-        nodes.push(s);
-        nodes.push(t);
-        parents[s] = std::make_tuple(s, s, true);
-        parents[t] = std::make_tuple(t, t, true);
+                                               NodeID t) {
+        std::vector<NodeID> parent(cactus->n(), UNDEFINED_NODE);
+        std::vector<EdgeID> parent_edge(cactus->n(), UNDEFINED_EDGE);
+        std::vector<NodeID> depth(cactus->n(), 0);
+        // id of the cycle that contains the edge to the parent of a vertex,
+        // undefined if this edge is a tree edge
+        std::vector<NodeID> cycle(cactus->n(), UNDEFINED_NODE);
+        NodeID num_cycles = 0;
 
-        while (!nodes.empty()) {
-            NodeID n = nodes.front();
-            nodes.pop();
-            NodeID myRoot = std::get<1>(parents[n]);
-            for (EdgeID e : cactus->edges_of(n)) {
-                auto [tgt, wgt] = cactus->getEdge(n, e);
-                NodeID tgtRoot = std::get<1>(parents[tgt]);
-                if (tgtRoot != UNDEFINED_NODE && tgtRoot != myRoot) {
-                    // found path!
-                    std::unordered_set<NodeID> pathST;
-                    pathST.insert(tgt);
-                    pathST.insert(n);
-                    NodeID nToS = myRoot == s ? n : tgt;
-                    bool onTree = std::get<2>(parents[n]);
-                    while (nToS != s) {
-                        nToS = std::get<0>(parents[nToS]);
-                        if (onTree || std::get<2>(parents[nToS]))
-                            pathST.insert(nToS);
-                        onTree = std::get<2>(parents[nToS]);
-                    }
-                    NodeID tgtToT = myRoot == s ? tgt : n;
-                    onTree = std::get<2>(parents[tgt]);
-                    while (tgtToT != t) {
-                        tgtToT = std::get<0>(parents[tgtToT]);
-                        if (onTree || std::get<2>(parents[tgtToT]))
-                            pathST.insert(tgtToT);
-                        onTree = std::get<2>(parents[tgtToT]);
-                    }
-                    return pathST;
-                }
+        std::vector<std::pair<NodeID, EdgeID> > stack;
+        stack.emplace_back(s, 0);
+        parent[s] = s;
+
+        while (!stack.empty()) {
+            auto [n, e] = stack.back();
+            if (e >= cactus->get_first_invalid_edge(n)) {
+                stack.pop_back();
+                continue;
+            }
+            stack.back().second++;
+
+            if (e == parent_edge[n])
+                continue;
 
-                if (tgtRoot == UNDEFINED_NODE) {
-                    parents[tgt] = std::make_tuple(n, myRoot, wgt == mincut);
-                    nodes.push(tgt);
+            NodeID tgt = cactus->getEdgeTarget(n, e);
+            if (parent[tgt] == UNDEFINED_NODE) {
+                parent[tgt] = n;
+                parent_edge[tgt] = cactus->getReverseEdge(n, e);
+                depth[tgt] = depth[n] + 1;
+                stack.emplace_back(tgt, 0);
+            } else if (depth[tgt] < depth[n]) {
+                // every back edge closes one cycle
+                for (NodeID c = n; c != tgt; c = parent[c]) {
+                    cycle[c] = num_cycles;
                 }
+                num_cycles++;
             }
         }
 
-        LOG1 << "Error: didn't find path!";
-        return std::unordered_set<NodeID> { };
+        if (parent[t] == UNDEFINED_NODE) {
+            LOG1 << "Error: didn't find path!";
+            return std::unordered_set<NodeID> { };
+        }
+
+        std::unordered_set<NodeID> pathST = { s, t };
+        for (NodeID n = t; parent[n] != s; n = parent[n]) {
+            if (cycle[n] == UNDEFINED_NODE || cycle[n] != cycle[parent[n]]) {
+                pathST.insert(parent[n]);
+            }
+        }
+        return pathST;
     }
 };
diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index c4b1a0c..9d3d0c2 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -109,7 +109,7 @@ class dynamic_mincut {
                 }
             } else {
                 auto vtxset = cactus_path::findPath(out_cactus, sCactusPos,
-                                                    tCactusPos, current_cut);
+                                                    tCactusPos);
                 if (vtxset.size() == out_cactus->n()) {
                     LOGC(verbose) << "full recompute";
                     checkCacheAndRecompute();
@@ -163,7 +163,7 @@ class dynamic_mincut {
             NodeID tCactusPos = cachedCactus[mincut]->getCurrentPosition(t);
             if (sCactusPos != tCactusPos) {
                 auto vtxset = cactus_path::findPath(
-                    cachedCactus[mincut], sCactusPos, tCactusPos, current_cut);
+                    cachedCactus[mincut], sCactusPos, tCactusPos);
                 if (vtxset.size() == cachedCactus[mincut]->n()) {
                     auto [cut, outg, b] = cactus.findAllMincuts(original_graph);
                     callsOfStaticAlgorithm++;
-- 
2.43.0


From 4036794e10180292316055db3bc949d725b73779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 34/83] fix: dynamic minimum cut: caching a value again must
 keep the count and the earlier insertions

putIntoCache counted a cactus twice when one with the same value was cached
already, and dropped the insertions that larger cached cacti still need
---
 .../global_mincut/dynamic/dynamic_mincut.h       | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index 9d3d0c2..2f9562d 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -330,7 +330,6 @@ class dynamic_mincut {
     }
 
     void putIntoCache(mutableGraphPtr cactusToCache, EdgeWeight cactusCut) {
-        numCachedMincuts++;
         if (cactusCut < lowestCachedMincut) {
             lowestCachedMincut = cactusCut;
         }
@@ -341,6 +340,21 @@ class dynamic_mincut {
             currentlyCaching.resize(cactusCut + 1, false);
         }
 
+        if (currentlyCaching[cactusCut]) {
+            // the new cactus replaces the cached one. Larger cached cacti still
+            // depend on the edges that were inserted before.
+            for (size_t i = cactusCut + 1; i < currentlyCaching.size(); ++i) {
+                if (currentlyCaching[i]) {
+                    cachedInserts[i].insert(cachedInserts[i].end(),
+                                            cachedInserts[cactusCut].begin(),
+                                            cachedInserts[cactusCut].end());
+                    break;
+                }
+            }
+        } else {
+            numCachedMincuts++;
+        }
+
         cachedCactus[cactusCut] = cactusToCache;
         cachedInserts[cactusCut].clear();
         currentlyCaching[cactusCut] = true;
-- 
2.43.0


From 2c504973c146a8e6473159a26c5ace85d8d85e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:33 +0000
Subject: [PATCH 35/83] fix: cactus: vertices set aside with their minimum
 degree block must not keep their position

They still referred to the contracted vertex, so a later step put them into the
cactus of the rest of the graph, too
---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 14a9f97..24cd9e6 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -187,6 +187,10 @@ class recursive_cactus {
                 for (NodeID n : elementsInOther) {
                     G->setCurrentPosition(n, contracted_v);
                 }
+                // until they are re-inserted, vertices of 'ctr' are not in G
+                for (NodeID n : elementsInCtr) {
+                    G->setCurrentPosition(n, UNDEFINED_NODE);
+                }
 
                 VIECUT_ASSERT_TRUE(graph_modification::isCNCR(G, mincut));
                 auto ret = recursiveCactus(G, depth + 1);
-- 
2.43.0


From 0396146657ff4fd0e39f1d56d6e614e052821b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 36/83] fix: dynamic minimum cut: repeated insertion of an edge
 gave wrong cuts

The static algorithms (triangle tests, edge contraction) need graphs without
parallel edges, so they now get a copy of the graph in which parallel edges are
merged
---
 .../global_mincut/dynamic/dynamic_mincut.h    | 20 ++++++++---
 lib/data_structure/mutable_graph.h            | 34 +++++++++++++++++++
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index 2f9562d..be6afa2 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -60,11 +60,11 @@ class dynamic_mincut {
 
     EdgeWeight initialize(mutableGraphPtr graph) {
         timer t;
-        auto [cut, outgraph, balanced] = cactus.findAllMincuts(graph);
+        original_graph = graph;
+        auto [cut, outgraph, balanced] = cactus.findAllMincuts(simpleGraph());
         numCachedMincuts = 0;
         callsOfStaticAlgorithm = 1;
         lowestCachedMincut = UNDEFINED_EDGE;
-        original_graph = graph;
         out_cactus = outgraph;
         current_cut = cut;
         flow_problem_id = random_functions::next();
@@ -77,7 +77,7 @@ class dynamic_mincut {
         EdgeWeight mincut = UNDEFINED_NODE;
         if (lowestCachedMincut != UNDEFINED_EDGE) {
             noi_minimum_cut<mutableGraphPtr> noi;
-            mincut = noi.perform_minimum_cut(original_graph);
+            mincut = noi.perform_minimum_cut(simpleGraph());
         }
 
         if (mincut == lowestCachedMincut &&
@@ -85,7 +85,7 @@ class dynamic_mincut {
             buildCactusFromCache(mincut);
         } else {
             auto [cut, outg, b] = cactus.findAllMincuts(
-                original_graph, mincut);
+                simpleGraph(), mincut);
             callsOfStaticAlgorithm++;
             out_cactus = outg;
             current_cut = cut;
@@ -165,7 +165,7 @@ class dynamic_mincut {
                 auto vtxset = cactus_path::findPath(
                     cachedCactus[mincut], sCactusPos, tCactusPos);
                 if (vtxset.size() == cachedCactus[mincut]->n()) {
-                    auto [cut, outg, b] = cactus.findAllMincuts(original_graph);
+                    auto [cut, outg, b] = cactus.findAllMincuts(simpleGraph());
                     callsOfStaticAlgorithm++;
                     out_cactus = outg;
                     current_cut = cut;
@@ -329,6 +329,16 @@ class dynamic_mincut {
         return current_cut;
     }
 
+    // the static algorithms need a graph that has no parallel edges
+    mutableGraphPtr simpleGraph() {
+        if (!original_graph->hasParallelEdges()) {
+            return original_graph;
+        }
+        auto simple_graph = std::make_shared<mutable_graph>(*original_graph);
+        simple_graph->mergeParallelEdges();
+        return simple_graph;
+    }
+
     void putIntoCache(mutableGraphPtr cactusToCache, EdgeWeight cactusCut) {
         if (cactusCut < lowestCachedMincut) {
             lowestCachedMincut = cactusCut;
diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 8d2a078..70e1a2d 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -442,6 +442,40 @@ class mutable_graph {
         num_edges -= 2;
     }
 
+    bool hasParallelEdges() const {
+        std::vector<NodeID> seen_from(number_of_nodes(), UNDEFINED_NODE);
+        for (NodeID n : nodes()) {
+            for (EdgeID e : edges_of(n)) {
+                NodeID t = getEdgeTarget(n, e);
+                if (seen_from[t] == n) {
+                    return true;
+                }
+                seen_from[t] = n;
+            }
+        }
+        return false;
+    }
+
+    // replace parallel edges by one edge that has the sum of their weights
+    void mergeParallelEdges() {
+        std::vector<NodeID> seen_from(number_of_nodes(), UNDEFINED_NODE);
+        std::vector<EdgeID> first_edge(number_of_nodes(), UNDEFINED_EDGE);
+        for (NodeID n : nodes()) {
+            EdgeID e = get_first_edge(n);
+            while (e < get_first_invalid_edge(n)) {
+                auto [t, wgt] = getEdge(n, e);
+                if (seen_from[t] == n) {
+                    EdgeID f = first_edge[t];
+                    setEdgeWeight(n, f, getEdgeWeight(n, f) + wgt);
+                    deleteEdge(n, e);
+                } else {
+                    seen_from[t] = n;
+                    first_edge[t] = e++;
+                }
+            }
+        }
+    }
+
     void mergeEdgeSparse(NodeID node, NodeID target, EdgeID ed) {
         NodeID e_target = getEdgeTarget(target, ed);
         EdgeWeight e_weight = getEdgeWeight(target, ed);
-- 
2.43.0


From 246465261729b0cfb4587ba14837fa83d7c92904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:49 +0000
Subject: [PATCH 37/83] fix: dynamic minimum cut: initialize must forget the
 cached cacti of an earlier graph

---
 lib/algorithms/global_mincut/dynamic/dynamic_mincut.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index be6afa2..2e5103b 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -63,6 +63,9 @@ class dynamic_mincut {
         original_graph = graph;
         auto [cut, outgraph, balanced] = cactus.findAllMincuts(simpleGraph());
         numCachedMincuts = 0;
+        cachedCactus.clear();
+        cachedInserts.clear();
+        currentlyCaching.clear();
         callsOfStaticAlgorithm = 1;
         lowestCachedMincut = UNDEFINED_EDGE;
         out_cactus = outgraph;
-- 
2.43.0


From deb85735e7a8ec092229857ed85c4c9990f1df14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:45 +0000
Subject: [PATCH 38/83] fix: graph reader accepted files without a valid header

An empty file or one ending inside the leading comments left the counts
uninitialised or never returned, and counts beyond the range of NodeID
were truncated silently.
---
 lib/io/graph_io.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a156fee..8043066 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -144,20 +144,27 @@ class graph_io {
             exit(2);
         }
 
-        uint64_t nmbNodes;
-        uint64_t nmbEdges;
+        uint64_t nmbNodes = 0;
+        uint64_t nmbEdges = 0;
 
-        std::getline(instream, line);
         // skip comments
-        while (line[0] == '%') {
-            std::getline(instream, line);
-        }
+        do {
+            if (!std::getline(instream, line)) {
+                malformedFile(file, "no header");
+            }
+        } while (line[0] == '%');
 
         int ew = 0;
         std::stringstream ss(line);
-        ss >> nmbNodes;
-        ss >> nmbEdges;
-        ss >> ew;
+        if (!(ss >> nmbNodes) || !(ss >> nmbEdges)) {
+            malformedFile(file, "invalid header");
+        }
+        if (!(ss >> ew) && !ss.eof()) {
+            malformedFile(file, "invalid format in header");
+        }
+        if (nmbNodes >= std::numeric_limits<NodeID>::max()) {
+            malformedFile(file, "too many vertices");
+        }
 
         bool read_ew = false;
 
@@ -369,6 +376,12 @@ class graph_io {
     }
 
  private:
+    [[noreturn]] static void malformedFile(const std::string& file,
+                                           const std::string& reason) {
+        std::cerr << "Error reading " << file << ": " << reason << std::endl;
+        exit(3);
+    }
+
 // orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
     static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
         uint64_t x = 0;
-- 
2.43.0


From f790211efb86e0431de296a980da62aa62a3923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:45 +0000
Subject: [PATCH 39/83] fix: graph reader misread lines with blanks, missing
 weights, self-loops or vertex weights

Several blanks or a tab between two numbers ended the line, a weight
missing at the end of a line was read from behind the end of the string,
the weight of a self-loop was taken for the next neighbour, and so were
the vertex weights of the formats 10 and 11.
---
 lib/io/graph_io.h | 63 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 8043066..5224374 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -166,12 +166,17 @@ class graph_io {
             malformedFile(file, "too many vertices");
         }
 
-        bool read_ew = false;
-
-        if (ew == 1) {
-            read_ew = true;
-        } else if (ew == 11) {
-            read_ew = true;
+        if (ew < 0 || ew > 111 || ew % 10 > 1 || ew / 10 % 10 > 1) {
+            malformedFile(file, "unknown format in header");
+        }
+        // format is a combination of 1 (edge weights), 10 (vertex weights, as
+        // many as given after the format) and 100 (vertex sizes)
+        const bool read_ew = (ew % 10 == 1);
+        uint64_t skip_values = ew / 100;
+        if (ew / 10 % 10 == 1) {
+            uint64_t num_weights = 1;
+            ss >> num_weights;
+            skip_values += ss.fail() ? 1 : num_weights;
         }
         nmbEdges *= 2;  // since we have forward and backward edges
 
@@ -190,14 +195,20 @@ class graph_io {
             G->setPartitionIndex(node, 0);
 
             size_t line_ptr = 0;
+            uint64_t value;
 
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
+            for (uint64_t i = 0; i < skip_values; ++i) {
+                if (!nextNumber(line, &line_ptr, &value)) {
+                    malformedFile(file, "vertex weight missing");
+                }
+            }
 
-            while (line_ptr < line.size()) {
-                NodeID target = fast_atoi(line, &line_ptr);
-                if (!target) break;
+            while (nextNumber(line, &line_ptr, &value)) {
+                NodeID target = value;
+                EdgeWeight edge_weight = 1;
+                if (read_ew && !nextNumber(line, &line_ptr, &edge_weight)) {
+                    malformedFile(file, "edge weight missing");
+                }
                 // check for self-loops
                 if (target - 1 == node) {
                     LOG0 << "The graph file contains self-loops. "
@@ -206,14 +217,14 @@ class graph_io {
                     continue;
                 }
 
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
                 edge_counter++;
                 G->new_edge(node, target - 1, edge_weight);
             }
 
+            if (line_ptr < line.size()) {
+                malformedFile(file, "not a number: " + line);
+            }
+
             if (instream.eof()) {
                 break;
             }
@@ -382,6 +393,26 @@ class graph_io {
         exit(3);
     }
 
+    // reads the number at line_ptr, after any number of blanks. Returns false
+    // when there is none. At the end of the line, line_ptr is line.size().
+    static bool nextNumber(const std::string& line, size_t* line_ptr,
+                           uint64_t* value) {
+        *line_ptr = std::min(*line_ptr, line.size());
+        while (*line_ptr < line.size()
+               && (line[*line_ptr] == ' ' || line[*line_ptr] == '\t'
+                   || line[*line_ptr] == '\r')) {
+            ++(*line_ptr);
+        }
+
+        if (*line_ptr == line.size()
+            || line[*line_ptr] < '0' || line[*line_ptr] > '9') {
+            return false;
+        }
+
+        *value = fast_atoi(line, line_ptr);
+        return true;
+    }
+
 // orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
     static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
         uint64_t x = 0;
-- 
2.43.0


From 81d1c0aa36994f313e80159481aa56e21697f953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:45 +0000
Subject: [PATCH 40/83] fix: graph reader wrote out of bounds for vertices that
 do not exist

Neighbours beyond the number of vertices and additional lines were used
as indices without a check.
---
 lib/io/graph_io.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 5224374..0eedd77 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -190,6 +190,10 @@ class graph_io {
                 continue;
             }
 
+            if (node_counter == nmbNodes) {
+                malformedFile(file, "more lines than vertices");
+            }
+
             NodeID node = G->new_node();
             node_counter++;
             G->setPartitionIndex(node, 0);
@@ -204,6 +208,10 @@ class graph_io {
             }
 
             while (nextNumber(line, &line_ptr, &value)) {
+                if (value == 0 || value > nmbNodes) {
+                    malformedFile(file, "vertex does not exist: "
+                                  + std::to_string(value));
+                }
                 NodeID target = value;
                 EdgeWeight edge_weight = 1;
                 if (read_ew && !nextNumber(line, &line_ptr, &edge_weight)) {
-- 
2.43.0


From 869f5a23f7a188bc17168bae45af43de6970511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:45 +0000
Subject: [PATCH 41/83] fix: vector reader never returned on comments and read
 errors

It also dropped a last line that does not end in a newline and read a
line without a number as 0.
---
 lib/io/graph_io.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 0eedd77..575c0b9 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -370,15 +370,24 @@ class graph_io {
             exit(5);
         }
 
-        std::getline(instream, line);
-        while (!instream.eof()) {
-            if (line[0] == '%') {         // Comment
+        while (std::getline(instream, line)) {
+            if (!line.empty() && line[0] == '%') {         // Comment
                 continue;
             }
 
-            vectortype value = (vectortype)atof(line.c_str());
+            char* end;
+            vectortype value = (vectortype)strtod(line.c_str(), &end);
+            if (end == line.c_str()) {
+                std::cerr << "Error reading vectorfile " << filename
+                          << ": not a number: " << line << std::endl;
+                exit(5);
+            }
             vec.emplace_back(value);
-            std::getline(instream, line);
+        }
+
+        if (instream.bad()) {
+            std::cerr << "Error reading vectorfile " << filename << std::endl;
+            exit(5);
         }
 
         instream.close();
-- 
2.43.0


From 5d723ac823fb337152065872e345a40cb4fd71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 42/83] fix: edge list reader read behind lines with few
 columns and hid errors

Lines without a timestamp were read beyond their end, empty lines became
edges of a vertex -1, and a missing file or a read error gave an empty or
shortened list of edges.
---
 lib/io/graph_io.h | 57 +++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 575c0b9..2ff3564 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -72,6 +72,10 @@ class graph_io {
         std::string line;
         std::ifstream instream(file.c_str());
         NodeID numVtxs = 0;
+        if (!instream) {
+            std::cerr << "Error opening " << file << std::endl;
+            exit(2);
+        }
 
         while (std::getline(instream, line)) {
             if (line[0] == 'p') {
@@ -82,42 +86,53 @@ class graph_io {
             }
 
             size_t line_ptr = 0;
+            uint64_t source, target;
+            bool has_source = nextNumber(line, &line_ptr, &source);
+            if (!has_source && line_ptr == line.size()) {     // empty line
+                continue;
+            }
 
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
+            if (!has_source || !nextNumber(line, &line_ptr, &target)) {
+                malformedFile(file, "not an edge: " + line);
+            }
 
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            int64_t wgt;
-            uint64_t timestamp;
+            if (std::min(source, target) == 0 || std::max(source, target)
+                >= std::numeric_limits<NodeID>::max()) {
+                malformedFile(file, "invalid vertex: " + line);
+            }
+
+            int64_t wgt = 1;
+            uint64_t timestamp = 0;
+            uint64_t number = 0;
 
             // remove additional whitespaces inbetween
-            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
+            while (line_ptr < line.size()
+                   && (line[line_ptr] == ' ' || line[line_ptr] == '\t'))
                 ++line_ptr;
 
-            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
+            if (line_ptr < line.size()
+                && (line[line_ptr] == '+' || line[line_ptr] == '-')) {
                 bool isNegative = line[line_ptr] == '-';
                 line_ptr++;
-                wgt = fast_atoi(line, &line_ptr);
+                if (nextNumber(line, &line_ptr, &number)) {
+                    wgt = number;
+                }
                 if (isNegative) {
                     wgt = (-1) * wgt;
                 }
-                timestamp = fast_atoi(line, &line_ptr);
-            } else {
-                wgt = 1;
-                timestamp = fast_atoi(line, &line_ptr);
-                if (line_ptr < line.size()) {
+                nextNumber(line, &line_ptr, &timestamp);
+            } else if (nextNumber(line, &line_ptr, &timestamp)) {
+                if (nextNumber(line, &line_ptr, &number)) {
                     wgt = timestamp;
-                    timestamp = fast_atoi(line, &line_ptr);
+                    timestamp = number;
                 }
             }
 
-            edges.emplace_back(source, target, wgt, timestamp);
+            edges.emplace_back(source - 1, target - 1, wgt, timestamp);
 
             NodeID largerVtx = std::max(source, target);
-            if (largerVtx >= numVtxs) {
-                numVtxs = largerVtx + 1;
+            if (largerVtx > numVtxs) {
+                numVtxs = largerVtx;
             }
 
             if (instream.eof()) {
@@ -125,6 +140,10 @@ class graph_io {
             }
         }
 
+        if (instream.bad()) {
+            malformedFile(file, "read error");
+        }
+
         std::sort(edges.begin(), edges.end(),
                   [](const auto& e1, const auto& e2) {
                       return std::get<3>(e1) < std::get<3>(e2);
-- 
2.43.0


From 782e771ee824d05f702fc7c53a9af95de5efba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 43/83] fix: edge list reader reordered updates with equal
 timestamps

An insertion and a deletion of the same edge with the same timestamp
could change places.
---
 lib/io/graph_io.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 2ff3564..e7ebfe0 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -144,10 +144,11 @@ class graph_io {
             malformedFile(file, "read error");
         }
 
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
+        // updates with equal timestamps keep the order of the file
+        std::stable_sort(edges.begin(), edges.end(),
+                         [](const auto& e1, const auto& e2) {
+                             return std::get<3>(e1) < std::get<3>(e2);
+                         });
 
         return std::pair(numVtxs, edges);
     }
-- 
2.43.0


From ec733c1e3a383319c15562356f96ac6e48b4d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:16 +0000
Subject: [PATCH 44/83] fix: DIMACS reader ignored the name of the format,
 comments and weights

'p FORMAT n m', which is also what writeGraphDimacsKS writes, was read as
a graph with 0 vertices, 'c' lines as edges, and all weights as 1.
---
 lib/io/graph_io.h | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index e7ebfe0..f53bbcb 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -45,23 +45,50 @@ class graph_io {
         std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
         std::string line;
         std::ifstream instream(file.c_str());
-        std::getline(instream, line);
-        size_t line_ptr = 2;
-        NodeID numV = fast_atoi(line, &line_ptr);
-
+        if (!instream) {
+            std::cerr << "Error opening " << file << std::endl;
+            exit(2);
+        }
+        NodeID numV = 0;
         uint64_t counter = 1;
+
         while (std::getline(instream, line)) {
-            line_ptr = 2;
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            if (target > source) {
-                edges.emplace_back(source, target, 1, counter++);
+            size_t line_ptr = 1;
+            if (line[0] == 'p') {
+                uint64_t number = 0;
+                if (!nextNumber(line, &line_ptr, &number)) {
+                    // skip name of format
+                    line_ptr = line.find_first_of(" \t", line_ptr);
+                    if (!nextNumber(line, &line_ptr, &number)) {
+                        malformedFile(file, "invalid header: " + line);
+                    }
+                }
+                numV = number;
+            } else if (line.find_first_not_of(" \t\r") != std::string::npos
+                       && line[0] != 'c' && line[0] != '%') {
+                uint64_t source = 0, target = 0, weight = 1;
+                if (!nextNumber(line, &line_ptr, &source)
+                    || !nextNumber(line, &line_ptr, &target)
+                    || std::min(source, target) == 0
+                    || std::max(source, target) > numV) {
+                    malformedFile(file, "not an edge: " + line);
+                }
+                nextNumber(line, &line_ptr, &weight);
+                if (target > source) {
+                    edges.emplace_back(source - 1, target - 1, weight,
+                                       counter++);
+                }
             }
 
             if (instream.eof()) {
                 break;
             }
         }
+
+        if (instream.bad()) {
+            malformedFile(file, "read error");
+        }
+
         return std::make_pair(numV, edges);
     }
 
@@ -78,7 +105,7 @@ class graph_io {
         }
 
         while (std::getline(instream, line)) {
-            if (line[0] == 'p') {
+            if (line[0] == 'p' || line[0] == 'c') {
                 return readDimacs(file);
             }
             if (line[0] == '%') {     // a comment in the file
-- 
2.43.0


From 8db9ba331403c64757af30ca31fa73e0d6237d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:09 +0000
Subject: [PATCH 45/83] fix: graph reader ignored read errors

A read error after the last vertex line hid the rest of the file.
---
 lib/io/graph_io.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index f53bbcb..7e2dc1c 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -285,6 +285,10 @@ class graph_io {
             }
         }
 
+        if (instream.bad()) {
+            malformedFile(file, "read error");
+        }
+
         if (edge_counter != (EdgeID)nmbEdges) {
             std::cerr << "number of specified edges mismatch" << std::endl;
             std::cerr << edge_counter << " " << nmbEdges << std::endl;
-- 
2.43.0


From 371ad370c8ff6e9c7da8c40aa2885ec9cc430522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 46/83] fix: writers reported success when the file could not
 be written

A full disk, a failing write or a file that cannot be created went
unnoticed and left a missing or truncated file behind.
---
 .../global_mincut/cactus/cactus_mincut.h      |  2 +-
 lib/io/graph_io.h                             | 38 +++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 43f9ae5..a2c0682 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -250,5 +250,5 @@ void _write_cactus_graphml_file(mutableGraphPtr cactus, const std::string& cactu
 
     std::ofstream cactus_file(cactus_filename);
     cactus_file << oss.str();
-    cactus_file.close();
+    graph_io::finishFile(&cactus_file, cactus_filename);
 }
diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 7e2dc1c..4892e75 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -324,8 +324,7 @@ class graph_io {
             f << std::endl;
         }
 
-        f.close();
-        return 0;
+        return finishFile(&f, filename);
     }
 
     static
@@ -341,8 +340,7 @@ class graph_io {
             f << std::endl;
         }
 
-        f.close();
-        return 0;
+        return finishFile(&f, filename);
     }
 
     static
@@ -362,12 +360,11 @@ class graph_io {
             }
         }
 
-        f.close();
-        return 0;
+        return finishFile(&f, filename);
     }
 
-    static void writeCut(graphAccessPtr G,
-                         std::string filename) {
+    static int writeCut(graphAccessPtr G,
+                        std::string filename) {
         std::ofstream f(filename.c_str());
         LOG1 << "writing partition to " << filename << " ... ";
 
@@ -375,11 +372,11 @@ class graph_io {
             f << G->getNodeInCut(node) << std::endl;
         }
 
-        f.close();
+        return finishFile(&f, filename);
     }
 
-    static void writeCut(mutableGraphPtr G,
-                         std::string filename) {
+    static int writeCut(mutableGraphPtr G,
+                        std::string filename) {
         std::ofstream f(filename.c_str());
         LOG1 << "writing partition to " << filename << " ... ";
 
@@ -387,7 +384,7 @@ class graph_io {
             f << G->getNodeInCut(node) << std::endl;
         }
 
-        f.close();
+        return finishFile(&f, filename);
     }
 
     static std::shared_ptr<flow_graph> createFlowGraph(
@@ -446,12 +443,23 @@ class graph_io {
     }
 
     template <typename vectortype>
-    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
+    int writeVector(const std::vector<vectortype>& vec, std::string filename) {
         std::ofstream f(filename.c_str());
-        for (unsigned i = 0; i < vec.size(); ++i) {
+        for (size_t i = 0; i < vec.size(); ++i) {
             f << vec[i] << std::endl;
         }
-        f.close();
+        return finishFile(&f, filename);
+    }
+
+    // closes a file and returns 0 if everything was written to it, prints an
+    // error and returns 1 otherwise
+    static int finishFile(std::ofstream* f, const std::string& filename) {
+        f->close();
+        if (!*f) {
+            std::cerr << "Error writing " << filename << std::endl;
+            return 1;
+        }
+        return 0;
     }
 
  private:
-- 
2.43.0


From f5d6647721f40ef07d92a1d5245402b27f5ed3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 47/83] fix: parallel cactus algorithm ignored the name of the
 cactus file

No file was written and no error reported.
---
 lib/algorithms/global_mincut/cactus/cactus_mincut.h | 2 +-
 lib/parallel/algorithm/parallel_cactus.h            | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index a2c0682..75f1b8c 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -198,7 +198,7 @@ class cactus_mincut : public minimum_cut {
 };
 
 
-void _write_cactus_graphml_file(mutableGraphPtr cactus, const std::string& cactus_filename) {
+inline void _write_cactus_graphml_file(mutableGraphPtr cactus, const std::string& cactus_filename) {
     std::ostringstream oss;
 
     oss << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index e6c1d23..ba07062 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -22,6 +22,7 @@
 #include <utility>
 #include <vector>
 
+#include "algorithms/global_mincut/cactus/cactus_mincut.h"
 #include "algorithms/global_mincut/cactus/most_balanced_minimum_cut.h"
 #include "algorithms/global_mincut/cactus/recursive_cactus.h"
 #include "algorithms/global_mincut/minimum_cut_helpers.h"
@@ -215,6 +216,12 @@ class parallel_cactus : public minimum_cut {
             most_balanced_minimum_cut<GraphPtr> mbmc;
             mb_edges = mbmc.findCutFromCactus(out_graph, mincut, graphs[0]);
         }
+
+        if (configuration::getConfig()->cactus_filename != "") {
+            _write_cactus_graphml_file(
+                out_graph, configuration::getConfig()->cactus_filename);
+        }
+
         return std::make_tuple(mincut, out_graph, mb_edges);
     }
 };
-- 
2.43.0


From 3127062d47af58c6b2be4d47a90cf827ba7d9e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 48/83] fix: karger-stein also takes a mutable graph, so that
 'mincut ks' runs

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 5d9bdc4..6e01f9d 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -24,6 +24,7 @@
 #include "algorithms/global_mincut/minimum_cut.h"
 #include "algorithms/global_mincut/noi_minimum_cut.h"
 #include "data_structure/graph_access.h"
+#include "data_structure/mutable_graph.h"
 #include "tools/random_functions.h"
 #include "tools/timer.h"
 
@@ -82,6 +83,18 @@ class ks_minimum_cut : public minimum_cut {
         return mincut;
     }
 
+    EdgeWeight perform_minimum_cut(mutableGraphPtr G) {
+        if (!G) {
+            return -1;
+        }
+        graphAccessPtr graph = G->to_graph_access();
+        EdgeWeight mincut = perform_minimum_cut(graph);
+        for (NodeID n : G->nodes()) {
+            G->setNodeInCut(n, graph->getNodeInCut(n));
+        }
+        return mincut;
+    }
+
     NodeID sample_contractible(graphAccessPtr G,
                                NodeID currentN,
                                union_find* uf,
-- 
2.43.0


From 405998f43ce5d73d1d6e263e53842b9d88ca761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 49/83] fix: 'mincut -q' selects the priority queue

---
 app/mincut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/mincut.cpp b/app/mincut.cpp
index b8b3034..1051941 100644
--- a/app/mincut.cpp
+++ b/app/mincut.cpp
@@ -50,7 +50,7 @@ int main(int argn, char** argv) {
     cmdl.add_stringlist('p', "proc", procs, "number of processes");
 #endif
     cmdl.add_param_string("algo", cfg->algorithm, "algorithm name");
-    cmdl.add_string('q', "pq", cfg->queue_type,
+    cmdl.add_string('q', "pq", cfg->pq,
                     "name of priority queue implementation");
     cmdl.add_size_t('i', "iter", num_iterations, "number of iterations");
     cmdl.add_bool('l', "disable_limiting", cfg->disable_limiting,
-- 
2.43.0


From ec48de8065b82a83e95a520f94f736c9ea2ecf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 50/83] fix: 'mincut -b' writes the cut of a disconnected graph

---
 app/mincut.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/mincut.cpp b/app/mincut.cpp
index 1051941..ad73023 100644
--- a/app/mincut.cpp
+++ b/app/mincut.cpp
@@ -133,8 +133,9 @@ int main(int argn, char** argv) {
                          << "Otherwise it cannot be printed";
                     exit(1);
                 }
-                if (cfg->find_most_balanced_cut == false) {
+                if (cfg->find_most_balanced_cut == false || cut == 0) {
                     // most balanced cut already prints inside of algorithm
+                    // (if the graph is connected)
                     graph_io::writeCut(G, cfg->output_path);
                 }
             }
-- 
2.43.0


From 9928d57f05ce122b7969d3340f57754795a56911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:34 +0000
Subject: [PATCH 51/83] fix: random terminals are distinct vertices

---
 lib/algorithms/multicut/multiterminal_cut.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 8853ff7..de827f1 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -314,9 +314,20 @@ class multiterminal_cut {
 
     std::vector<NodeID> randomTerminals(mutableGraphPtr G) {
         std::vector<NodeID> terminals;
-        for (int i = 0; i < configuration::getConfig()->random_k; ++i) {
-            terminals.emplace_back(random_functions::nextInt(0, G->n() - 1));
-            LOG << "Set random terminal " << terminals.back();
+        size_t k = configuration::getConfig()->random_k;
+        if (k > G->n()) {
+            LOG1 << "ERROR: " << k << " terminals in a graph with "
+                 << G->n() << " vertices. Exiting!";
+            exit(1);
+        }
+        std::vector<bool> chosen(G->n(), false);
+        while (terminals.size() < k) {
+            NodeID t = random_functions::nextInt(0, G->n() - 1);
+            if (!chosen[t]) {
+                chosen[t] = true;
+                terminals.emplace_back(t);
+                LOG << "Set random terminal " << terminals.back();
+            }
         }
         return terminals;
     }
-- 
2.43.0


From 737727fec746026f386a591c60754044280125cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:34 +0000
Subject: [PATCH 52/83] fix: distant terminals are distinct vertices

---
 lib/algorithms/multicut/multiterminal_cut.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index de827f1..e8d6589 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -336,7 +336,14 @@ class multiterminal_cut {
         std::vector<NodeID> terminals;
         size_t r = random_functions::nextInt(0, G->n() - 1);
         int dt = configuration::getConfig()->distant_terminals;
+        if (dt > static_cast<int>(G->n())) {
+            LOG1 << "ERROR: " << dt << " terminals in a graph with "
+                 << G->n() << " vertices. Exiting!";
+            exit(1);
+        }
+        std::vector<bool> chosen(G->n(), false);
         for (int i = 0; i < dt; ++i) {
+            NodeID farthest = UNDEFINED_NODE;
             std::queue<NodeID> Q;
             std::vector<bool> found(G->n(), false);
 
@@ -350,6 +357,9 @@ class multiterminal_cut {
             while (!Q.empty()) {
                 NodeID t = Q.front();
                 Q.pop();
+                if (!chosen[t]) {
+                    farthest = t;
+                }
                 for (EdgeID e : G->edges_of(t)) {
                     NodeID n = G->getEdgeTarget(t, e);
                     if (!found[n]) {
@@ -357,12 +367,17 @@ class multiterminal_cut {
                         found[n] = true;
                     }
                 }
+            }
 
-                if (Q.empty()) {
-                    terminals.emplace_back(t);
-                    break;
+            // all connected vertices are terminals already
+            if (farthest == UNDEFINED_NODE) {
+                farthest = 0;
+                while (chosen[farthest]) {
+                    farthest++;
                 }
             }
+            chosen[farthest] = true;
+            terminals.emplace_back(farthest);
         }
         return terminals;
     }
-- 
2.43.0


From 4b1bf531786b3de639e42aae75dc22257e169bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 53/83] fix: division by zero when terminal blocks are asked
 for without terminals

---
 lib/algorithms/multicut/multiterminal_cut.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index e8d6589..ed0cc38 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -49,7 +49,7 @@ class multiterminal_cut {
 
             config->num_terminals = terminals.size();
 
-            if (config->preset_percentage > 0) {
+            if (config->preset_percentage > 0 && terminals.size() > 0) {
                 NodeID blocksize = G->n() / terminals.size();
                 size_t desired = blocksize * config->preset_percentage / 100;
                 size_t minimum_size = 1;
@@ -421,7 +421,7 @@ class multiterminal_cut {
         auto o = graph_io::readVector<NodeID>(config->partition_file + ".pos");
         std::vector<NodeID> terminalMapping(G->n(), UNDEFINED_NODE);
         NodeID terminal_size = 1;
-        if (config->preset_percentage > 0) {
+        if (config->preset_percentage > 0 && config->num_terminals > 0) {
             NodeID blocksize = G->n() / config->num_terminals;
             size_t desired_size = blocksize * config->preset_percentage / 100;
             size_t minimum_size = 1;
-- 
2.43.0


From 0aaf3ffc8b8870f6fa12246ff7d7247a7fba738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:35 +0000
Subject: [PATCH 54/83] fix: partition files that do not match the graph are
 reported

---
 lib/algorithms/multicut/multiterminal_cut.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index ed0cc38..e7bf997 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -399,12 +399,23 @@ class multiterminal_cut {
         return terminals;
     }
 
-    std::vector<NodeID> presetFileTerminals(mutableGraphPtr) {
+    std::vector<NodeID> presetFileTerminals(mutableGraphPtr G) {
         auto config = configuration::getConfig();
         auto v = graph_io::readVector<NodeID>(config->partition_file);
         std::vector<NodeID> terminalMapping;
 
+        if (v.size() != G->n()) {
+            LOG1 << "ERROR: partition file has " << v.size() << " lines for "
+                 << G->n() << " vertices. Exiting!";
+            exit(1);
+        }
+
         for (NodeID n : v) {
+            if (n > config->num_terminals) {
+                LOG1 << "ERROR: block " << n << " in partition file for "
+                     << config->num_terminals << " terminals. Exiting!";
+                exit(1);
+            }
             if (n == config->num_terminals) {
                 terminalMapping.emplace_back(UNDEFINED_NODE);
             } else {
@@ -420,6 +431,12 @@ class multiterminal_cut {
         auto v = graph_io::readVector<NodeID>(config->partition_file);
         auto o = graph_io::readVector<NodeID>(config->partition_file + ".pos");
         std::vector<NodeID> terminalMapping(G->n(), UNDEFINED_NODE);
+        if (v.size() != G->n() || o.size() != G->n()) {
+            LOG1 << "ERROR: partition files have " << v.size() << " and "
+                 << o.size() << " lines for " << G->n()
+                 << " vertices. Exiting!";
+            exit(1);
+        }
         NodeID terminal_size = 1;
         if (config->preset_percentage > 0 && config->num_terminals > 0) {
             NodeID blocksize = G->n() / config->num_terminals;
-- 
2.43.0


From 1f774f1b5d7a6a564c8b7ab06ae4b6d7afa7e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 55/83] fix: dynamic_mincut -s with an empty list of updates

---
 app/dynamic_mincut.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/dynamic_mincut.cpp b/app/dynamic_mincut.cpp
index 09c04fe..1dd7d82 100644
--- a/app/dynamic_mincut.cpp
+++ b/app/dynamic_mincut.cpp
@@ -122,7 +122,8 @@ int main(int argn, char** argv) {
 #else
         noi_minimum_cut<mutableGraphPtr> static_alg;
 #endif
-        EdgeID previous_timestamp = std::get<3>(tempEdges[0]);
+        EdgeID previous_timestamp =
+            tempEdges.empty() ? 0 : std::get<3>(tempEdges[0]);
         EdgeWeight previous_cut = static_alg.perform_minimum_cut(G);
         size_t edgesInBatch = 0;
         for (auto [s, t, w, timestamp] : tempEdges) {
-- 
2.43.0


From 9a1f8c89b51ab2ea6340ae5521f6651f151097f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:51 +0000
Subject: [PATCH 56/83] fix: dynamic_mincut with updates of vertices that do
 not exist

---
 app/dynamic_mincut.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/dynamic_mincut.cpp b/app/dynamic_mincut.cpp
index 1dd7d82..3214272 100644
--- a/app/dynamic_mincut.cpp
+++ b/app/dynamic_mincut.cpp
@@ -105,6 +105,12 @@ int main(int argn, char** argv) {
         G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     }
 
+    if (G->n() < numV) {
+        LOG1 << "ERROR: Dynamic edges have vertices up to " << numV
+             << ", initial graph has " << G->n() << " vertices!";
+        exit(1);
+    }
+
     size_t numNodes = G->n();
     size_t initialNumEdges = G->m();
 
-- 
2.43.0


From 88626bcd35f4bb2089a56734e296aff7e5a3f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:47 +0000
Subject: [PATCH 57/83] fix: dynamic_mincut on a graph without vertices

---
 app/dynamic_mincut.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/dynamic_mincut.cpp b/app/dynamic_mincut.cpp
index 3214272..e4a9643 100644
--- a/app/dynamic_mincut.cpp
+++ b/app/dynamic_mincut.cpp
@@ -105,6 +105,11 @@ int main(int argn, char** argv) {
         G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     }
 
+    if (G->n() == 0) {
+        LOG1 << "ERROR: Graph has no vertices!";
+        exit(1);
+    }
+
     if (G->n() < numV) {
         LOG1 << "ERROR: Dynamic edges have vertices up to " << numV
              << ", initial graph has " << G->n() << " vertices!";
-- 
2.43.0


From ad00e5daea77fc4035fb061c59e5b780fda30333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:51 +0000
Subject: [PATCH 58/83] fix: mincut crashed on graphs with less than two
 vertices

---
 app/mincut.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/mincut.cpp b/app/mincut.cpp
index ad73023..5f20ee8 100644
--- a/app/mincut.cpp
+++ b/app/mincut.cpp
@@ -92,6 +92,12 @@ int main(int argn, char** argv) {
         configuration::getConfig()->graph_filename);
 
     LOG1 << "io time: " << t.elapsed();
+
+    if (G->n() < 2) {
+        LOG1 << "ERROR: A graph with " << G->n() << " vertices has no cut!";
+        exit(1);
+    }
+
     // ***************************** perform cut *****************************
 #ifdef PARALLEL
     LOGC(cfg->verbose) << "PARALLEL DEFINED!";
-- 
2.43.0


From 15dbfbf2078f8108aa5acc2b5f66552f2c7e4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 59/83] fix: dynamic_mincut on a graph with a single vertex

---
 app/dynamic_mincut.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/dynamic_mincut.cpp b/app/dynamic_mincut.cpp
index e4a9643..d5ad72c 100644
--- a/app/dynamic_mincut.cpp
+++ b/app/dynamic_mincut.cpp
@@ -105,8 +105,8 @@ int main(int argn, char** argv) {
         G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     }
 
-    if (G->n() == 0) {
-        LOG1 << "ERROR: Graph has no vertices!";
+    if (G->n() < 2) {
+        LOG1 << "ERROR: A graph with " << G->n() << " vertices has no cut!";
         exit(1);
     }
 
-- 
2.43.0


From 15d0efe8c7f91a3f03e166b1a05b6be3887a50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:35 +0000
Subject: [PATCH 60/83] fix: random matching divided by zero on isolated
 vertices

---
 lib/coarsening/sparsify.h          | 4 +++-
 lib/parallel/coarsening/sparsify.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index ca6af7f..f7b8cfc 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -64,7 +64,9 @@ class sparsify {
 
         for (NodeID n : G_in->nodes()) {
             if (edge_matching[n] == n) {
-                size_t no_try = 0;
+                // isolated vertices have no matching partner
+                size_t no_try =
+                    G_in->getUnweightedNodeDegree(n) == 0 ? MAX_TRIES : 0;
                 NodeID matchingPartner = n;
                 while (no_try < MAX_TRIES) {
                     // match with a random neighbor
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index f498f96..167a28d 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -251,7 +251,9 @@ class sparsify {
 
         for (NodeID n : G_in->nodes()) {
             if (edge_matching[n] == n) {
-                size_t no_try = 0;
+                // isolated vertices have no matching partner
+                size_t no_try =
+                    G_in->getUnweightedNodeDegree(n) == 0 ? MAX_TRIES : 0;
                 NodeID matchingPartner = n;
                 while (no_try < MAX_TRIES) {
                     // match with a random neighbor
-- 
2.43.0


From 1b89383640c13e197d8618672f3b29bd5fb37b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:35 +0000
Subject: [PATCH 61/83] fix: random matching merged vertices that already were
 coarse vertices

---
 lib/coarsening/sparsify.h          | 6 ++++--
 lib/parallel/coarsening/sparsify.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index f7b8cfc..7f671ae 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -60,7 +60,8 @@ class sparsify {
             edge_matching[n] = n;
         }
 
-        std::vector<NodeID> coarse_mapping(G_in->number_of_nodes());
+        std::vector<NodeID> coarse_mapping(G_in->number_of_nodes(),
+                                           UNDEFINED_NODE);
 
         for (NodeID n : G_in->nodes()) {
             if (edge_matching[n] == n) {
@@ -74,7 +75,8 @@ class sparsify {
                     EdgeID modulo = G_in->getUnweightedNodeDegree(n);
                     EdgeID r = s + (random_functions::next() % modulo);
                     NodeID tgt = G_in->getEdgeTarget(r);
-                    if (edge_matching[tgt] == tgt) {
+                    if (edge_matching[tgt] == tgt
+                        && coarse_mapping[tgt] == UNDEFINED_NODE) {
                         matchingPartner = tgt;
                         break;
                     }
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 167a28d..d03cf80 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -247,7 +247,8 @@ class sparsify {
             edge_matching[n] = n;
         }
 
-        std::vector<NodeID> coarse_mapping(G_in->number_of_nodes());
+        std::vector<NodeID> coarse_mapping(G_in->number_of_nodes(),
+                                           UNDEFINED_NODE);
 
         for (NodeID n : G_in->nodes()) {
             if (edge_matching[n] == n) {
@@ -263,7 +264,8 @@ class sparsify {
 
                     NodeID tgt = G_in->getEdgeTarget(r);
 
-                    if (edge_matching[tgt] == tgt) {
+                    if (edge_matching[tgt] == tgt
+                        && coarse_mapping[tgt] == UNDEFINED_NODE) {
                         matchingPartner = tgt;
                         break;
                     }
-- 
2.43.0


From 3142e888d5df21ff00d71f45974ccfec6a79b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:37 +0000
Subject: [PATCH 62/83] fix: kcore -l left out the innermost core

---
 app/kcore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/kcore.cpp b/app/kcore.cpp
index 0b44108..451036c 100644
--- a/app/kcore.cpp
+++ b/app/kcore.cpp
@@ -60,7 +60,7 @@ int main(int argn, char** argv) {
 
     if (lowest_core) {
         size_t min_core = 2;
-        for (size_t core = min_core; core < max_core; core++) {
+        for (size_t core = min_core; core <= max_core; core++) {
             if (kCores.buckets[core] != kCores.buckets[core - 1]
                 || (core == min_core)) {
                 tgts.push_back(core);
-- 
2.43.0


From 1b700080e42362bc7139f10f99e9bd1cc4c89db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:37 +0000
Subject: [PATCH 63/83] fix: kcore read outside of its arrays when the graph
 has no vertices

---
 app/kcore.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/kcore.cpp b/app/kcore.cpp
index 451036c..60efc49 100644
--- a/app/kcore.cpp
+++ b/app/kcore.cpp
@@ -55,6 +55,12 @@ int main(int argn, char** argv) {
     t.restart();
     k_cores kCores = core_decomposition::batagelj_zaversnik(G);
     std::vector<size_t> tgts;
+
+    if (G->number_of_nodes() == 0) {
+        LOG1 << "ERROR: Graph has no vertices";
+        exit(1);
+    }
+
     uint32_t max_core =
         kCores.degrees[kCores.vertices[G->number_of_nodes() - 1]];
 
-- 
2.43.0


From b96770344f19a180dde8a54e7183cfd1b513eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:37 +0000
Subject: [PATCH 64/83] fix: write errors of temporal_largest_cc and
 create_augment_edges went unnoticed

---
 app/create_augment_edges.cpp | 2 +-
 app/temporal_largest_cc.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/create_augment_edges.cpp b/app/create_augment_edges.cpp
index f195471..c770fa0 100644
--- a/app/create_augment_edges.cpp
+++ b/app/create_augment_edges.cpp
@@ -157,5 +157,5 @@ int main(int argn, char** argv) {
         f << "TIMEOUT - NOT COMPLETE!\n";
     }
 
-    f.close();
+    return graph_io::finishFile(&f, output);
 }
diff --git a/app/temporal_largest_cc.cpp b/app/temporal_largest_cc.cpp
index d300a4a..78fe488 100644
--- a/app/temporal_largest_cc.cpp
+++ b/app/temporal_largest_cc.cpp
@@ -81,5 +81,5 @@ int main(int argn, char** argv) {
         }
     }
 
-    f.close();
+    return graph_io::finishFile(&f, outpath);
 }
-- 
2.43.0


From 250ad92b9f04ff2750de483a4a97fd872ec13ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:37 +0000
Subject: [PATCH 65/83] fix: make_graph_weighted chose an edge of vertices that
 have none

---
 app/make_graph_weighted.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/make_graph_weighted.cpp b/app/make_graph_weighted.cpp
index 7557358..60d8b27 100644
--- a/app/make_graph_weighted.cpp
+++ b/app/make_graph_weighted.cpp
@@ -74,6 +74,9 @@ int main(int argn, char** argv) {
 
     size_t edges = 0;
     for (NodeID n : G->nodes()) {
+        // isolated vertices have no edge to choose
+        if (G->get_first_edge(n) == G->get_first_invalid_edge(n))
+            continue;
         // if (!covered[n]) {
         EdgeID e_highweight = random_functions::nextInt(
             G->get_first_edge(n), G->get_first_invalid_edge(n) - 1);
-- 
2.43.0


From fce6f702c7b540bcd168983713ae639e07122e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:49 +0000
Subject: [PATCH 66/83] fix: mincut_contract wanted the graph twice and ignored
 the contraction factor

---
 app/mincut_contract.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 1b118ec..37ceeb7 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -43,7 +43,7 @@ int main(int argn, char** argv) {
     tlx::CmdlineParser cmdl;
 
     int iter = 1;
-    double contraction_factor;
+    double contraction_factor = 0.9;
 
     cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
                           "path to graph file");
@@ -58,8 +58,6 @@ int main(int argn, char** argv) {
                           "algorithm name ('vc', 'noi', 'matula', 'pr', 'ks')");
 #endif
 
-    cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
-                          "path to graph file");
     cmdl.add_string('q', "pq", configuration::getConfig()->pq,
                     "name of priority queue implementation");
     cmdl.add_int('i', "iter", iter, "number of iterations");
@@ -74,6 +72,8 @@ int main(int argn, char** argv) {
     if (!cmdl.process(argn, argv))
         return -1;
 
+    configuration::getConfig()->contraction_factor = contraction_factor;
+
     timer t;
     graphAccessPtr G = graph_io::readGraphWeighted(
         configuration::getConfig()->graph_filename);
-- 
2.43.0


From b9675e084b3094e3f4ab71fc9d7da83c5f48b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 67/83] fix: weighted sampling did not end on graphs with
 several components

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 6e01f9d..3050cdb 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -140,6 +140,16 @@ class ks_minimum_cut : public minimum_cut {
             static_cast<NodeID>(static_cast<double>(currentN) * reduction),
             currentN - 2);
 
+        // edges can not reduce the graph below its number of components
+        union_find components(G->number_of_nodes());
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                components.Union(n, G->getEdgeTarget(e));
+            }
+        }
+        n_reduce = std::min(n_reduce,
+                            static_cast<NodeID>(currentN - components.n()));
+
         timer t;
         std::vector<EdgeWeight> prefixsum;
         prefixsum.reserve(G->number_of_edges());
-- 
2.43.0


From 7430697de12918f9bb33f9ea4f9b4a1dc9d625f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 68/83] fix: mincut_contract wrote a cut without any vertices

---
 app/mincut_contract.cpp            | 4 ++++
 lib/parallel/coarsening/sparsify.h | 1 +
 2 files changed, 5 insertions(+)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 37ceeb7..7bc304c 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -122,6 +122,10 @@ int main(int argn, char** argv) {
             EdgeWeight cut = mc->perform_minimum_cut(G2);
 
             if (configuration::getConfig()->save_cut) {
+                for (NodeID n : G->nodes()) {
+                    G->setNodeInCut(
+                        n, G2->getNodeInCut(G->getPartitionIndex(n)));
+                }
                 graph_io::writeCut(G,
                                    configuration::getConfig()->graph_filename
                                    + ".cut");
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index d03cf80..1348efe 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -46,6 +46,7 @@ class sparsify {
             }
 
             mapping[n] = part[part_id];
+            G->setPartitionIndex(n, mapping[n]);
         }
         return std::make_tuple(mapping, current_pid);
     }
-- 
2.43.0


From 93339f6dd25136e17bc291631a7559fefd01e7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:48 +0000
Subject: [PATCH 69/83] fix: decremental_gnp ignored the random seed

---
 app/decremental_gnp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/decremental_gnp.cpp b/app/decremental_gnp.cpp
index c512529..f1a0e4c 100644
--- a/app/decremental_gnp.cpp
+++ b/app/decremental_gnp.cpp
@@ -71,6 +71,8 @@ int main(int argn, char** argv) {
     if (!cmdl.process(argn, argv))
         return -1;
 
+    random_functions::setSeed(cfg->seed);
+
     auto G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     std::vector<std::pair<NodeID, NodeID> > decrementalEdges;
 
-- 
2.43.0


From 4a4e35a34b3d47b9d6bd6c74d016ce324b984ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:02 +0000
Subject: [PATCH 70/83] fix: mincut_contract aborted when the sampling
 contracted all vertices

---
 app/mincut_contract.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 7bc304c..c95229d 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -119,6 +119,12 @@ int main(int argn, char** argv) {
             auto G2 = sf.one_ks(G);
 
             LOGC(timing) << "Contraction: " << t.elapsed() << "s";
+
+            if (G2->number_of_nodes() < 2) {
+                LOG1 << "all vertices are contracted, no cut is left";
+                continue;
+            }
+
             EdgeWeight cut = mc->perform_minimum_cut(G2);
 
             if (configuration::getConfig()->save_cut) {
-- 
2.43.0


From ffe3e056a470308f383ef4a9d76e795769cc3d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:22 +0000
Subject: [PATCH 71/83] fix: create_augment_edges searched forever for a vertex
 that is not a neighbor

---
 app/create_augment_edges.cpp | 37 +++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/app/create_augment_edges.cpp b/app/create_augment_edges.cpp
index c770fa0..12043dc 100644
--- a/app/create_augment_edges.cpp
+++ b/app/create_augment_edges.cpp
@@ -9,6 +9,10 @@
  * Published under the MIT license in the LICENSE file.
  *****************************************************************************/
 
+#include <unordered_set>
+#include <utility>
+#include <vector>
+
 #include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
 #include "common/configuration.h"
 #include "common/definitions.h"
@@ -19,6 +23,24 @@
 #include "tlx/logger.hpp"
 #include "tools/random_functions.h"
 
+static bool hasNonNeighbor(mutableGraphPtr G, NodeID s) {
+    std::unordered_set<NodeID> neighbors;
+    for (EdgeID e : G->edges_of(s)) {
+        neighbors.insert(G->getEdgeTarget(s, e));
+    }
+    neighbors.insert(s);
+    return neighbors.size() < G->n();
+}
+
+static bool hasNonNeighbor(mutableGraphPtr G) {
+    for (NodeID n : G->nodes()) {
+        if (hasNonNeighbor(G, n)) {
+            return true;
+        }
+    }
+    return false;
+}
+
 int main(int argn, char** argv) {
     tlx::CmdlineParser cmdl;
     auto cfg = configuration::getConfig();
@@ -57,6 +79,11 @@ int main(int argn, char** argv) {
 
     auto G = graph_io::readGraphWeighted<mutable_graph>(cfg->graph_filename);
 
+    if (G->n() < 2) {
+        LOG1 << "Error: A graph with " << G->n() << " vertices has no cut!";
+        exit(1);
+    }
+
     dynamic_mincut dynmc;
     dynmc.initialize(G);
     std::vector<std::pair<NodeID, NodeID> > insEdges;
@@ -99,12 +126,20 @@ int main(int argn, char** argv) {
             NodeID s = UNDEFINED_NODE;
             NodeID t = UNDEFINED_NODE;
 
+            if (!hasNonNeighbor(original_graph)) {
+                LOG1 << "Error: No edge left to insert!";
+                exit(1);
+            }
+
             while (s == UNDEFINED_NODE) {
                 NodeID r = random_functions::nextInt(0, curr->n() - 1);
                 NodeID size = curr->numContainedVertices(r);
                 if (size > 0) {
                     NodeID r2 = random_functions::nextInt(0, size - 1);
-                    s = curr->containedVertices(r)[r2];
+                    NodeID preliminary_s = curr->containedVertices(r)[r2];
+                    if (hasNonNeighbor(original_graph, preliminary_s)) {
+                        s = preliminary_s;
+                    }
                 }
             }
 
-- 
2.43.0


From 6ac43e688b06ad2b693b0699e0263c5c1d2459f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:22 +0000
Subject: [PATCH 72/83] fix: decremental_gnp searched forever for vertices that
 are not neighbors

---
 app/decremental_gnp.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/app/decremental_gnp.cpp b/app/decremental_gnp.cpp
index f1a0e4c..89cf430 100644
--- a/app/decremental_gnp.cpp
+++ b/app/decremental_gnp.cpp
@@ -14,6 +14,7 @@
 #include <ext/alloc_traits.h>
 #include <memory>
 #include <tuple>
+#include <unordered_set>
 #include <utility>
 #include <vector>
 
@@ -76,8 +77,23 @@ int main(int argn, char** argv) {
     auto G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     std::vector<std::pair<NodeID, NodeID> > decrementalEdges;
 
+    if (G->n() < 2) {
+        LOG1 << "ERROR: A graph with " << G->n() << " vertices has no cut!";
+        exit(1);
+    }
+
     LOG1 << "Creating edges...";
     for (auto v : G->nodes()) {
+        std::unordered_set<NodeID> neighbors = { v };
+        for (EdgeID e : G->edges_of(v)) {
+            neighbors.insert(G->getEdgeTarget(v, e));
+        }
+        if (neighbors.size() + edges_per_vertex > G->n()) {
+            LOG1 << "ERROR: Not enough vertices to add " << edges_per_vertex
+                 << " edges to vertex " << v << ". Exiting!";
+            exit(1);
+        }
+
         size_t i = 0;
         while (i < edges_per_vertex) {
             NodeID r = random_functions::nextInt(0, G->n() - 1);
-- 
2.43.0


From 8ac91d3c42f81f7f908c79417f6b6165bd0d0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:22 +0000
Subject: [PATCH 73/83] fix: dynmc_from_static searched forever for edges to
 insert or remove

---
 app/dynmc_from_static.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/app/dynmc_from_static.cpp b/app/dynmc_from_static.cpp
index 1e4fe24..9d97daa 100644
--- a/app/dynmc_from_static.cpp
+++ b/app/dynmc_from_static.cpp
@@ -100,6 +100,22 @@ int main(int argn, char** argv) {
         numEdges[n] = G->getUnweightedNodeDegree(n);
     }
 
+    // edges that can be selected below
+    size_t candidates = 0;
+    for (EdgeID e : G->edges()) {
+        NodeID src = G->getEdgeSource(e);
+        NodeID tgt = G->getEdgeTarget(e);
+        if (tgt >= src && numEdges[src] > 1 && numEdges[tgt] > 1) {
+            candidates++;
+        }
+    }
+
+    if (insert_edges + remove_edges > candidates) {
+        LOG1 << "ERROR: Only " << candidates << " edges can be inserted or "
+             << "removed. Exiting!";
+        exit(1);
+    }
+
     EdgeID nextEdge = random_functions::nextInt(0, G->m() - 1);
     NodeID src = G->getEdgeSource(nextEdge);
     NodeID tgt = G->getEdgeTarget(nextEdge);
-- 
2.43.0


From a7aacc6d80ec18ad13f619a79dc2f58ab1a5f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:20 +0000
Subject: [PATCH 74/83] fix: all minimum cuts were wrong if a removed vertex
 was placed again

A component of the residual graph is copied without the vertices that were
removed from the graph before, but their positions in the copy were 0.
---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 24cd9e6..e35d64e 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -240,6 +240,10 @@ class recursive_cactus {
             graph->start_construction(blocksize + 1);
             graph->setOriginalNodes(G->getOriginalNodes());
             graph->new_empty_node();
+            // vertices that were removed from G are not in graph either
+            for (NodeID n = 0; n < graph->getOriginalNodes(); ++n) {
+                graph->setCurrentPosition(n, UNDEFINED_NODE);
+            }
             for (NodeID n : graph->nodes()) {
                 graph->setContainedVertices(n, { });
             }
-- 
2.43.0


From 1c5bd4d070ae466acf3f25f062caa6cc3f559007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:26 +0000
Subject: [PATCH 75/83] fix: contraction into the last vertex read a vertex
 that was removed

---
 lib/data_structure/mutable_graph.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 70e1a2d..2531e32 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -539,9 +539,11 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -589,9 +591,11 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -678,9 +682,11 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         // delete edge of 'node' to 'target', remap reverse
-- 
2.43.0


From 2c249776dfc353fe682cf41ebba17bc3801104df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:19 +0000
Subject: [PATCH 76/83] fix: geometric sampling used a probability outside (0,
 1)

The number of samples can reach or exceed the number of edges times the
number of threads, so that the probability was 1 or negative, which
std::geometric_distribution does not allow.
---
 lib/parallel/coarsening/sparsify.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 1348efe..25b34da 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -143,8 +143,8 @@ class sparsify {
             double prob =
                 samples / (m * configuration::getConfig()->threads - samples);
 
-            if (prob > 1) {
-                LOG1 << "WARNING: Edge Sampling Probability larger than 1.";
+            if (!(prob > 0 && prob < 1)) {
+                LOG1 << "WARNING: Edge Sampling Probability not in (0, 1).";
                 LOG1 << "Setting it to a valid value of 0.5.";
                 prob = 0.5;
             }
-- 
2.43.0


From 38ac22ab902e9ddafe00b26ef48847b3b47dd6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:19 +0000
Subject: [PATCH 77/83] fix: receiving a subproblem indexed one element behind
 the end of a vector

---
 lib/algorithms/multicut/mpi_communication.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 9fb4ecd..f31d22a 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -135,15 +135,16 @@ class mpi_communication {
             problem->mappings.emplace_back(
                 std::make_shared<std::vector<NodeID> >());
             problem->mappings[i]->insert(problem->mappings[i]->end(),
-                                         &data[next_index],
-                                         &data[next_index + map_size_i]);
+                                         data.begin() + next_index,
+                                         data.begin() + next_index
+                                         + map_size_i);
             next_index += map_size_i;
         }
 
         size_t serialsize = data[next_index++];
         std::vector<uint64_t> serial;
-        serial.insert(serial.end(), &data[next_index],
-                      &data[next_index + serialsize]);
+        serial.insert(serial.end(), data.begin() + next_index,
+                      data.begin() + next_index + serialsize);
 
         problem->graph = mutable_graph::deserialize(serial);
         reported_done = false;
-- 
2.43.0


From 9eac80f467fc2ce3a04634a74b25433f83227995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:31 +0000
Subject: [PATCH 78/83] fix: inexact multiterminal cut contracted vertex 0 when
 no terminal had an edge left

Two terminals were merged if vertex 0 was a terminal or was merged with one,
so that the solver stopped with an error (empty block).
---
 lib/algorithms/multicut/branch_multicut.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 689faf0..4ef3725 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -356,6 +356,11 @@ class branch_multicut {
                 heaviest_t = t.position;
             }
         }
+
+        // no terminal has an edge left
+        if (heaviest_weight == 0)
+            return;
+
         std::vector<bool> found(problem->graph->n(), false);
         std::unordered_set<NodeID> contractSet;
         std::unordered_set<NodeID> isOtherTerminal;
@@ -413,6 +418,10 @@ class branch_multicut {
                 }
             }
 
+            // no terminal has an edge left
+            if (lightest_weight == static_cast<EdgeWeight>(UNDEFINED_FLOW))
+                return;
+
             for (size_t i = 0; i < original_terminals.size(); ++i) {
                 if (i != lightest_oid) {
                     problem->addFinishedPair(
-- 
2.43.0


From c7e3fc98328b77033b09ee85e587363a558eecfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:31 +0000
Subject: [PATCH 79/83] fix: inexact multiterminal cut branched on an edge
 although no terminal had one

Removing the terminals of low degree can leave edges between vertices that
no terminal reaches.
---
 lib/algorithms/multicut/branch_multicut.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 4ef3725..7da3e84 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -509,7 +509,13 @@ class branch_multicut {
         }
 
         graph_contraction::deleteTermEdges(problem, original_terminals);
-        if (!problem->graph->number_of_edges()) {
+        if (problem->terminals.empty()) {
+            // nothing is left to cut, remaining vertices can be in any block
+            for (NodeID n : problem->graph->nodes()) {
+                problem->graph->setPartitionIndex(n, 0);
+            }
+        }
+        if (!problem->graph->number_of_edges() || problem->terminals.empty()) {
             problem->upper_bound = problem->deleted_weight;
             auto sol = msm.getSolution(problem);
             updateBestSolution(&sol, problem->terminals.size());
-- 
2.43.0


From 7c24471b0e21f8dccbf0523ba1427407444a8460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:01 +0000
Subject: [PATCH 80/83] fix: edge selection distance chose no edge when all
 neighbors of terminals have no other edges

---
 lib/algorithms/multicut/edge_selection.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/edge_selection.h b/lib/algorithms/multicut/edge_selection.h
index 764fa22..2620e37 100644
--- a/lib/algorithms/multicut/edge_selection.h
+++ b/lib/algorithms/multicut/edge_selection.h
@@ -45,7 +45,7 @@
 [[maybe_unused]] static std::tuple<NodeID, EdgeID> findVertexWithHighDistance(
     problemPointer problem) {
     EdgeWeight max_wgt = 0;
-    NodeID max_id_t = 0;
+    NodeID max_id_t = UNDEFINED_NODE;
     EdgeID max_id_e = 0;
     for (const auto& term : problem->terminals) {
         NodeID t = term.position;
@@ -53,7 +53,8 @@
             NodeID tgt = problem->graph->getEdgeTarget(t, e);
             EdgeWeight curr_wgt = problem->graph->getWeightedNodeDegree(tgt)
                                   - (problem->graph->getEdgeWeight(t, e));
-            if (curr_wgt > max_wgt) {
+            // neighbors without other edges have distance weight 0
+            if (curr_wgt > max_wgt || max_id_t == UNDEFINED_NODE) {
                 max_wgt = curr_wgt;
                 max_id_t = t;
                 max_id_e = e;
-- 
2.43.0


From 33d8b94e9f9157c5f259c70cb2ef9f0a8e99c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:01 +0000
Subject: [PATCH 81/83] fix: inexact multiterminal cut kept an edge to branch
 on that was contracted or deleted

---
 lib/algorithms/multicut/branch_multicut.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 7da3e84..56e092c 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -506,6 +506,8 @@ class branch_multicut {
         if (configuration::getConfig()->inexact) {
             deleteLowestDegTerminals(problem);
             contractHeaviestTerminal(problem);
+            // the edge to branch on might be gone
+            problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
         }
 
         graph_contraction::deleteTermEdges(problem, original_terminals);
-- 
2.43.0


From dae3f3b8bcb6fdc4886656b14232f1e4b3a6b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:02 +0000
Subject: [PATCH 82/83] fix: search for a random vertex in multiterminal cut
 ran once per unit of edge weight

With heavy edges it did not end in practice if there was no such vertex.
---
 lib/algorithms/multicut/maximum_flow.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index b923423..08500c5 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -137,12 +137,15 @@ class maximum_flow {
             NodeID r = random_functions::nextInt(0, problem->graph->n() - 1);
             EdgeWeight max = problem->graph->getMaxDegree();
             size_t num_tries = 0;
+            // edge weights, and thus degrees, can be arbitrarily large
+            size_t max_tries = std::min<size_t>(
+                max, 10 * static_cast<size_t>(problem->graph->n()) + 1000);
             while (((max >= (problem->graph->getWeightedNodeDegree(r)
                              + num_tries++))
                     || uf.Find(r) != r
                     || previous.count(r) > 0
                     || !active[r])
-                   && num_tries < max) {
+                   && num_tries < max_tries) {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
-- 
2.43.0


From 1084cb226b68ff1f1f7ba89ad38ddfcf094259fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:09 +0000
Subject: [PATCH 83/83] fix: edge selection connection summed weights in 16
 bits and could choose an edge that does not exist

---
 lib/algorithms/multicut/edge_selection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/edge_selection.h b/lib/algorithms/multicut/edge_selection.h
index 2620e37..7b21c10 100644
--- a/lib/algorithms/multicut/edge_selection.h
+++ b/lib/algorithms/multicut/edge_selection.h
@@ -110,8 +110,8 @@
 
 [[maybe_unused]] static std::tuple<NodeID, EdgeID> findEdgeWithManyTerminals(
     const problemPointer problem) {
-    std::unordered_map<NodeID, uint16_t> terms;
-    NodeID max_num = 0;
+    std::unordered_map<NodeID, EdgeWeight> terms;
+    EdgeWeight max_num = 0;
     NodeID max_ngbr = 0;
     std::unordered_set<NodeID> termset;
     for (const auto& term : problem->terminals) {
-- 
2.43.0

