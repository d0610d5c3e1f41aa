From 61d3cbe8e3517e3f58569a976eb4425e25f1b6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 01/69] fix: pr and matula contract a copy of the input graph

On mutable graphs both contracted the caller's graph in place, so the saved
cut did not match the reported value and the input graph was destroyed.
---
 lib/algorithms/global_mincut/matula_approx.h   | 3 ++-
 lib/algorithms/global_mincut/padberg_rinaldi.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index 3f36082..f162bfe 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -57,7 +57,8 @@ class matula_approx : public minimum_cut {
             auto uf = noi.modified_capforest(
                 graphs.back(),
                 std::max(mincut / 2, static_cast<EdgeWeight>(1)));
-            graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
+            graphs.emplace_back(
+                contraction::fromUnionFind(graphs.back(), &uf, true));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
 
diff --git a/lib/algorithms/global_mincut/padberg_rinaldi.h b/lib/algorithms/global_mincut/padberg_rinaldi.h
index 09a4b04..856eea0 100644
--- a/lib/algorithms/global_mincut/padberg_rinaldi.h
+++ b/lib/algorithms/global_mincut/padberg_rinaldi.h
@@ -54,12 +54,12 @@ class padberg_rinaldi : public minimum_cut {
                && graphs.back()->number_of_nodes() < last_nodes) {
             last_nodes = graphs.back()->number_of_nodes();
             union_find uf_34 = tests::prTests34(graphs.back(), cut);
-            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34);
+            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34, true);
             graphs.push_back(G_34);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
 
             union_find uf_12 = tests::prTests12(graphs.back(), cut);
-            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12);
+            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12, true);
             graphs.push_back(G_12);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
         }
-- 
2.43.0


From 1b5b132dd66ed29e29f51ea6a4775bc6e2bb8f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 02/69] fix: ks terminates on disconnected graphs

Sampling looped forever (or divided by zero without edges) when fewer edges
than requested were contractible.
---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index c34eb35..11417c9 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -93,6 +93,16 @@ class ks_minimum_cut : public minimum_cut {
 
         EdgeID num_edges = G->number_of_edges();
 
+        // in a disconnected graph, fewer than n_reduce edges might be
+        // contractible
+        NodeID components = G->number_of_nodes();
+        union_find connected(G->number_of_nodes());
+        for (EdgeID e = 0; e < num_edges; ++e) {
+            if (connected.Union(G->getEdgeSource(e), G->getEdgeTarget(e)))
+                --components;
+        }
+        n_reduce = std::min(n_reduce, currentN - components);
+
         std::mt19937_64 m_mt(iteration);
 
         size_t reduced = 0;
@@ -196,7 +206,8 @@ class ks_minimum_cut : public minimum_cut {
         size_t current_position = graphs.size() - 1;
         EdgeWeight mincut_to_return = 0;
 
-        if (graphs.back()->number_of_nodes() > 50) {
+        if (G2->number_of_nodes() > 50
+            && G2->number_of_nodes() < G->number_of_nodes()) {
             auto w1 = recurse(current_position, iteration);
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
-- 
2.43.0


From f67eed9f07661a87bd29af1940e83677d2c6e968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 03/69] fix: do not narrow edge weights to 32 bits

Priority queue keys, degrees in the Padberg-Rinaldi tests and connectivity
bounds were truncated, so graphs with weights of 2^32 and more got wrong cuts;
the parallel exact algorithm also needed memory linear in the cut value.
---
 lib/algorithms/global_mincut/ks_minimum_cut.h      |  4 ++--
 lib/coarsening/contract_graph.h                    |  2 +-
 lib/coarsening/contraction_tests.h                 |  4 ++--
 lib/common/definitions.h                           |  2 +-
 .../algorithm/exact_parallel_minimum_cut.h         | 14 ++++++++++++--
 lib/parallel/coarsening/contraction_tests.h        |  8 ++++----
 6 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 11417c9..c74a250 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -179,8 +179,8 @@ class ks_minimum_cut : public minimum_cut {
                     NodeID tgt = G->getEdgeTarget(e);
                     EdgeWeight wgte = G->getEdgeWeight(e);
                     if (tgt > n && currentN > 2) {
-                        NodeWeight degn = G->getWeightedNodeDegree(n);
-                        NodeWeight degt = G->getWeightedNodeDegree(tgt);
+                        EdgeWeight degn = G->getWeightedNodeDegree(n);
+                        EdgeWeight degt = G->getWeightedNodeDegree(tgt);
                         if (wgte > G->getMinDegree() || wgte * 2 > degn
                             || wgte * 2 > degt) {
                             NodeID first = uf.Find(n);
diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 4abb7ba..ff311e4 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -76,7 +76,7 @@ class contraction {
     static void findTrivialCuts(GraphPtr G,
                                 std::vector<NodeID>* m,
                                 std::vector<std::vector<NodeID> >* rm,
-                                int target_mindeg) {
+                                int64_t target_mindeg) {
         // non-const references for better syntax
         std::vector<NodeID>& mapping = *m;
         std::vector<std::vector<NodeID> >& reverse_mapping = *rm;
diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index b944909..2ee43fb 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -61,11 +61,11 @@ class tests {
         G->computeDegrees();
         std::vector<bool> contracted(G->number_of_nodes(), false);
         for (NodeID n : G->nodes()) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
             for (EdgeID e : G->edges_of(n)) {
                 auto [t, wgt] = G->getEdge(n, e);
                 NodeID target = uf.Find(t);
-                NodeID t_wgt = G->getWeightedNodeDegree(t);
+                EdgeWeight t_wgt = G->getWeightedNodeDegree(t);
                 NodeID source = uf.Find(n);
 
                 if (wgt >= limit) {
diff --git a/lib/common/definitions.h b/lib/common/definitions.h
index 6a4b870..2554cbb 100644
--- a/lib/common/definitions.h
+++ b/lib/common/definitions.h
@@ -32,7 +32,7 @@ typedef uint64_t PathID;
 typedef uint32_t PartitionID;
 typedef uint32_t NodeWeight;
 typedef uint64_t EdgeWeight;
-typedef NodeWeight Gain;
+typedef EdgeWeight Gain;
 typedef int32_t Color;
 typedef uint64_t Count;
 typedef int64_t FlowType;
diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index 287e3d5..2f647c1 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -29,6 +29,7 @@
 #include "data_structure/priority_queues/fifo_node_bucket_pq.h"
 #include "data_structure/priority_queues/maxNodeHeap.h"
 #include "data_structure/priority_queues/node_bucket_pq.h"
+#include "data_structure/priority_queues/vecMaxNodeHeap.h"
 #include "tools/random_functions.h"
 #include "tools/timer.h"
 
@@ -181,9 +182,18 @@ class exact_parallel_minimum_cut : public minimum_cut {
 
 #pragma omp parallel for
         for (int i = 0; i < omp_get_num_threads(); ++i) {
-            fifo_node_bucket_pq pq(G->number_of_nodes(), mincut + 1);
+            // bucket queues need memory linear in the largest key
+            std::unique_ptr<priority_queue_interface> pq_ptr;
+            if (mincut > 10000 && mincut > G->number_of_nodes()) {
+                pq_ptr = std::make_unique<vecMaxNodeHeap>(
+                    G->number_of_nodes());
+            } else {
+                pq_ptr = std::make_unique<fifo_node_bucket_pq>(
+                    G->number_of_nodes(), mincut + 1);
+            }
+            priority_queue_interface& pq = *pq_ptr;
             std::vector<bool> blacklisted(G->number_of_nodes(), false);
-            std::vector<NodeID> r_v(G->number_of_nodes(), 0);
+            std::vector<EdgeWeight> r_v(G->number_of_nodes(), 0);
             std::vector<bool> local_visited(G->number_of_nodes(), false);
 
             NodeID starting_node = start_nodes[i];
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 9266e8f..be1ac6a 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -69,11 +69,11 @@ class tests {
         NodeID end = G->number_of_nodes();
 #pragma omp parallel for schedule(dynamic, 100)
         for (NodeID n = 0; n < end; ++n) {
-            NodeWeight n_wgt = G->getWeightedNodeDegree(n);
+            EdgeWeight n_wgt = G->getWeightedNodeDegree(n);
 
             for (EdgeID e : G->edges_of(n)) {
                 auto [tgt, wgt] = G->getEdge(n, e);
-                NodeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
+                EdgeWeight tgt_wgt = G->getWeightedNodeDegree(tgt);
                 if (wgt >= weight_limit) {
                     contracted[n] = true;
                     contracted[tgt] = true;
@@ -137,10 +137,10 @@ class tests {
                     }
                 }
 
-                NodeID deg_n = G->getWeightedNodeDegree(n);
+                EdgeWeight deg_n = G->getWeightedNodeDegree(n);
                 for (EdgeID e1 : G->edges_of(n)) {
                     auto [tgt, w1] = G->getEdge(n, e1);
-                    NodeID deg_tgt = G->getWeightedNodeDegree(tgt);
+                    EdgeWeight deg_tgt = G->getWeightedNodeDegree(tgt);
                     finished[tgt] = true;
                     EdgeWeight wgt_sum = w1;
                     if (tgt > n) {
-- 
2.43.0


From aac8df37cb27158932840fabcd97455a082f36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 04/69] fix: ks reports a side that matches the reported cut

Both recursions overwrote the partition indices, so the saved cut of the first
recursion was propagated through the contraction of the second one.
---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index c74a250..117c0c8 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -208,16 +208,28 @@ class ks_minimum_cut : public minimum_cut {
 
         if (G2->number_of_nodes() > 50
             && G2->number_of_nodes() < G->number_of_nodes()) {
+            const bool save_cut = configuration::getConfig()->save_cut;
+            // partition indices of G2 are overwritten in every recursion,
+            // so we need to save the cut of the first one
+            std::vector<bool> first_cut(G2->number_of_nodes(), false);
+
             auto w1 = recurse(current_position, iteration);
+            if (save_cut) {
+                for (NodeID n : G2->nodes()) {
+                    NodeID ctr = G2->getPartitionIndex(n);
+                    first_cut[n] = graphs[w1.second]->getNodeInCut(ctr);
+                }
+            }
             /* pseudo-random seed */
             auto w2 = recurse(current_position, iteration + 9273);
 
-            if (configuration::getConfig()->save_cut) {
-                size_t u_from = w1.first < w2.first ? w1.second : w2.second;
+            if (save_cut) {
                 for (NodeID n : G2->nodes()) {
                     NodeID ctr = G2->getPartitionIndex(n);
-                    PartitionID pid = graphs[u_from]->getNodeInCut(ctr);
-                    G2->setNodeInCut(n, pid);
+                    G2->setNodeInCut(
+                        n, w1.first < w2.first ?
+                        static_cast<bool>(first_cut[n]) :
+                        graphs[w2.second]->getNodeInCut(ctr));
                 }
             }
             mincut_to_return = std::min(w1.first, w2.first);
-- 
2.43.0


From 094f36b969da12525db9434234918c31f544536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 05/69] fix: parallel sparse contraction to a single vertex
 read out of bounds

---
 lib/parallel/coarsening/contract_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 281f40c..66d383e 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -302,7 +302,7 @@ class contraction {
         NodeID block0 = 0;
         NodeID block1 = 0;
 
-        if (G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
+        if (num_nodes > 1 && G->m() * 0.02 < G->n() * G->n() && G->n() > 100) {
             std::vector<uint32_t> el(num_nodes);
             for (size_t i = 0; i < mapping.size(); ++i) {
                 ++el[mapping[i]];
-- 
2.43.0


From 4867a2b40115d20159f6c805238461d054208a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 06/69] fix: contracting an edge to the last vertex reads past
 the vertex array

---
 lib/data_structure/mutable_graph.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a4447fb..ba9a406 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -505,9 +505,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, no vertex was moved)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -555,9 +558,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, no vertex was moved)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -644,9 +650,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (if 'target' was the last vertex, no vertex was moved)
+        if (target < vertices.size()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         // delete edge of 'node' to 'target', remap reverse
-- 
2.43.0


From e6d19486c1009431a4afebf216854b4fba0ec039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 07/69] fix: recursive cactus kept stale positions of vertices
 it splits off

---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index 14a9f97..f76d046 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -184,6 +184,10 @@ class recursive_cactus {
                 G->contractEdge(s, e);
                 NodeID contracted_v = G->getCurrentPosition(elementsInCtr[0]);
                 G->setContainedVertices(contracted_v, elementsInOther);
+                // vertices in ctr are re-inserted after the recursion
+                for (NodeID n : elementsInCtr) {
+                    G->setCurrentPosition(n, UNDEFINED_NODE);
+                }
                 for (NodeID n : elementsInOther) {
                     G->setCurrentPosition(n, contracted_v);
                 }
-- 
2.43.0


From fc7bbe611eb64164ace3945547abe98c43b1962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 08/69] fix: contracting an edge of a mutable graph with
 parallel edges left self loops and stale reverse edges

---
 lib/data_structure/mutable_graph.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index ba9a406..98d2e9b 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -517,6 +517,7 @@ class mutable_graph {
     }
 
     NodeID contractEdgeSparseTarget(NodeID node, EdgeID edge) {
+        edge = mergeParallelEdges(node, edge);
         RevEdge e = vertices[node][edge];
         NodeID target = e.target;
 
@@ -578,6 +579,7 @@ class mutable_graph {
             edge = re;
         }
 
+        edge = mergeParallelEdges(node, edge);
         RevEdge e = vertices[node][edge];
         NodeID target = e.target;
         EdgeID del_id = 0;
@@ -614,6 +616,12 @@ class mutable_graph {
 
                     num_edges -= 2;
 
+                    if (vertices[tgt].size() - 1 == rev) {
+                        // we need to move position of reverse edge in 'map'
+                        map[e_target] = std::make_tuple(
+                            tgt, del_edge.reverse_edge, ed2);
+                    }
+
                     internalDeleteEdge(del_edge.target, del_edge.reverse_edge);
                 } else {
                     // create new edge and map reverse edge
@@ -947,6 +955,25 @@ class mutable_graph {
     }
 
  private:
+    // merge all edges parallel to edge into it, returns its new id
+    EdgeID mergeParallelEdges(NodeID node, EdgeID edge) {
+        NodeID target = getEdgeTarget(node, edge);
+        for (EdgeID e = get_first_invalid_edge(node); e-- > 0; ) {
+            if (e == edge || getEdgeTarget(node, e) != target)
+                continue;
+
+            EdgeWeight wgt = getEdgeWeight(node, e);
+            EdgeID last = get_first_invalid_edge(node) - 1;
+            deleteEdge(node, e);
+            // deletion moves the last edge to the free position
+            if (edge == last) {
+                edge = e;
+            }
+            setEdgeWeight(node, edge, getEdgeWeight(node, edge) + wgt);
+        }
+        return edge;
+    }
+
     void internalDeleteEdge(NodeID n, EdgeID e) {
         if (vertices[n].size() > e + 1) {
             vertices[n][e] = std::move(vertices[n][vertices[n].size() - 1]);
-- 
2.43.0


From 9d1f05070c8340ba268ef7fcf3b660615655194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 09/69] fix: dynamic minimum cut restored outdated cacti from
 its cache

---
 .../global_mincut/dynamic/dynamic_mincut.h    | 156 ++++++++----------
 1 file changed, 70 insertions(+), 86 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index c4b1a0c..b643735 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -11,8 +11,11 @@
 
 #pragma once
 
+#include <algorithm>
+#include <map>
 #include <tuple>
 #include <unordered_set>
+#include <utility>
 #include <vector>
 
 #ifdef PARALLEL
@@ -37,12 +40,11 @@ class dynamic_mincut {
     size_t max_cache_size = 1000;
     size_t callsOfStaticAlgorithm;
 
-    size_t numCachedMincuts;
-    EdgeWeight lowestCachedMincut;
-    std::vector<mutableGraphPtr> cachedCactus;
-    std::vector<std::vector<std::tuple<NodeID, NodeID, EdgeWeight> > >
-    cachedInserts;
-    std::vector<bool> currentlyCaching;
+    // cached cacti by cut value, all values are larger than current_cut.
+    // Each has the changes between its caching and the caching of the next
+    // smaller one: weight of inserted (positive) and deleted (negative) edges
+    typedef std::vector<std::tuple<NodeID, NodeID, int64_t> > changeList;
+    std::map<EdgeWeight, std::pair<mutableGraphPtr, changeList> > cache;
     push_relabel<true, false> pr;
 
 #ifdef PARALLEL
@@ -61,9 +63,8 @@ class dynamic_mincut {
     EdgeWeight initialize(mutableGraphPtr graph) {
         timer t;
         auto [cut, outgraph, balanced] = cactus.findAllMincuts(graph);
-        numCachedMincuts = 0;
+        cache.clear();
         callsOfStaticAlgorithm = 1;
-        lowestCachedMincut = UNDEFINED_EDGE;
         original_graph = graph;
         out_cactus = outgraph;
         current_cut = cut;
@@ -75,21 +76,27 @@ class dynamic_mincut {
 
     void checkCacheAndRecompute() {
         EdgeWeight mincut = UNDEFINED_NODE;
-        if (lowestCachedMincut != UNDEFINED_EDGE) {
+        if (!cache.empty()) {
             noi_minimum_cut<mutableGraphPtr> noi;
             mincut = noi.perform_minimum_cut(original_graph);
+            // cuts that are smaller than the minimum cut will not come back
+            while (!cache.empty() && cache.begin()->first < mincut) {
+                popLowestFromCache();
+            }
         }
 
-        if (mincut == lowestCachedMincut &&
-            2 * cachedInserts.size() < cachedCactus[mincut]->n()) {
-            buildCactusFromCache(mincut);
-        } else {
-            auto [cut, outg, b] = cactus.findAllMincuts(
-                original_graph, mincut);
-            callsOfStaticAlgorithm++;
-            out_cactus = outg;
-            current_cut = cut;
+        if (!cache.empty() && cache.begin()->first == mincut) {
+            auto [cactus, changes] = popLowestFromCache();
+            if (2 * changes.size() < cactus->n()
+                && buildCactusFromCache(cactus, changes, mincut)) {
+                return;
+            }
         }
+
+        auto [cut, outg, b] = cactus.findAllMincuts(original_graph, mincut);
+        callsOfStaticAlgorithm++;
+        out_cactus = outg;
+        current_cut = cut;
     }
 
     EdgeWeight addEdge(NodeID s, NodeID t, EdgeWeight w) {
@@ -128,55 +135,36 @@ class dynamic_mincut {
         return current_cut;
     }
 
-    void buildCactusFromCache(EdgeWeight mincut) {
-        numCachedMincuts--;
-        currentlyCaching[mincut] = false;
-        if (numCachedMincuts == 0) {
-            lowestCachedMincut = UNDEFINED_EDGE;
-        } else {
-            for (size_t i = mincut + 1; i < currentlyCaching.size(); ++i) {
-                if (currentlyCaching[i]) {
-                    lowestCachedMincut = i;
-                    break;
-                }
-            }
+    // returns false if the cached cactus can not be used, because edges that
+    // were deleted since it was cached are not in the graph anymore
+    bool buildCactusFromCache(mutableGraphPtr cached,
+                              const changeList& changes, EdgeWeight mincut) {
+        std::map<std::pair<NodeID, NodeID>, int64_t> difference;
+        for (auto [s, t, w] : changes) {
+            difference[std::make_pair(std::min(s, t), std::max(s, t))] += w;
+        }
 
-            if (cachedInserts[mincut].size()
-                + cachedInserts[lowestCachedMincut].size() > max_cache_size) {
-                if (numCachedMincuts > 0) {
-                    // delete all larger mincut cacti by shrinking the vector
-                    cachedCactus.resize(mincut + 1);
-                    cachedInserts.resize(mincut + 1);
-                    currentlyCaching.resize(mincut + 1);
-                    numCachedMincuts = 0;
-                }
-                lowestCachedMincut = UNDEFINED_EDGE;
-            } else {
-                for (auto x : cachedInserts[mincut]) {
-                    cachedInserts[lowestCachedMincut].emplace_back(x);
-                }
+        for (const auto& [edge, wgt] : difference) {
+            if (wgt < 0) {
+                return false;
             }
         }
 
-        for (auto [s, t, w] : cachedInserts[mincut]) {
-            NodeID sCactusPos = cachedCactus[mincut]->getCurrentPosition(s);
-            NodeID tCactusPos = cachedCactus[mincut]->getCurrentPosition(t);
-            if (sCactusPos != tCactusPos) {
+        for (const auto& [edge, wgt] : difference) {
+            NodeID sCactusPos = cached->getCurrentPosition(edge.first);
+            NodeID tCactusPos = cached->getCurrentPosition(edge.second);
+            if (wgt > 0 && sCactusPos != tCactusPos) {
                 auto vtxset = cactus_path::findPath(
-                    cachedCactus[mincut], sCactusPos, tCactusPos, current_cut);
-                if (vtxset.size() == cachedCactus[mincut]->n()) {
-                    auto [cut, outg, b] = cactus.findAllMincuts(original_graph);
-                    callsOfStaticAlgorithm++;
-                    out_cactus = outg;
-                    current_cut = cut;
-                    return;
-                } else {
-                    contractVertexSet(cachedCactus[mincut], vtxset);
+                    cached, sCactusPos, tCactusPos, mincut);
+                if (vtxset.size() == cached->n()) {
+                    return false;
                 }
+                contractVertexSet(cached, vtxset);
             }
         }
-        out_cactus = cachedCactus[mincut];
+        out_cactus = cached;
         current_cut = mincut;
+        return true;
     }
 
     void contractVertexSet(
@@ -271,6 +259,7 @@ class dynamic_mincut {
 
         if (current_cut == 0) {
             LOGC(verbose) << "previously multiple CCs already, cut remains 0";
+            cacheEdge(s, t, -static_cast<int64_t>(wgt));
             return current_cut;
         }
 
@@ -302,6 +291,7 @@ class dynamic_mincut {
                 LOGC(verbose) << "recomputing, minimum cut changed to " << flow;
             }
         }
+        cacheEdge(s, t, -static_cast<int64_t>(wgt));
         LOGC(verbose) << "t " << timer.elapsed() << " cut " << current_cut
                       << " n " << original_graph->n()
                       << " m " << original_graph->m();
@@ -330,39 +320,33 @@ class dynamic_mincut {
     }
 
     void putIntoCache(mutableGraphPtr cactusToCache, EdgeWeight cactusCut) {
-        numCachedMincuts++;
-        if (cactusCut < lowestCachedMincut) {
-            lowestCachedMincut = cactusCut;
-        }
+        cache[cactusCut] = std::make_pair(cactusToCache, changeList { });
+    }
 
-        if (cachedCactus.size() < cactusCut + 1) {
-            cachedCactus.resize(cactusCut + 1);
-            cachedInserts.resize(cactusCut + 1);
-            currentlyCaching.resize(cactusCut + 1, false);
+    // remove the lowest entry, its changes also happened to the next entry
+    std::pair<mutableGraphPtr, changeList> popLowestFromCache() {
+        auto lowest = cache.begin()->second;
+        cache.erase(cache.begin());
+        if (!cache.empty()) {
+            auto& next = cache.begin()->second.second;
+            next.insert(next.end(), lowest.second.begin(), lowest.second.end());
+            if (next.size() > max_cache_size) {
+                cache.clear();
+            }
         }
-
-        cachedCactus[cactusCut] = cactusToCache;
-        cachedInserts[cactusCut].clear();
-        currentlyCaching[cactusCut] = true;
+        return lowest;
     }
 
-    void cacheEdge(NodeID s, NodeID t, EdgeWeight wgt) {
-        if (numCachedMincuts > 0
-            && cachedInserts[lowestCachedMincut].size() <= max_cache_size) {
-            cachedInserts[lowestCachedMincut].emplace_back(s, t, wgt);
+    void cacheEdge(NodeID s, NodeID t, int64_t wgt) {
+        if (cache.empty()) {
+            return;
+        }
+
+        if (cache.begin()->second.second.size() <= max_cache_size) {
+            cache.begin()->second.second.emplace_back(s, t, wgt);
         } else {
-            if (numCachedMincuts > 0) {
-                numCachedMincuts--;
-                currentlyCaching[lowestCachedMincut] = false;
-                if (numCachedMincuts > 0) {
-                    // delete all larger mincut cacti by shrinking the vector
-                    cachedCactus.resize(lowestCachedMincut + 1);
-                    cachedInserts.resize(lowestCachedMincut + 1);
-                    currentlyCaching.resize(lowestCachedMincut + 1);
-                    numCachedMincuts = 0;
-                }
-                lowestCachedMincut = UNDEFINED_EDGE;
-            }
+            // all larger cacti contain these changes, too
+            cache.clear();
         }
     }
 };
-- 
2.43.0


From 182a763fa6a1761be9715a23932818d71bc0582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 10/69] fix: default constructed recursive_cactus used
 uninitialised values

---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index f76d046..dc8faaf 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -49,7 +49,8 @@
 template <class GraphPtr>
 class recursive_cactus {
  public:
-    recursive_cactus() { }
+    recursive_cactus()
+        : mincut(0), problem_id(random_functions::next()) { }
     explicit recursive_cactus(EdgeWeight mincut)
         : mincut(mincut), problem_id(random_functions::next()) { }
     ~recursive_cactus() { }
-- 
2.43.0


From 8d0d81293184cc335ff4d2d535cbc9bf89673a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 11/69] fix: triangle tests counted parallel edges more than
 once

---
 lib/algorithms/global_mincut/cactus/all_cut_local_red.h | 6 +++++-
 lib/coarsening/contraction_tests.h                      | 5 ++++-
 lib/parallel/coarsening/contraction_tests.h             | 6 +++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
index f92a43e..c8ceb6c 100644
--- a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
+++ b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
@@ -67,6 +67,8 @@ class all_cut_local_red {
         std::vector<EdgeID> marked(G->number_of_nodes(), UNDEFINED_EDGE);
         std::vector<bool> finished(G->number_of_nodes(), false);
         std::vector<bool> contracted(G->number_of_nodes(), false);
+        // make sure that parallel edges are not counted twice
+        std::vector<NodeID> counted(G->number_of_nodes(), UNDEFINED_NODE);
 
         for (NodeID n : G->nodes()) {
             if (finished[n])
@@ -94,8 +96,10 @@ class all_cut_local_red {
                 if (tgt > n) {
                     for (EdgeID e2 : G->edges_of(tgt)) {
                         NodeID tgt2 = G->getEdgeTarget(tgt, e2);
-                        if (marked[tgt2] == UNDEFINED_EDGE)
+                        if (marked[tgt2] == UNDEFINED_EDGE
+                            || counted[tgt2] == tgt)
                             continue;
+                        counted[tgt2] = tgt;
 
                         if (marked[tgt2] >= G->get_first_invalid_edge(n)
                             || marked[tgt2] < G->get_first_edge(n)) {
diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index 2ee43fb..dfae4c1 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -105,6 +105,8 @@ class tests {
             std::make_pair(UNDEFINED_NODE, UNDEFINED_EDGE));
         std::vector<bool> finished(G->number_of_nodes(), false);
         std::vector<bool> contracted(G->number_of_nodes(), false);
+        // make sure that parallel edges are not counted twice
+        std::vector<NodeID> counted(G->number_of_nodes(), UNDEFINED_NODE);
 
         for (NodeID n : G->nodes()) {
             if (finished[n])
@@ -137,9 +139,10 @@ class tests {
                         if (marked[tgt2].second == UNDEFINED_EDGE)
                             continue;
 
-                        if (marked[tgt2].first != n) {
+                        if (marked[tgt2].first != n || counted[tgt2] == tgt) {
                             continue;
                         }
+                        counted[tgt2] = tgt;
 
                         EdgeWeight w2 = G->getEdgeWeight(tgt, e2);
                         EdgeWeight w3 =
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index be1ac6a..f75c62e 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -123,6 +123,8 @@ class tests {
             std::vector<std::pair<NodeID, EdgeID> > marked(
                 G->number_of_nodes(),
                 std::make_pair(UNDEFINED_NODE, UNDEFINED_EDGE));
+            // make sure that parallel edges are not counted twice
+            std::vector<NodeID> counted(G->number_of_nodes(), UNDEFINED_NODE);
 #pragma omp for schedule(dynamic, 100)
             for (NodeID n = 0; n < G->number_of_nodes(); ++n) {
                 if (finished[n])
@@ -149,8 +151,10 @@ class tests {
                             if (marked[tgt2].second == UNDEFINED_EDGE)
                                 continue;
 
-                            if (marked[tgt2].first != n)
+                            if (marked[tgt2].first != n
+                                || counted[tgt2] == tgt)
                                 continue;
+                            counted[tgt2] = tgt;
 
                             EdgeWeight w2 = G->getEdgeWeight(tgt, e2);
                             EdgeWeight w3 = G->getEdgeWeight(
-- 
2.43.0


From 5d4cdba1772fbc4b7721bd1a43a4f62b003ee7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 12/69] fix: deleting a vertex left its contained vertices
 behind for the next new vertex

---
 lib/data_structure/mutable_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 98d2e9b..2a66262 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -406,6 +406,7 @@ class mutable_graph {
         weighted_degree.pop_back();
         partition_index.pop_back();
         node_in_cut.pop_back();
+        contained_in_this.pop_back();
     }
 
     // Contraction methods
-- 
2.43.0


From 6aa49ce860e1904d512be2541b8641aa5979a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 13/69] fix: new vertex of a mutable graph contained vertex 0
 several times instead of itself

---
 lib/data_structure/mutable_graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 2a66262..e53b5be 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -96,7 +96,7 @@ class mutable_graph {
 
     NodeID new_node() {
         if (last_node == vertices.size()) {
-            contained_in_this.emplace_back(last_node);
+            contained_in_this.emplace_back(1, last_node);
             current_position.emplace_back();
             current_position[last_node] = vertices.size();
             vertices.emplace_back();
-- 
2.43.0


From 0fa7c7cc74dbcc778fef885e2937754cc2ac5e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 14/69] fix: conversion to mutable graph counted parallel edges
 several times

---
 lib/data_structure/mutable_graph.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index e53b5be..fa86202 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -821,6 +821,11 @@ class mutable_graph {
             m_G->new_node();
             for (EdgeID e : G->edges_of(n)) {
                 NodeID t = G->getEdgeTarget(e);
+                if (t < n) {
+                    // added when visiting the other incident vertex
+                    continue;
+                }
+
                 if (last_incident[t] == n) {
                     // double edge
                     // LOG1 << "double edge";
-- 
2.43.0


From 559f47de1846fb02f163e42748c7b06b58cda171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 15/69] fix: serialised mutable graphs with vertex ids larger
 than the number of edges were not restored

---
 lib/data_structure/mutable_graph.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index fa86202..dc4bf60 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -872,13 +872,15 @@ class mutable_graph {
         G->setOriginalNodes(original_nodes);
         size_t n = 0;
         size_t deserial = 4;
+        // values starting from offset are node markers, smaller ones targets
+        size_t offset = std::max<size_t>(num_edges, num_nodes);
         while (n < num_nodes) {
             uint64_t next = v[deserial++];
-            if (next >= num_edges) {
+            if (next >= offset) {
                 if (next == UNDEFINED_EDGE) {
                     break;
                 }
-                n = next - num_edges;
+                n = next - offset;
                 continue;
             }
             uint64_t wgt = v[deserial++];
@@ -908,9 +910,11 @@ class mutable_graph {
         serial[2] = static_cast<uint64_t>(partition_count);
         serial[3] = static_cast<uint64_t>(original_nodes);
         size_t next = 4;
+        // values starting from offset are node markers, smaller ones targets
+        size_t offset = std::max<size_t>(num_edges, number_of_nodes());
 
         for (NodeID n : nodes()) {
-            serial[next++] = static_cast<uint64_t>(num_edges + n);
+            serial[next++] = static_cast<uint64_t>(offset + n);
             for (const auto& [t, w, r, f, l] : vertices[n]) {
                 // I am deeply sorry for this ugly code, but structured bindings
                 // seem to not work in combination with maybe_unused to suppress
-- 
2.43.0


From aaafe779235f9c99a1f6dae7d127481dc3979362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 16/69] fix: weight of a self loop in a graph file was read as
 an edge

---
 lib/io/graph_io.h | 768 +++++++++++++++++++++++-----------------------
 1 file changed, 385 insertions(+), 383 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a156fee..a80581c 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -1,383 +1,385 @@
-/******************************************************************************
- * graph_io.h
- *
- * Source of VieCut.
- *
- * Adapted from KaHIP.
- *
- ******************************************************************************
- * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
- * Copyright (C) 2017-2020 Alexander Noe <alexander.noe@univie.ac.at>
- *
- * Published under the MIT license in the LICENSE file.
- *****************************************************************************/
-
-#pragma once
-
-#include <stdio.h>
-#include <stdlib.h>
-
-#include <algorithm>
-#include <fstream>
-#include <iostream>
-#include <limits>
-#include <memory>
-#include <ostream>
-#include <string>
-#include <tuple>
-#include <utility>
-#include <vector>
-
-#include "common/definitions.h"
-#include "data_structure/flow_graph.h"
-#include "data_structure/graph_access.h"
-#include "tools/string.h"
-
-class graph_io {
- public:
-    graph_io() { }
-
-    virtual ~graph_io() { }
-
-    static std::pair<
-        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
-    readDimacs(std::string file) {
-        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
-        std::string line;
-        std::ifstream instream(file.c_str());
-        std::getline(instream, line);
-        size_t line_ptr = 2;
-        NodeID numV = fast_atoi(line, &line_ptr);
-
-        uint64_t counter = 1;
-        while (std::getline(instream, line)) {
-            line_ptr = 2;
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            if (target > source) {
-                edges.emplace_back(source, target, 1, counter++);
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-        return std::make_pair(numV, edges);
-    }
-
-    static std::pair<
-        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
-    readTemporalGraph(std::string file) {
-        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
-        std::string line;
-        std::ifstream instream(file.c_str());
-        NodeID numVtxs = 0;
-
-        while (std::getline(instream, line)) {
-            if (line[0] == 'p') {
-                return readDimacs(file);
-            }
-            if (line[0] == '%') {     // a comment in the file
-                continue;
-            }
-
-            size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
-
-            NodeID source = fast_atoi(line, &line_ptr) - 1;
-            NodeID target = fast_atoi(line, &line_ptr) - 1;
-            int64_t wgt;
-            uint64_t timestamp;
-
-            // remove additional whitespaces inbetween
-            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
-                ++line_ptr;
-
-            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
-                bool isNegative = line[line_ptr] == '-';
-                line_ptr++;
-                wgt = fast_atoi(line, &line_ptr);
-                if (isNegative) {
-                    wgt = (-1) * wgt;
-                }
-                timestamp = fast_atoi(line, &line_ptr);
-            } else {
-                wgt = 1;
-                timestamp = fast_atoi(line, &line_ptr);
-                if (line_ptr < line.size()) {
-                    wgt = timestamp;
-                    timestamp = fast_atoi(line, &line_ptr);
-                }
-            }
-
-            edges.emplace_back(source, target, wgt, timestamp);
-
-            NodeID largerVtx = std::max(source, target);
-            if (largerVtx >= numVtxs) {
-                numVtxs = largerVtx + 1;
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
-
-        return std::pair(numVtxs, edges);
-    }
-
-    template <class Graph = graph_access>
-    static std::shared_ptr<Graph> readGraphWeighted(std::string file) {
-        std::shared_ptr<Graph> G = std::make_shared<Graph>();
-        std::string line;
-        // open file for reading
-        std::ifstream instream(file.c_str());
-        if (!instream) {
-            std::cerr << "Error opening " << file << std::endl;
-            exit(2);
-        }
-
-        uint64_t nmbNodes;
-        uint64_t nmbEdges;
-
-        std::getline(instream, line);
-        // skip comments
-        while (line[0] == '%') {
-            std::getline(instream, line);
-        }
-
-        int ew = 0;
-        std::stringstream ss(line);
-        ss >> nmbNodes;
-        ss >> nmbEdges;
-        ss >> ew;
-
-        bool read_ew = false;
-
-        if (ew == 1) {
-            read_ew = true;
-        } else if (ew == 11) {
-            read_ew = true;
-        }
-        nmbEdges *= 2;  // since we have forward and backward edges
-
-        NodeID node_counter = 0;
-        EdgeID edge_counter = 0;
-
-        G->start_construction(nmbNodes, nmbEdges);
-
-        while (std::getline(instream, line)) {
-            if (line[0] == '%') {     // a comment in the file
-                continue;
-            }
-
-            NodeID node = G->new_node();
-            node_counter++;
-            G->setPartitionIndex(node, 0);
-
-            size_t line_ptr = 0;
-
-            // remove leading whitespaces
-            while (line[line_ptr] == ' ')
-                ++line_ptr;
-
-            while (line_ptr < line.size()) {
-                NodeID target = fast_atoi(line, &line_ptr);
-                if (!target) break;
-                // check for self-loops
-                if (target - 1 == node) {
-                    LOG0 << "The graph file contains self-loops. "
-                         << "This is not supported. "
-                         << "Please remove them from the file.";
-                    continue;
-                }
-
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
-                edge_counter++;
-                G->new_edge(node, target - 1, edge_weight);
-            }
-
-            if (instream.eof()) {
-                break;
-            }
-        }
-
-        if (edge_counter != (EdgeID)nmbEdges) {
-            std::cerr << "number of specified edges mismatch" << std::endl;
-            std::cerr << edge_counter << " " << nmbEdges << std::endl;
-            // As we discard self-loops, this might happen. Thus, no exiting!
-            // Node counter not matching is however probably a problem with G.
-        }
-
-        if (node_counter != (NodeID)nmbNodes) {
-            std::cerr << "number of specified nodes mismatch" << std::endl;
-            std::cerr << node_counter << " " << nmbNodes << std::endl;
-            exit(4);
-        }
-
-        G->finish_construction();
-        G->computeDegrees();
-        return G;
-    }
-
-    static int writeGraphWeighted(mutableGraphPtr G, std::string filename) {
-        return writeGraphWeighted(G->to_graph_access(), filename);
-    }
-
-    static int writeGraphWeighted(graphAccessPtr G, std::string filename) {
-        std::ofstream f(filename.c_str());
-        f << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << " 1" << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                f << (G->getEdgeTarget(e) + 1) << " "
-                  << G->getEdgeWeight(e) << " ";
-            }
-            f << std::endl;
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static
-    int writeGraph(graphAccessPtr G, std::string filename) {
-        std::ofstream f(filename.c_str());
-        f << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << " 0" << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                f << (G->getEdgeTarget(e) + 1) << " ";
-            }
-            f << std::endl;
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static
-    int writeGraphDimacsKS(graphAccessPtr G,
-                           std::string filename,
-                           std::string format = "FORMAT") {
-        std::ofstream f(filename.c_str());
-        f << "p " << format << " " << G->number_of_nodes() << " "
-          << G->number_of_edges() / 2 << std::endl;
-
-        for (NodeID node : G->nodes()) {
-            for (EdgeID e : G->edges_of(node)) {
-                if (G->getEdgeTarget(e) > node) {
-                    f << "a " << node + 1 << " " << G->getEdgeTarget(e) + 1
-                      << " " << G->getEdgeWeight(e) << std::endl;
-                }
-            }
-        }
-
-        f.close();
-        return 0;
-    }
-
-    static void writeCut(graphAccessPtr G,
-                         std::string filename) {
-        std::ofstream f(filename.c_str());
-        LOG1 << "writing partition to " << filename << " ... ";
-
-        for (NodeID node : G->nodes()) {
-            f << G->getNodeInCut(node) << std::endl;
-        }
-
-        f.close();
-    }
-
-    static void writeCut(mutableGraphPtr G,
-                         std::string filename) {
-        std::ofstream f(filename.c_str());
-        LOG1 << "writing partition to " << filename << " ... ";
-
-        for (NodeID node : G->nodes()) {
-            f << G->getNodeInCut(node) << std::endl;
-        }
-
-        f.close();
-    }
-
-    static std::shared_ptr<flow_graph> createFlowGraph(
-        graphAccessPtr G) {
-        std::shared_ptr<flow_graph> fg = std::make_shared<flow_graph>();
-        fg->start_construction(G->number_of_nodes());
-
-        for (NodeID n : G->nodes()) {
-            for (EdgeID e : G->edges_of(n)) {
-                NodeID tgt = G->getEdgeTarget(e);
-                fg->new_edge(n, tgt, G->getEdgeWeight(e));
-            }
-        }
-
-        fg->finish_construction();
-
-        VIECUT_ASSERT_EQ(fg->number_of_nodes(), G->number_of_nodes());
-        VIECUT_ASSERT_EQ(fg->number_of_edges(), 2 * G->number_of_edges());
-
-        return fg;
-    }
-
-    template <typename vectortype>
-    static std::vector<vectortype> readVector(std::string filename) {
-        std::vector<vectortype> vec;
-        std::string line;
-        // open file for reading
-        std::ifstream instream(filename.c_str());
-        if (!instream) {
-            std::cerr << "Error opening vectorfile" << filename << std::endl;
-            exit(5);
-        }
-
-        std::getline(instream, line);
-        while (!instream.eof()) {
-            if (line[0] == '%') {         // Comment
-                continue;
-            }
-
-            vectortype value = (vectortype)atof(line.c_str());
-            vec.emplace_back(value);
-            std::getline(instream, line);
-        }
-
-        instream.close();
-        return vec;
-    }
-
-    template <typename vectortype>
-    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
-        std::ofstream f(filename.c_str());
-        for (unsigned i = 0; i < vec.size(); ++i) {
-            f << vec[i] << std::endl;
-        }
-        f.close();
-    }
-
- private:
-// orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
-    static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
-        uint64_t x = 0;
-
-        while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
-            x = (x * 10) + (str[*line_ptr] - '0');
-            ++(*line_ptr);
-        }
-        ++(*line_ptr);
-        return x;
-    }
-};
+/******************************************************************************
+ * graph_io.h
+ *
+ * Source of VieCut.
+ *
+ * Adapted from KaHIP.
+ *
+ ******************************************************************************
+ * Copyright (C) 2013-2015 Christian Schulz <christian.schulz@univie.ac.at>
+ * Copyright (C) 2017-2020 Alexander Noe <alexander.noe@univie.ac.at>
+ *
+ * Published under the MIT license in the LICENSE file.
+ *****************************************************************************/
+
+#pragma once
+
+#include <stdio.h>
+#include <stdlib.h>
+
+#include <algorithm>
+#include <fstream>
+#include <iostream>
+#include <limits>
+#include <memory>
+#include <ostream>
+#include <string>
+#include <tuple>
+#include <utility>
+#include <vector>
+
+#include "common/definitions.h"
+#include "data_structure/flow_graph.h"
+#include "data_structure/graph_access.h"
+#include "tools/string.h"
+
+class graph_io {
+ public:
+    graph_io() { }
+
+    virtual ~graph_io() { }
+
+    static std::pair<
+        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
+    readDimacs(std::string file) {
+        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
+        std::string line;
+        std::ifstream instream(file.c_str());
+        std::getline(instream, line);
+        size_t line_ptr = 2;
+        NodeID numV = fast_atoi(line, &line_ptr);
+
+        uint64_t counter = 1;
+        while (std::getline(instream, line)) {
+            line_ptr = 2;
+            NodeID source = fast_atoi(line, &line_ptr) - 1;
+            NodeID target = fast_atoi(line, &line_ptr) - 1;
+            if (target > source) {
+                edges.emplace_back(source, target, 1, counter++);
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+        return std::make_pair(numV, edges);
+    }
+
+    static std::pair<
+        NodeID, std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > >
+    readTemporalGraph(std::string file) {
+        std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > edges;
+        std::string line;
+        std::ifstream instream(file.c_str());
+        NodeID numVtxs = 0;
+
+        while (std::getline(instream, line)) {
+            if (line[0] == 'p') {
+                return readDimacs(file);
+            }
+            if (line[0] == '%') {     // a comment in the file
+                continue;
+            }
+
+            size_t line_ptr = 0;
+
+            // remove leading whitespaces
+            while (line[line_ptr] == ' ')
+                ++line_ptr;
+
+            NodeID source = fast_atoi(line, &line_ptr) - 1;
+            NodeID target = fast_atoi(line, &line_ptr) - 1;
+            int64_t wgt;
+            uint64_t timestamp;
+
+            // remove additional whitespaces inbetween
+            while (line[line_ptr] == ' ' || line[line_ptr] == '\t')
+                ++line_ptr;
+
+            if (line[line_ptr] == '+' || line[line_ptr] == '-') {
+                bool isNegative = line[line_ptr] == '-';
+                line_ptr++;
+                wgt = fast_atoi(line, &line_ptr);
+                if (isNegative) {
+                    wgt = (-1) * wgt;
+                }
+                timestamp = fast_atoi(line, &line_ptr);
+            } else {
+                wgt = 1;
+                timestamp = fast_atoi(line, &line_ptr);
+                if (line_ptr < line.size()) {
+                    wgt = timestamp;
+                    timestamp = fast_atoi(line, &line_ptr);
+                }
+            }
+
+            edges.emplace_back(source, target, wgt, timestamp);
+
+            NodeID largerVtx = std::max(source, target);
+            if (largerVtx >= numVtxs) {
+                numVtxs = largerVtx + 1;
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+
+        std::sort(edges.begin(), edges.end(),
+                  [](const auto& e1, const auto& e2) {
+                      return std::get<3>(e1) < std::get<3>(e2);
+                  });
+
+        return std::pair(numVtxs, edges);
+    }
+
+    template <class Graph = graph_access>
+    static std::shared_ptr<Graph> readGraphWeighted(std::string file) {
+        std::shared_ptr<Graph> G = std::make_shared<Graph>();
+        std::string line;
+        // open file for reading
+        std::ifstream instream(file.c_str());
+        if (!instream) {
+            std::cerr << "Error opening " << file << std::endl;
+            exit(2);
+        }
+
+        uint64_t nmbNodes;
+        uint64_t nmbEdges;
+
+        std::getline(instream, line);
+        // skip comments
+        while (line[0] == '%') {
+            std::getline(instream, line);
+        }
+
+        int ew = 0;
+        std::stringstream ss(line);
+        ss >> nmbNodes;
+        ss >> nmbEdges;
+        ss >> ew;
+
+        bool read_ew = false;
+
+        if (ew == 1) {
+            read_ew = true;
+        } else if (ew == 11) {
+            read_ew = true;
+        }
+        nmbEdges *= 2;  // since we have forward and backward edges
+
+        NodeID node_counter = 0;
+        EdgeID edge_counter = 0;
+
+        G->start_construction(nmbNodes, nmbEdges);
+
+        while (std::getline(instream, line)) {
+            if (line[0] == '%') {     // a comment in the file
+                continue;
+            }
+
+            NodeID node = G->new_node();
+            node_counter++;
+            G->setPartitionIndex(node, 0);
+
+            size_t line_ptr = 0;
+
+            // remove leading whitespaces
+            while (line[line_ptr] == ' ')
+                ++line_ptr;
+
+            while (line_ptr < line.size()) {
+                NodeID target = fast_atoi(line, &line_ptr);
+                if (!target) break;
+
+                EdgeWeight edge_weight = 1;
+                if (read_ew) {
+                    edge_weight = fast_atoi(line, &line_ptr);
+                }
+
+                // check for self-loops
+                if (target - 1 == node) {
+                    LOG0 << "The graph file contains self-loops. "
+                         << "This is not supported. "
+                         << "Please remove them from the file.";
+                    continue;
+                }
+
+                edge_counter++;
+                G->new_edge(node, target - 1, edge_weight);
+            }
+
+            if (instream.eof()) {
+                break;
+            }
+        }
+
+        if (edge_counter != (EdgeID)nmbEdges) {
+            std::cerr << "number of specified edges mismatch" << std::endl;
+            std::cerr << edge_counter << " " << nmbEdges << std::endl;
+            // As we discard self-loops, this might happen. Thus, no exiting!
+            // Node counter not matching is however probably a problem with G.
+        }
+
+        if (node_counter != (NodeID)nmbNodes) {
+            std::cerr << "number of specified nodes mismatch" << std::endl;
+            std::cerr << node_counter << " " << nmbNodes << std::endl;
+            exit(4);
+        }
+
+        G->finish_construction();
+        G->computeDegrees();
+        return G;
+    }
+
+    static int writeGraphWeighted(mutableGraphPtr G, std::string filename) {
+        return writeGraphWeighted(G->to_graph_access(), filename);
+    }
+
+    static int writeGraphWeighted(graphAccessPtr G, std::string filename) {
+        std::ofstream f(filename.c_str());
+        f << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << " 1" << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                f << (G->getEdgeTarget(e) + 1) << " "
+                  << G->getEdgeWeight(e) << " ";
+            }
+            f << std::endl;
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static
+    int writeGraph(graphAccessPtr G, std::string filename) {
+        std::ofstream f(filename.c_str());
+        f << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << " 0" << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                f << (G->getEdgeTarget(e) + 1) << " ";
+            }
+            f << std::endl;
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static
+    int writeGraphDimacsKS(graphAccessPtr G,
+                           std::string filename,
+                           std::string format = "FORMAT") {
+        std::ofstream f(filename.c_str());
+        f << "p " << format << " " << G->number_of_nodes() << " "
+          << G->number_of_edges() / 2 << std::endl;
+
+        for (NodeID node : G->nodes()) {
+            for (EdgeID e : G->edges_of(node)) {
+                if (G->getEdgeTarget(e) > node) {
+                    f << "a " << node + 1 << " " << G->getEdgeTarget(e) + 1
+                      << " " << G->getEdgeWeight(e) << std::endl;
+                }
+            }
+        }
+
+        f.close();
+        return 0;
+    }
+
+    static void writeCut(graphAccessPtr G,
+                         std::string filename) {
+        std::ofstream f(filename.c_str());
+        LOG1 << "writing partition to " << filename << " ... ";
+
+        for (NodeID node : G->nodes()) {
+            f << G->getNodeInCut(node) << std::endl;
+        }
+
+        f.close();
+    }
+
+    static void writeCut(mutableGraphPtr G,
+                         std::string filename) {
+        std::ofstream f(filename.c_str());
+        LOG1 << "writing partition to " << filename << " ... ";
+
+        for (NodeID node : G->nodes()) {
+            f << G->getNodeInCut(node) << std::endl;
+        }
+
+        f.close();
+    }
+
+    static std::shared_ptr<flow_graph> createFlowGraph(
+        graphAccessPtr G) {
+        std::shared_ptr<flow_graph> fg = std::make_shared<flow_graph>();
+        fg->start_construction(G->number_of_nodes());
+
+        for (NodeID n : G->nodes()) {
+            for (EdgeID e : G->edges_of(n)) {
+                NodeID tgt = G->getEdgeTarget(e);
+                fg->new_edge(n, tgt, G->getEdgeWeight(e));
+            }
+        }
+
+        fg->finish_construction();
+
+        VIECUT_ASSERT_EQ(fg->number_of_nodes(), G->number_of_nodes());
+        VIECUT_ASSERT_EQ(fg->number_of_edges(), 2 * G->number_of_edges());
+
+        return fg;
+    }
+
+    template <typename vectortype>
+    static std::vector<vectortype> readVector(std::string filename) {
+        std::vector<vectortype> vec;
+        std::string line;
+        // open file for reading
+        std::ifstream instream(filename.c_str());
+        if (!instream) {
+            std::cerr << "Error opening vectorfile" << filename << std::endl;
+            exit(5);
+        }
+
+        std::getline(instream, line);
+        while (!instream.eof()) {
+            if (line[0] == '%') {         // Comment
+                continue;
+            }
+
+            vectortype value = (vectortype)atof(line.c_str());
+            vec.emplace_back(value);
+            std::getline(instream, line);
+        }
+
+        instream.close();
+        return vec;
+    }
+
+    template <typename vectortype>
+    void writeVector(const std::vector<vectortype>& vec, std::string filename) {
+        std::ofstream f(filename.c_str());
+        for (unsigned i = 0; i < vec.size(); ++i) {
+            f << vec[i] << std::endl;
+        }
+        f.close();
+    }
+
+ private:
+// orig. from http://tinodidriksen.com/uploads/code/cpp/speed-string-to-int.cpp
+    static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
+        uint64_t x = 0;
+
+        while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
+            x = (x * 10) + (str[*line_ptr] - '0');
+            ++(*line_ptr);
+        }
+        ++(*line_ptr);
+        return x;
+    }
+};
-- 
2.43.0


From e19dd2d7f443f692779e216c58cea1e176f9d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 17/69] fix: vertex weights in a graph file were read as edges

---
 lib/io/graph_io.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a80581c..f9f8422 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -159,13 +159,9 @@ class graph_io {
         ss >> nmbEdges;
         ss >> ew;
 
-        bool read_ew = false;
-
-        if (ew == 1) {
-            read_ew = true;
-        } else if (ew == 11) {
-            read_ew = true;
-        }
+        bool read_ew = (ew == 1 || ew == 11);
+        // vertex weights are not used, but need to be skipped
+        bool skip_nw = (ew == 10 || ew == 11);
         nmbEdges *= 2;  // since we have forward and backward edges
 
         NodeID node_counter = 0;
@@ -188,6 +184,10 @@ class graph_io {
             while (line[line_ptr] == ' ')
                 ++line_ptr;
 
+            if (skip_nw) {
+                fast_atoi(line, &line_ptr);
+            }
+
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
-- 
2.43.0


From e3adabae0ac26fa6c9dd55e4d3c882826708c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 18/69] fix: all edges after a second blank or tab in a line of
 a graph file were dropped

---
 lib/io/graph_io.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index f9f8422..7575ddd 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -375,6 +375,9 @@ class graph_io {
     static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
         uint64_t x = 0;
 
+        while (str[*line_ptr] == ' ' || str[*line_ptr] == '\t')
+            ++(*line_ptr);
+
         while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
             x = (x * 10) + (str[*line_ptr] - '0');
             ++(*line_ptr);
-- 
2.43.0


From 3d07c87149927d9518b803abdbe60cc28e631b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 19/69] fix: readVector did not terminate on comments and
 dropped a last line without newline

---
 lib/io/graph_io.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 7575ddd..6a8c066 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -346,15 +346,13 @@ class graph_io {
             exit(5);
         }
 
-        std::getline(instream, line);
-        while (!instream.eof()) {
+        while (std::getline(instream, line)) {
             if (line[0] == '%') {         // Comment
                 continue;
             }
 
             vectortype value = (vectortype)atof(line.c_str());
             vec.emplace_back(value);
-            std::getline(instream, line);
         }
 
         instream.close();
-- 
2.43.0


From 42c532578c0a15d736d2800ea13ca2a5438a461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 20/69] fix: temporal edges with the same timestamp were
 reordered

---
 lib/io/graph_io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 6a8c066..48af3c8 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -125,10 +125,10 @@ class graph_io {
             }
         }
 
-        std::sort(edges.begin(), edges.end(),
-                  [](const auto& e1, const auto& e2) {
-                      return std::get<3>(e1) < std::get<3>(e2);
-                  });
+        std::stable_sort(edges.begin(), edges.end(),
+                         [](const auto& e1, const auto& e2) {
+                             return std::get<3>(e1) < std::get<3>(e2);
+                         });
 
         return std::pair(numVtxs, edges);
     }
-- 
2.43.0


From 49a499c31188e65adf05eb004a3754790674aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 21/69] fix: bridge contraction exited if a terminal is
 incident to the bridge on the terminals' side

---
 lib/algorithms/misc/find_bridges.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/misc/find_bridges.h b/lib/algorithms/misc/find_bridges.h
index 7fed5e9..8b3154d 100644
--- a/lib/algorithms/misc/find_bridges.h
+++ b/lib/algorithms/misc/find_bridges.h
@@ -97,7 +97,7 @@ class find_bridges {
                 }
 
                 for (auto term : terminals) {
-                    if (contracted[term.position] && term.position != n) {
+                    if (contracted[term.position] && term.position != ctr_n) {
                         // this can only happen if bridge detection detects
                         // a bridge that is not actually one.
                         for (auto term : terminals) {
-- 
2.43.0


From 858f9df4091bf4338e8ed1406b7852e4310a4006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 22/69] fix: creating the core of a weighted graph exited
 because of its weighted degrees

---
 lib/algorithms/misc/core_decomposition.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/misc/core_decomposition.h b/lib/algorithms/misc/core_decomposition.h
index 2bb0e7f..1610bdd 100644
--- a/lib/algorithms/misc/core_decomposition.h
+++ b/lib/algorithms/misc/core_decomposition.h
@@ -134,8 +134,14 @@ class core_decomposition {
 
         core_graph->finish_construction();
 
-        if (core_graph->getMinDegree() != min_degree) {
-            LOG1 << "ERROR: Wrong min degree " << core_graph->getMinDegree()
+        EdgeWeight core_degree = UNDEFINED_EDGE;
+        for (NodeID n : core_graph->nodes()) {
+            core_degree = std::min(core_degree,
+                                   core_graph->getUnweightedNodeDegree(n));
+        }
+
+        if (core_degree != min_degree) {
+            LOG1 << "ERROR: Wrong min degree " << core_degree
                  << " instead of " << min_degree;
             exit(1);
         }
-- 
2.43.0


From dd45f91f372ad72ec2b48c56c8c38005217aef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 23/69] fix: component sizes were wrong from the second call on

---
 lib/algorithms/misc/strongly_connected_components.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/algorithms/misc/strongly_connected_components.h b/lib/algorithms/misc/strongly_connected_components.h
index 39d7096..eb94199 100644
--- a/lib/algorithms/misc/strongly_connected_components.h
+++ b/lib/algorithms/misc/strongly_connected_components.h
@@ -36,6 +36,7 @@ class strongly_connected_components {
         m_comp_num.resize(G->number_of_nodes());
         m_dfscount = 0;
         m_comp_count = 0;
+        m_blocksizes.clear();
         m_fpid = fpid;
 
         for (NodeID node : G->nodes()) {
-- 
2.43.0


From 1fd65a1f8918014d2dc351f5908e88c8d919b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 24/69] fix: limited push-relabel wrote past the end of its
 label counts on small graphs

---
 lib/algorithms/flow/push_relabel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/flow/push_relabel.h b/lib/algorithms/flow/push_relabel.h
index eb6a41a..478f691 100644
--- a/lib/algorithms/flow/push_relabel.h
+++ b/lib/algorithms/flow/push_relabel.h
@@ -84,7 +84,8 @@ class push_relabel {
         size_t depthPR = configuration::getConfig()->depthOfPartialRelabeling;
 
         if constexpr (limited && initial) {
-            size_t fillValue = depthPR + 1;
+            // distance labels never need to exceed the number of vertices
+            size_t fillValue = std::min<size_t>(depthPR + 1, m_G->n());
             std::fill(m_distance.begin(), m_distance.end(), fillValue);
             m_count[0] = 0;
             m_count[fillValue] = m_G->n() - 1;
-- 
2.43.0


From da579d89f87b43c68bb3aff9ca8dcb7fba46ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 25/69] fix: heavy triangles were found with unsorted edge
 weights

---
 lib/coarsening/contraction_tests.h          | 3 +--
 lib/parallel/coarsening/contraction_tests.h | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index dfae4c1..7f0f300 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -25,8 +25,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight
-                      w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index f75c62e..bee6f6e 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -29,7 +29,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
-- 
2.43.0


From b2267bdf1b4c6ce966971f06f70e8d8ba0a25912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 26/69] fix: local tests for all cuts used wrong degrees of
 merged vertices

---
 .../global_mincut/cactus/all_cut_local_red.h  | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
index c8ceb6c..1392d9c 100644
--- a/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
+++ b/lib/algorithms/global_mincut/cactus/all_cut_local_red.h
@@ -31,7 +31,6 @@ class all_cut_local_red {
                                        EdgeWeight limit) {
         union_find uf(G->number_of_nodes());
         std::vector<EdgeWeight> degrees;
-        std::vector<bool> contracted(G->number_of_nodes(), false);
 
         for (NodeID n : G->nodes()) {
             degrees.push_back(G->getWeightedNodeDegree(n));
@@ -39,22 +38,17 @@ class all_cut_local_red {
 
         for (NodeID n : G->nodes()) {
             for (EdgeID e : G->edges_of(n)) {
-                NodeID target = uf.Find(G->getEdgeTarget(n, e));
-                NodeID source = uf.Find(n);
+                // degrees of the input graph, as the degree of a contracted
+                // vertex is not known when it has more edges to the target
+                NodeID t = G->getEdgeTarget(n, e);
                 EdgeWeight wgt = G->getEdgeWeight(n, e);
 
-                if (target != source
-                    && (wgt > limit
-                        || 2 * wgt > degrees[source]
-                        || 2 * wgt > degrees[target])
-                    && degrees[source] > limit
-                    && degrees[target] > limit) {
-                    EdgeWeight new_w =
-                        degrees[source] + degrees[target] - (2 * wgt);
-
-                    degrees[source] = new_w;
-                    degrees[target] = new_w;
-                    uf.Union(source, target);
+                if ((wgt > limit
+                     || 2 * wgt > degrees[n]
+                     || 2 * wgt > degrees[t])
+                    && degrees[n] > limit
+                    && degrees[t] > limit) {
+                    uf.Union(n, t);
                 }
             }
         }
-- 
2.43.0


From bcf7995117368754c20474c1de81f6d15248425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 27/69] fix: make linking in the concurrent union-find atomic

Parent and rank were changed by separate operations, so that two unions of the
same sets could both succeed, or even create a cycle of parents.
---
 lib/parallel/data_structure/union_find.h | 63 +++++++++++++-----------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/lib/parallel/data_structure/union_find.h b/lib/parallel/data_structure/union_find.h
index 71080ae..147c545 100644
--- a/lib/parallel/data_structure/union_find.h
+++ b/lib/parallel/data_structure/union_find.h
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <utility>
 #include <vector>
 
@@ -22,10 +23,9 @@
 // This is sometimes also caled "disjoint sets datastructure.
 class union_find {
  public:
-    explicit union_find(unsigned n) : m_parent(n), m_rank(n) {
-        for (unsigned i = 0; i < m_parent.size(); i++) {
-            m_parent[i] = i;
-            m_rank[i] = 0;
+    explicit union_find(unsigned n) : m_elements(n) {
+        for (unsigned i = 0; i < m_elements.size(); i++) {
+            m_elements[i] = pack(i, 0);
         }
     }
 
@@ -42,15 +42,15 @@ class union_find {
                 return false;
             }
 
-            r_lhs = m_rank[lhs];
-            r_rhs = m_rank[rhs];
+            r_lhs = rank(lhs);
+            r_rhs = rank(rhs);
 
             if (r_lhs > r_rhs || (r_lhs == r_rhs && lhs > rhs)) {
                 std::swap(lhs, rhs);
                 std::swap(r_lhs, r_rhs);
             }
 
-            if (UpdateRoot(lhs, r_lhs, rhs, r_rhs))
+            if (UpdateRoot(lhs, r_lhs, rhs, r_lhs))
                 break;
         }
 
@@ -67,27 +67,28 @@ class union_find {
             y = Find(y);
             if (x == y)
                 return true;
-            if (m_parent[x] == x) {
+            if (parent(x) == x) {
                 return false;
             }
         }
     }
 
     inline unsigned Find(unsigned element) {
-        while (m_parent[element] != element) {
-            unsigned next = m_parent[element];
+        while (parent(element) != element) {
+            uint64_t old = m_elements[element];
+            unsigned next = parent(static_cast<unsigned>(old));
             // CAS path halving
-            __sync_bool_compare_and_swap(&m_parent[element], next,
-                                         m_parent[next]);
-            element = m_parent[next];
+            __sync_bool_compare_and_swap(&m_elements[element], old,
+                                         pack(parent(next), old >> 32));
+            element = parent(next);
         }
         return element;
     }
 
     inline unsigned n() {
-        std::vector<bool> found(m_parent.size(), false);
+        std::vector<bool> found(m_elements.size(), false);
         unsigned n = 0;
-        for (auto& e : m_parent) {
+        for (unsigned e = 0; e < m_elements.size(); ++e) {
             if (!found[Find(e)]) {
                 ++n;
                 found[Find(e)] = true;
@@ -97,22 +98,26 @@ class union_find {
     }
 
  private:
-    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
-        unsigned old = x;
-        if (m_parent[old] != x || m_rank[old] != xr) {
-            return false;
-        }
+    // parent and rank are changed together, as the rank of an element must
+    // not change between the check and the update of its parent. An element
+    // keeps its rank when it is linked, so that ranks never decrease on the
+    // way to the root.
+    static inline uint64_t pack(uint64_t parent, uint64_t rank) {
+        return (rank << 32) | parent;
+    }
 
-        if (__sync_bool_compare_and_swap(&m_parent[x], old, y)) {
-            if (__sync_bool_compare_and_swap(&m_rank[x], m_rank[old], yr)) {
-                return true;
-            }
+    inline unsigned parent(unsigned x) {
+        return static_cast<unsigned>(m_elements[x]);
+    }
 
-            __sync_bool_compare_and_swap(&m_parent[x], y, old);
-        }
-        return false;
+    inline unsigned rank(unsigned x) {
+        return static_cast<unsigned>(m_elements[x] >> 32);
+    }
+
+    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
+        return __sync_bool_compare_and_swap(&m_elements[x],
+                                            pack(x, xr), pack(y, yr));
     }
 
-    std::vector<unsigned> m_parent;
-    std::vector<unsigned> m_rank;
+    std::vector<uint64_t> m_elements;
 };
-- 
2.43.0


From 24cd68238bc9de6943d7a3a67ed68c26288673ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:08 +0000
Subject: [PATCH 28/69] fix: keep the queue consistent with the keys in the
 parallel connectivity scan

A vertex visited by another thread between the two checks had its key raised
but not its position in the queue, so that a later vertex was scanned too early
and contracted across a lighter cut.
---
 lib/parallel/algorithm/exact_parallel_minimum_cut.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/parallel/algorithm/exact_parallel_minimum_cut.h b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
index 2f647c1..dbbc200 100644
--- a/lib/parallel/algorithm/exact_parallel_minimum_cut.h
+++ b/lib/parallel/algorithm/exact_parallel_minimum_cut.h
@@ -233,12 +233,13 @@ class exact_parallel_minimum_cut : public minimum_cut {
                                     std::min(r_v[tgt] + wgt,
                                              mincut);
                                 r_v[tgt] = new_rv;
-                                if (!visited[tgt] && !local_visited[tgt]) {
-                                    if (pq.contains(tgt)) {
-                                        pq.increaseKey(tgt, new_rv);
-                                    } else {
-                                        pq.insert(tgt, new_rv);
-                                    }
+                                // the queue needs to know every change of
+                                // r_v, even if another thread visited tgt
+                                // in the meantime
+                                if (pq.contains(tgt)) {
+                                    pq.increaseKey(tgt, new_rv);
+                                } else {
+                                    pq.insert(tgt, new_rv);
                                 }
                             }
                         }
-- 
2.43.0


From 0d3d12b156c2b2bc6745e301420e1fd55b8234fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 29/69] fix: map vertices to the index of their multiterminal
 problem

Components without two terminals have no problem, so the component id is not its index.
---
 lib/algorithms/multicut/multiterminal_cut.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 801884b..8853ff7 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -265,7 +265,7 @@ class multiterminal_cut {
 
                 for (size_t i = 0; i < mapping.size(); ++i) {
                     NodeID n = mapping[i];
-                    nodeProblemMapping[n] = problem;
+                    nodeProblemMapping[n] = problems.size();
                     if (positionInProblem[n] != UNDEFINED_NODE) {
                         LOG1 << "ERROR: NODE IN MULTIPLE CCs";
                         exit(1);
-- 
2.43.0


From 4840c19ded0f88f4edf75601f400cc0a5e7005b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 30/69] fix: assign all blocks when a multiterminal problem is
 solved without branching

With no edge to cut left, partition indices were those of an earlier flow.
---
 lib/algorithms/multicut/branch_multicut.h    |  3 ++-
 lib/algorithms/multicut/graph_contraction.h  | 22 ++++++++++++++++++++
 lib/algorithms/multicut/problem_management.h | 11 +++++++---
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 10f18fd..7d9f397 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -545,7 +545,8 @@ class branch_multicut {
 
         graph_contraction::deleteTermEdges(problem, original_terminals);
         if (!problem->graph->number_of_edges()) {
-            problem->upper_bound = problem->deleted_weight;
+            graph_contraction::setBlocksOfSolvedProblem(
+                problem, original_terminals);
             auto sol = msm.getSolution(problem);
             updateBestSolution(&sol, problem->terminals.size());
             return;
diff --git a/lib/algorithms/multicut/graph_contraction.h b/lib/algorithms/multicut/graph_contraction.h
index e1354e4..6b50362 100644
--- a/lib/algorithms/multicut/graph_contraction.h
+++ b/lib/algorithms/multicut/graph_contraction.h
@@ -109,6 +109,28 @@ class graph_contraction {
         setTerminals(mcp, original_terminals);
     }
 
+    // Blocks for a problem in which no edge has to be cut anymore, as at most
+    // one terminal is connected to other vertices. All contractions since the
+    // last flow left the partition indices outdated.
+    static void setBlocksOfSolvedProblem(
+        problemPointer problem,
+        const std::vector<NodeID>& original_terminals) {
+        NodeID block = 0;
+        if (problem->terminals.size() > 0)
+            block = problem->terminals[0].original_id;
+
+        for (NodeID n : problem->graph->nodes()) {
+            problem->graph->setPartitionIndex(n, block);
+        }
+
+        for (size_t i = 0; i < original_terminals.size(); ++i) {
+            NodeID o = problem->mapped(original_terminals[i]);
+            NodeID n = problem->graph->getCurrentPosition(o);
+            problem->graph->setPartitionIndex(n, i);
+        }
+        problem->upper_bound = problem->deleted_weight;
+    }
+
     static void setTerminals(problemPointer problem,
                              const std::vector<NodeID>& original_terminals) {
         std::unordered_map<NodeID, bool> invalid_flows;
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index c856bce..ee4558b 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -216,9 +216,14 @@ class problem_management {
     std::optional<FlowType> processNewProblem(
         problemPointer new_p, size_t thread_id) {
         size_t numTerminals = new_p->terminals.size();
-        if (numTerminals < 2 && runLocalSearch(new_p)) {
-            auto sol = msm.getSolution(new_p);
-            return findBestSolution(&sol, numTerminals);
+        if (numTerminals < 2) {
+            graph_contraction::setBlocksOfSolvedProblem(
+                new_p, original_terminals);
+            if (runLocalSearch(new_p)) {
+                auto sol = msm.getSolution(new_p);
+                return findBestSolution(&sol, numTerminals);
+            }
+            return std::nullopt;
         }
 
         if (numTerminals == 2) {
-- 
2.43.0


From af7d47730040c4b30544fdb31b543062e626ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 31/69] fix: drop a multiterminal subproblem in which terminals
 were contracted

There is no better solution in it; the solver exited instead.
---
 lib/algorithms/multicut/branch_multicut.h   |  5 +++++
 lib/algorithms/multicut/graph_contraction.h | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 7d9f397..7342130 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -362,6 +362,11 @@ class branch_multicut {
         if (outOfMemory())
             return;
 
+        if (graph_contraction::terminalsContracted(
+                problem, original_terminals)) {
+            return;
+        }
+
         if (problem->deleted_weight > static_cast<EdgeWeight>(pm.bestCut())) {
             return;
         }
diff --git a/lib/algorithms/multicut/graph_contraction.h b/lib/algorithms/multicut/graph_contraction.h
index 6b50362..523487c 100644
--- a/lib/algorithms/multicut/graph_contraction.h
+++ b/lib/algorithms/multicut/graph_contraction.h
@@ -131,6 +131,22 @@ class graph_contraction {
         problem->upper_bound = problem->deleted_weight;
     }
 
+    // Terminals are only contracted with each other when the problem has no
+    // solution that is better than the best known solution.
+    static bool terminalsContracted(
+        problemPointer problem,
+        const std::vector<NodeID>& original_terminals) {
+        std::unordered_set<NodeID> positions;
+        for (NodeID t : original_terminals) {
+            NodeID o = problem->mapped(t);
+            if (!positions.insert(
+                    problem->graph->getCurrentPosition(o)).second) {
+                return true;
+            }
+        }
+        return false;
+    }
+
     static void setTerminals(problemPointer problem,
                              const std::vector<NodeID>& original_terminals) {
         std::unordered_map<NodeID, bool> invalid_flows;
-- 
2.43.0


From 88723385d2d1f507903ca36933029fa4c0b29909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 32/69] fix: best multiterminal solution is initially undefined
 as a flow

UNDEFINED_NODE is 2^32 - 1, larger optimal values were lost.
---
 lib/algorithms/multicut/mpi_communication.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index 9af06b0..c437c72 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -25,7 +25,7 @@ class mpi_communication {
     static const bool debug = false;
 
     mpi_communication() : bestSolutionLocal(false),
-                          best_solution(UNDEFINED_NODE) {
+                          best_solution(UNDEFINED_FLOW) {
         MPI_Comm_size(MPI_COMM_WORLD, &mpi_size);
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
         req.resize(mpi_size);
-- 
2.43.0


From 18f5341601e3af640771b8a4976740375dc66bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 33/69] fix: bound the number of tries for random flow vertices
 by the vertices

The limit was an edge weight, so heavy weights looped for a very long time.
---
 lib/algorithms/multicut/maximum_flow.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index 17d418c..e3ee222 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -118,12 +118,14 @@ class maximum_flow {
             NodeID r = random_functions::nextInt(0, problem->graph->n() - 1);
             EdgeWeight max = problem->graph->getMaxDegree();
             size_t num_tries = 0;
+            // on heavily weighted graphs max is far larger than the graph
+            size_t max_tries = std::min<size_t>(max, 10 * problem->graph->n());
             while (((max >= (problem->graph->getWeightedNodeDegree(r)
                              + num_tries++))
                     || uf.Find(r) != r
                     || previous.count(r) > 0
                     || !active[r])
-                   && num_tries < max) {
+                   && num_tries < max_tries) {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
-- 
2.43.0


From cea15eb2dde20fa365aac8afc7fc8b2e9623287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 34/69] fix: decide on the send problem under its lock

A problem was lost when the send problem was taken between check and lock, and the lock was released twice otherwise.
---
 .../problem_queues/per_thread_problem_queue.h | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index 617657e..a6063b0 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -160,15 +160,14 @@ class per_thread_problem_queue {
         }
 
         pop_mutex[min_index].lock();
+        send_problem_mutex.lock();
 
         if (!haveSendProblem) {
-            send_problem_mutex.lock();
-
             sendProblem = p;
             sendProblemWeight = sendProblem->lower_bound;
             haveSendProblem = true;
-            pop_mutex[min_index].unlock();
             send_problem_mutex.unlock();
+            pop_mutex[min_index].unlock();
             return local_id;
         }
 
@@ -176,17 +175,13 @@ class per_thread_problem_queue {
 
         bool movedProblem = false;
         if (sendProblemWeight > p->lower_bound) {
-            send_problem_mutex.lock();
-            if (haveSendProblem) {
-                problemPointer mcp = sendProblem;
-                pq[min_index].push(mcp);
-                sendProblem = p;
-                sendProblemWeight = sendProblem->lower_bound;
-                movedProblem = true;
-                send_problem_mutex.unlock();
-            }
-            send_problem_mutex.unlock();
+            problemPointer mcp = sendProblem;
+            pq[min_index].push(mcp);
+            sendProblem = p;
+            sendProblemWeight = sendProblem->lower_bound;
+            movedProblem = true;
         }
+        send_problem_mutex.unlock();
 
         if (!movedProblem) {
             pq[min_index].push(p);
-- 
2.43.0


From 1451cdbebb11dd53195b664339cdd8a0d1cb4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 35/69] fix: remove unsound contraction of degree three
 vertices in single branching

It removed all optimal solutions of some problems.
---
 lib/algorithms/multicut/problem_management.h | 46 +++-----------------
 1 file changed, 5 insertions(+), 41 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index ee4558b..541dea8 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -83,40 +83,6 @@ class problem_management {
         best_solution.resize(original_graph.number_of_nodes());
     }
 
-    bool degreeThreeContraction(problemPointer problem,
-                                NodeID b_vtx, EdgeID b_edge) {
-        auto& g = problem->graph;
-        auto c = g->getEdgeWeight(b_vtx, b_edge);
-        NodeID term = g->getEdgeTarget(b_vtx, b_edge);
-        EdgeWeight max_incident_wgt = 0;
-        if (!(g->getUnweightedNodeDegree(b_vtx) == 3))
-            return false;
-
-        for (EdgeID e : g->edges_of(b_vtx)) {
-            auto wgt = g->getEdgeWeight(b_vtx, e);
-            if (wgt > max_incident_wgt) {
-                max_incident_wgt = wgt;
-            }
-        }
-
-        if (max_incident_wgt != c)
-            return false;
-
-        for (EdgeID e = 0; e < g->getUnweightedNodeDegree(b_vtx); ++e) {
-            if (g->getEdgeTarget(b_vtx, e) != term) {
-                problem->deleted_weight += g->getEdgeWeight(b_vtx, e);
-                g->deleteEdge(b_vtx, e);
-                --e;
-            }
-        }
-        g->contractEdge(b_vtx, 0);
-
-        for (auto& t : problem->terminals) {
-            t.invalid_flow = true;
-        }
-        return true;
-    }
-
     std::optional<problemPointer> pullProblem(
         size_t thread_id, bool send) {
         return problems.pullProblem(thread_id, send);
@@ -342,13 +308,11 @@ class problem_management {
             processNewProblem(del_p, thread_id);
         }
         // |-> edge not in multicut
-        if (!degreeThreeContraction(problem, b_vtx, b_edge)) {
-            problem->graph->contractEdge(b_vtx, b_edge);
-            problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
-            for (size_t i = 0; i < problem->terminals.size(); ++i) {
-                if (i == target_terminal_id) {
-                    problem->terminals[i].invalid_flow = true;
-                }
+        problem->graph->contractEdge(b_vtx, b_edge);
+        problem->priority_edge = { UNDEFINED_NODE, UNDEFINED_EDGE };
+        for (size_t i = 0; i < problem->terminals.size(); ++i) {
+            if (i == target_terminal_id) {
+                problem->terminals[i].invalid_flow = true;
             }
         }
 
-- 
2.43.0


From 0cb1bc0c2df7f9c9f28388ed1df02a29f4ebbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 36/69] fix: update the best multiterminal solution under its
 lock

Bound and solution were read and written by several threads without it, so a worse solution could overwrite a better one.
---
 lib/algorithms/multicut/problem_management.h | 61 ++++++++++++--------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 541dea8..11b2b1e 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -47,12 +47,15 @@ class problem_management {
     bool is_finished;
     std::atomic<uint> idle_threads;
 
-    FlowType global_upper_bound;
+    std::atomic<FlowType> global_upper_bound;
     std::vector<FlowType> terminalGUB;
     std::vector<FlowType> beforeLSGUB;
 
     std::vector<NodeID> best_solution;
-    bool bestSolutionInitialized;
+    // global_upper_bound can be lower, it might belong to a solution
+    // that is not stored yet or is stored on another worker
+    FlowType best_solution_weight;
+    std::atomic<bool> bestSolutionInitialized;
     measurements msm;
     timer t;
     int mpi_size;
@@ -76,6 +79,7 @@ class problem_management {
           global_upper_bound(UNDEFINED_FLOW),
           terminalGUB(original_terminals.size() + 1, UNDEFINED_FLOW),
           beforeLSGUB(original_terminals.size() + 1, UNDEFINED_FLOW),
+          best_solution_weight(UNDEFINED_FLOW),
           bestSolutionInitialized(false),
           msm(this->original_graph, this->original_terminals) {
         MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
@@ -235,43 +239,51 @@ class problem_management {
         local_search ls(original_graph, original_terminals,
                         fixed_vertex, current_solution);
         FlowType prev_gub = msm.flowValue(false, *current_solution);
-        if (prev_gub > beforeLSGUB[numTerminals])
-            return std::nullopt;
-
-        if (prev_gub < global_upper_bound) {
-            global_upper_bound = prev_gub;
-            LOG1 << "Improvement after " << t.elapsed()
-                 << " to " << prev_gub << " (beforehand)";
-            bestsol_mutex.lock();
-            for (size_t i = 0; i < current_solution->size(); ++i) {
-                best_solution[i] = (*current_solution)[i];
+        bool improved = false;
+        {
+            std::lock_guard<std::mutex> lock(bestsol_mutex);
+            if (prev_gub > beforeLSGUB[numTerminals])
+                return std::nullopt;
+
+            if (storeIfBetter(*current_solution, prev_gub)) {
+                improved = true;
+                LOG1 << "Improvement after " << t.elapsed()
+                     << " to " << prev_gub << " (beforehand)";
             }
-            initalizeBestSolution();
-            bestsol_mutex.unlock();
         }
         FlowType total_improvement = ls.improveSolution(t);
         FlowType ls_bound = prev_gub - total_improvement;
 
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
         if (ls_bound <= terminalGUB[numTerminals]) {
             terminalGUB[numTerminals] = ls_bound;
             beforeLSGUB[numTerminals] = prev_gub;
         }
 
-        if (ls_bound < global_upper_bound || !bestSolutionInitialized) {
-            global_upper_bound = ls_bound;
+        if (storeIfBetter(*current_solution, ls_bound)) {
+            improved = true;
             LOG1 << "Improvement after " << t.elapsed() << " to " << ls_bound;
+        }
 
-            bestsol_mutex.lock();
-            for (size_t i = 0; i < current_solution->size(); ++i) {
-                best_solution[i] = (*current_solution)[i];
-            }
-            initalizeBestSolution();
-            bestsol_mutex.unlock();
+        if (improved)
             return ls_bound;
-        }
         return std::nullopt;
     }
 
+    // only call while holding bestsol_mutex
+    bool storeIfBetter(const std::vector<NodeID>& solution, FlowType bound) {
+        if (bound >= best_solution_weight && bestSolutionInitialized)
+            return false;
+
+        for (size_t i = 0; i < solution.size(); ++i) {
+            best_solution[i] = solution[i];
+        }
+        best_solution_weight = bound;
+        global_upper_bound = std::min(bound, global_upper_bound.load());
+        initalizeBestSolution();
+        return true;
+    }
+
     void singleBranch(problemPointer problem,
                       size_t thread_id) {
         auto [b_vtx, b_edge] = findEdgeSingleBranch(problem);
@@ -355,7 +367,8 @@ class problem_management {
     }
 
     void updateBound(FlowType newSolution) {
-        global_upper_bound = std::min(newSolution, global_upper_bound);
+        std::lock_guard<std::mutex> lock(bestsol_mutex);
+        global_upper_bound = std::min(newSolution, global_upper_bound.load());
     }
 
     FlowType bestCut() {
-- 
2.43.0


From fe4522cb5f752f6f7e037da9b51dbb22b5e9fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 37/69] fix: do not take the address behind the last element in
 recvProblem

---
 lib/algorithms/multicut/mpi_communication.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/algorithms/multicut/mpi_communication.h b/lib/algorithms/multicut/mpi_communication.h
index c437c72..601ea76 100644
--- a/lib/algorithms/multicut/mpi_communication.h
+++ b/lib/algorithms/multicut/mpi_communication.h
@@ -124,16 +124,15 @@ class mpi_communication {
             size_t map_size_i = data[next_index++];
             problem->mappings.emplace_back(
                 std::make_shared<std::vector<NodeID> >());
+            auto first = data.begin() + next_index;
             problem->mappings[i]->insert(problem->mappings[i]->end(),
-                                         &data[next_index],
-                                         &data[next_index + map_size_i]);
+                                         first, first + map_size_i);
             next_index += map_size_i;
         }
 
         size_t serialsize = data[next_index++];
-        std::vector<uint64_t> serial;
-        serial.insert(serial.end(), &data[next_index],
-                      &data[next_index + serialsize]);
+        auto first = data.begin() + next_index;
+        std::vector<uint64_t> serial(first, first + serialsize);
 
         problem->graph = mutable_graph::deserialize(serial);
         LOG << mpi_rank << " returns new problem";
-- 
2.43.0


From c9abefacf57981fc1516e74ce2b25f176b817a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 38/69] fix: initialize all members of an empty multicut
 problem

A received problem had an undefined priority edge.
---
 lib/algorithms/multicut/multicut_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/multicut_problem.h b/lib/algorithms/multicut/multicut_problem.h
index 4698f22..2d10df2 100644
--- a/lib/algorithms/multicut/multicut_problem.h
+++ b/lib/algorithms/multicut/multicut_problem.h
@@ -41,7 +41,7 @@ struct terminal {
 };
 
 struct multicut_problem {
-    multicut_problem() { }
+    multicut_problem() : multicut_problem(mutableGraphPtr()) { }
 
     explicit multicut_problem(mutableGraphPtr G)
         : multicut_problem(G, std::vector<terminal>()) { }
-- 
2.43.0


From 33596bbb01ad06a06b58aa1b17c18e486be08b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 39/69] fix: finish only when no multiterminal subproblem is
 left

All threads idle and all queues empty were tested one after the other; a thread could start to work on the last problem in between.
---
 lib/algorithms/multicut/branch_multicut.h      |  8 +++++---
 lib/algorithms/multicut/problem_management.h   | 18 +++++++++++++++---
 .../problem_queues/per_thread_problem_queue.h  |  5 ++++-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 7342130..5baa558 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -212,14 +212,16 @@ class branch_multicut {
                 } else {
                     solveProblem(problem.value(), thread_id);
                 }
+                pm.finishProblem();
             } else {
                 if (!im_idle) {
                     pm.incrementIdleThreads();
                     im_idle = true;
                 }
 
-                if (pm.allThreadsIdle() && pm.allEmpty()) {
-                    if (mpi_mutex.try_lock()) {
+                if (pm.allProblemsFinished() && mpi_mutex.try_lock()) {
+                    // another thread might have received a problem
+                    if (pm.allProblemsFinished()) {
                         auto src = mpic.waitForProblem();
                         if (std::holds_alternative<int>(src)) {
                             if (sent_done) {
@@ -278,8 +280,8 @@ class branch_multicut {
                                 }
                             }
                         }
-                        mpi_mutex.unlock();
                     }
+                    mpi_mutex.unlock();
                 }
 
                 pm.waitForProblem(thread_id);
diff --git a/lib/algorithms/multicut/problem_management.h b/lib/algorithms/multicut/problem_management.h
index 11b2b1e..fea4fe7 100644
--- a/lib/algorithms/multicut/problem_management.h
+++ b/lib/algorithms/multicut/problem_management.h
@@ -46,6 +46,8 @@ class problem_management {
     std::vector<std::condition_variable> q_cv;
     bool is_finished;
     std::atomic<uint> idle_threads;
+    // problems in the queues and problems that are currently worked on
+    std::atomic<size_t> unfinished_problems;
 
     std::atomic<FlowType> global_upper_bound;
     std::vector<FlowType> terminalGUB;
@@ -76,6 +78,7 @@ class problem_management {
           q_cv(configuration::getConfig()->threads),
           is_finished(false),
           idle_threads(0),
+          unfinished_problems(0),
           global_upper_bound(UNDEFINED_FLOW),
           terminalGUB(original_terminals.size() + 1, UNDEFINED_FLOW),
           beforeLSGUB(original_terminals.size() + 1, UNDEFINED_FLOW),
@@ -224,6 +227,7 @@ class problem_management {
                 runLS = true;
             }
 
+            ++unfinished_problems;
             size_t thr = problems.addProblem(new_p, thread_id,
                                              runLocalSearch(new_p));
             q_cv[thr].notify_all();
@@ -332,8 +336,14 @@ class problem_management {
         processNewProblem(problem, thread_id);
     }
 
-    bool allEmpty() {
-        return problems.all_empty();
+    // problems are counted before they are added, and work on a problem is only
+    // finished after all of its subproblems are added. Thus, this remains true.
+    bool allProblemsFinished() {
+        return unfinished_problems == 0;
+    }
+
+    void finishProblem() {
+        --unfinished_problems;
     }
 
     bool queueEmpty(size_t thread_id) {
@@ -349,11 +359,13 @@ class problem_management {
     }
 
     void prepareQueue(size_t thread_id) {
-        problems.prepareQueue(thread_id, global_upper_bound);
+        unfinished_problems -=
+            problems.prepareQueue(thread_id, global_upper_bound);
     }
 
     void addProblem(problemPointer p,
                     size_t thread_id, bool preferLocal) {
+        ++unfinished_problems;
         problems.addProblem(p, thread_id, preferLocal);
     }
 
diff --git a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
index a6063b0..36dd628 100644
--- a/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
+++ b/lib/algorithms/multicut/problem_queues/per_thread_problem_queue.h
@@ -80,7 +80,8 @@ class per_thread_problem_queue {
     }
     ~per_thread_problem_queue() { }
 
-    void prepareQueue(size_t local_id, FlowType global_upper_bound) {
+    size_t prepareQueue(size_t local_id, FlowType global_upper_bound) {
+        size_t removed = 0;
         pop_mutex[local_id].lock();
         while (pq[local_id].size() > 0) {
             problemPointer current_problem = pq[local_id].top();
@@ -88,11 +89,13 @@ class per_thread_problem_queue {
                 pq[local_id].pop();
                 sizes[local_id].first -= 1;
                 sizes[local_id].second = true;
+                ++removed;
             } else {
                 break;
             }
         }
         pop_mutex[local_id].unlock();
+        return removed;
     }
 
     std::optional<problemPointer> pullProblem(size_t local_id, bool sending) {
-- 
2.43.0


From d3a274a5be1f1400cd8a864b8572e63b737af3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:01 +0000
Subject: [PATCH 40/69] fix: promise a problem to another process only when
 there is one

The receiver waited forever when another thread took it. Also tell all processes that the search is done.
---
 lib/algorithms/multicut/branch_multicut.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 5baa558..93d888e 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -196,16 +196,20 @@ class branch_multicut {
                     pm.updateBound(mpic.getGlobalBestSolution());
                 }
 
-                std::optional<int> sending = std::nullopt;
-                if (mpi_size > 1 && thread_id == 0 && pm.numProblems() > 1) {
-                    sending = mpic.checkForReceiver();
-                }
+                bool may_send = mpi_size > 1 && thread_id == 0
+                                && pm.numProblems() > 1;
 
-                auto problem = pm.pullProblem(thread_id, sending.has_value());
+                auto problem = pm.pullProblem(thread_id, may_send);
                 if (!problem.has_value()) {
                     continue;
                 }
 
+                // only promise a problem to a receiver when we have one
+                std::optional<int> sending = std::nullopt;
+                if (may_send) {
+                    sending = mpic.checkForReceiver();
+                }
+
                 if (sending.has_value()) {
                     // forget this problem if it was sent to another worker
                     mpic.sendProblem(problem.value(), sending.value());
@@ -237,6 +241,7 @@ class branch_multicut {
                             if (std::get<bool>(src)) {
                                 pm.setFinish();
                                 pm.notifyAllThreads();
+                                mpi_mutex.unlock();
                                 return;
                             }
 
@@ -265,10 +270,11 @@ class branch_multicut {
                                         MPI_Request fr;
                                         MPI_Isend(&fnl, 1, MPI_INT, i, 3000,
                                                   MPI_COMM_WORLD, &fr);
-                                        pm.setFinish();
-                                        pm.notifyAllThreads();
-                                        return;
                                     }
+                                    pm.setFinish();
+                                    pm.notifyAllThreads();
+                                    mpi_mutex.unlock();
+                                    return;
                                 }
                             } else {
                                 if (!sent_done) {
-- 
2.43.0


From 4fa873c81a00f88cfd12dea2753edaa91d48766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:34 +0000
Subject: [PATCH 41/69] fix: don't contract a terminal of degree 3 into its
 neighbour

---
 lib/algorithms/multicut/kernelization_criteria.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/kernelization_criteria.h b/lib/algorithms/multicut/kernelization_criteria.h
index 50c16a1..89dc675 100644
--- a/lib/algorithms/multicut/kernelization_criteria.h
+++ b/lib/algorithms/multicut/kernelization_criteria.h
@@ -186,7 +186,8 @@ class kernelization_criteria {
             if (graph->getUnweightedNodeDegree(n) == 1) {
                 NodeID tgt = graph->getEdgeTarget(n, 0);
                 uf.Union(n, tgt);
-                if (graph->getUnweightedNodeDegree(tgt) == 3) {
+                if (graph->getUnweightedNodeDegree(tgt) == 3
+                    && !terminals[tgt]) {
                     // this will become a degree 2 vertex
                     // so we run the degree 2 contraction
                     EdgeID reverse = graph->getReverseEdge(n, 0);
-- 
2.43.0


From 5d0a0fdd9d306cf871b9c041e1403c41024701fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:34 +0000
Subject: [PATCH 42/69] fix: don't use terminals as sources of non-terminal
 flows

---
 lib/algorithms/multicut/maximum_flow.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index e3ee222..d5c3942 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -129,6 +129,11 @@ class maximum_flow {
                 r = random_functions::nextInt(0, problem->graph->n() - 1);
             }
 
+            // isolating cuts of terminals can overlap, so don't contract them
+            if (previous.count(r) > 0) {
+                continue;
+            }
+
             previous.insert(r);
             std::vector<NodeID> terms;
             for (const auto& t : problem->terminals) {
@@ -160,7 +165,7 @@ class maximum_flow {
             NodeID last = hdv.size() - 1;
             NodeID idx = random_functions::nextInt(last * hd_factor, last);
             NodeID r = hdv[idx];
-            if (uf.Find(r) != r) {
+            if (uf.Find(r) != r || previous.count(r) > 0) {
                 continue;
             }
 
-- 
2.43.0


From 906eedb4f9529cebb55c81618b71bbf97214ebb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:34 +0000
Subject: [PATCH 43/69] fix: contract overlapping isolating cuts only once

---
 lib/algorithms/multicut/maximum_flow.h | 28 ++++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/lib/algorithms/multicut/maximum_flow.h b/lib/algorithms/multicut/maximum_flow.h
index d5c3942..7cd99bf 100644
--- a/lib/algorithms/multicut/maximum_flow.h
+++ b/lib/algorithms/multicut/maximum_flow.h
@@ -95,6 +95,20 @@ class maximum_flow {
         union_find uf(problem->graph->n());
         std::unordered_set<NodeID> previous;
 
+        // isolating cuts of different vertices may overlap. Contracting their
+        // union is not valid, so each vertex is only contracted into one set.
+        std::vector<bool> in_set(problem->graph->n(), false);
+        auto contractSourceSet = [&](const std::vector<NodeID>& source_set) {
+            NodeID source = source_set[0];
+            if (in_set[source]) return;
+            for (const auto& s : source_set) {
+                if (!in_set[s]) {
+                    in_set[s] = true;
+                    uf.Union(s, source);
+                }
+            }
+        };
+
         std::vector<std::future<std::vector<NodeID> > > futures;
         std::vector<push_relabel<false, true> > prs(
             configuration::getConfig()->random_flows +
@@ -152,9 +166,7 @@ class maximum_flow {
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                contractSourceSet(sourceSet);
             }
         }
 
@@ -188,19 +200,13 @@ class maximum_flow {
                 auto sourceSet = pr.solve_max_flow_min_cut(
                     problem->graph, terms, num_t, true).second;
 
-                for (const auto& s : sourceSet) {
-                    uf.Union(s, r);
-                }
+                contractSourceSet(sourceSet);
             }
         }
 
         for (size_t i = 0; i < futures.size(); ++i) {
             auto& t = futures[i];
-            const auto& vec = t.get();
-            NodeID head = vec[0];
-            for (const auto& n : vec) {
-                uf.Union(n, head);
-            }
+            contractSourceSet(t.get());
         }
 
         return uf;
-- 
2.43.0


From a696462faf7e7bc489ac54a6525b8fdefbc75dea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 44/69] fix: random terminals are drawn without replacement

---
 lib/algorithms/multicut/multiterminal_cut.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/multicut/multiterminal_cut.h b/lib/algorithms/multicut/multiterminal_cut.h
index 8853ff7..b8accc3 100644
--- a/lib/algorithms/multicut/multiterminal_cut.h
+++ b/lib/algorithms/multicut/multiterminal_cut.h
@@ -15,6 +15,7 @@
 
 #include <algorithm>
 #include <memory>
+#include <numeric>
 #include <queue>
 #include <tuple>
 #include <unordered_set>
@@ -314,8 +315,15 @@ class multiterminal_cut {
 
     std::vector<NodeID> randomTerminals(mutableGraphPtr G) {
         std::vector<NodeID> terminals;
-        for (int i = 0; i < configuration::getConfig()->random_k; ++i) {
-            terminals.emplace_back(random_functions::nextInt(0, G->n() - 1));
+        std::vector<NodeID> candidates(G->n());
+        std::iota(candidates.begin(), candidates.end(), 0);
+        size_t k = std::min<size_t>(configuration::getConfig()->random_k,
+                                    G->n());
+        for (size_t i = 0; i < k; ++i) {
+            // draw without replacement, so that the terminals are distinct
+            size_t r = random_functions::nextInt(i, G->n() - 1);
+            std::swap(candidates[i], candidates[r]);
+            terminals.emplace_back(candidates[i]);
             LOG << "Set random terminal " << terminals.back();
         }
         return terminals;
-- 
2.43.0


From 009ea184a5fd9ccd4407a1e8cf6f99393c62a85e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 45/69] fix: the highest percentile of the degrees read past
 the end

---
 lib/data_structure/graph_access.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/data_structure/graph_access.h b/lib/data_structure/graph_access.h
index 26f0875..b9ddd53 100644
--- a/lib/data_structure/graph_access.h
+++ b/lib/data_structure/graph_access.h
@@ -529,7 +529,8 @@ class graph_access {
 
         std::vector<EdgeWeight> deg = m_degree;
 
-        size_t el = static_cast<double>(deg.size()) * perc;
+        size_t el = std::min<size_t>(static_cast<double>(deg.size()) * perc,
+                                     deg.size() - 1);
 
         std::nth_element(deg.begin(), deg.begin() + el, deg.end());
 
-- 
2.43.0


From 1903930741936c2f7db1ee9324ddbaa30deb9516 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 46/69] fix: weighted edge sampling did not terminate on
 disconnected graphs

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index 117c0c8..effdac3 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -141,6 +141,16 @@ class ks_minimum_cut : public minimum_cut {
 
         EdgeWeight num_edges = wgt;
 
+        // in a disconnected graph, fewer than n_reduce edges might be
+        // contractible
+        NodeID components = G->number_of_nodes();
+        union_find connected(G->number_of_nodes());
+        for (EdgeID e = 0; e < G->number_of_edges(); ++e) {
+            if (connected.Union(G->getEdgeSource(e), G->getEdgeTarget(e)))
+                --components;
+        }
+        n_reduce = std::min(n_reduce, currentN - components);
+
         size_t contracted = 0;
         std::mt19937_64 m_mt(iteration);
 
-- 
2.43.0


From 806a014050955a573c8be42bd6848de66db85846 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 47/69] fix: random matching divided by zero at isolated
 vertices and matched single vertices again

---
 lib/coarsening/sparsify.h          | 9 +++++----
 lib/parallel/coarsening/sparsify.h | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index ca6af7f..8044419 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -66,20 +66,21 @@ class sparsify {
             if (edge_matching[n] == n) {
                 size_t no_try = 0;
                 NodeID matchingPartner = n;
-                while (no_try < MAX_TRIES) {
+                EdgeID modulo = G_in->getUnweightedNodeDegree(n);
+                while (modulo > 0 && no_try < MAX_TRIES) {
                     // match with a random neighbor
                     EdgeID s = G_in->get_first_edge(n);
-                    EdgeID modulo = G_in->getUnweightedNodeDegree(n);
                     EdgeID r = s + (random_functions::next() % modulo);
                     NodeID tgt = G_in->getEdgeTarget(r);
-                    if (edge_matching[tgt] == tgt) {
+                    // unmatched vertices before n stay on their own
+                    if (tgt > n && edge_matching[tgt] == tgt) {
                         matchingPartner = tgt;
                         break;
                     }
                     no_try++;
                 }
 
-                if (no_try == MAX_TRIES) {
+                if (matchingPartner == n) {
                     coarse_mapping[n] = no_of_coarse_vertices;
                     edge_matching[n] = n;
                     no_of_coarse_vertices++;
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 124226c..4f1f506 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -297,15 +297,16 @@ class sparsify {
             if (edge_matching[n] == n) {
                 size_t no_try = 0;
                 NodeID matchingPartner = n;
-                while (no_try < MAX_TRIES) {
+                EdgeID modulo = G_in->getUnweightedNodeDegree(n);
+                while (modulo > 0 && no_try < MAX_TRIES) {
                     // match with a random neighbor
                     EdgeID s = G_in->get_first_edge(n);
-                    EdgeID modulo = G_in->getUnweightedNodeDegree(n);
                     EdgeID r = s + (random_functions::next() % modulo);
 
                     NodeID tgt = G_in->getEdgeTarget(r);
 
-                    if (edge_matching[tgt] == tgt) {
+                    // unmatched vertices before n stay on their own
+                    if (tgt > n && edge_matching[tgt] == tgt) {
                         matchingPartner = tgt;
                         break;
                     }
@@ -313,7 +314,7 @@ class sparsify {
                     no_try++;
                 }
 
-                if (no_try == MAX_TRIES) {
+                if (matchingPartner == n) {
                     coarse_mapping[n] = no_of_coarse_vertices;
                     edge_matching[n] = n;
                     no_of_coarse_vertices++;
-- 
2.43.0


From 4b26982357ecb7aa0d1d0e1a3340da207b6d6c07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 48/69] fix: removing heavy vertices dropped the edge weights

---
 lib/coarsening/sparsify.h          | 3 ++-
 lib/parallel/coarsening/sparsify.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/coarsening/sparsify.h b/lib/coarsening/sparsify.h
index 8044419..5650563 100644
--- a/lib/coarsening/sparsify.h
+++ b/lib/coarsening/sparsify.h
@@ -205,7 +205,8 @@ class sparsify {
                     NodeID target = G_in->getEdgeTarget(e);
                     size_t pretgt = prefixsum[target];
                     if (prefixsum[target] < G_in->number_of_nodes()) {
-                        G_out->new_edge(pre, pretgt);
+                        EdgeID new_edge = G_out->new_edge(pre, pretgt);
+                        G_out->setEdgeWeight(new_edge, G_in->getEdgeWeight(e));
                         actually_edges++;
                     }
                 }
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 4f1f506..1cc5d76 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -447,7 +447,8 @@ class sparsify {
                     NodeID target = G_in->getEdgeTarget(e);
                     size_t pretgt = prefixsum[target];
                     if (prefixsum[target] < G_in->number_of_nodes()) {
-                        G_out->new_edge(pre, pretgt);
+                        EdgeID new_edge = G_out->new_edge(pre, pretgt);
+                        G_out->setEdgeWeight(new_edge, G_in->getEdgeWeight(e));
                         actually_edges++;
                     }
                 }
-- 
2.43.0


From b18a7aad62e0de3182cf894f5f52a880ec0dd465 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 49/69] fix: shared-memory edge sampling on several threads and
 on graphs with few edges

---
 lib/parallel/coarsening/sparsify.h | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 1cc5d76..574ce22 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -53,9 +53,11 @@ class sparsify {
  public:
     NodeID sample_contractible_weighted(graphAccessPtr G,
                                         union_find* uf) {
-        NodeID n_reduce;
+        // a thread only samples its own edges, which do not need to contain
+        // enough contractible ones
+        const size_t MAX_TRIES = 100;
         timer t;
-        size_t num_threads = omp_get_num_threads();
+        size_t num_threads = 1;
         std::vector<std::vector<EdgeWeight> > prefixsum;
 
         std::vector<EdgeWeight> processor_prefixes;
@@ -63,6 +65,7 @@ class sparsify {
 #pragma omp parallel
         {
             if (!omp_get_thread_num()) {
+                num_threads = omp_get_num_threads();
                 prefixsum.resize(num_threads);
                 processor_prefixes.resize(num_threads);
             }
@@ -77,9 +80,8 @@ class sparsify {
             auto id = omp_get_thread_num();
             prefixsum[id].reserve(per_thread);
 
-            EdgeID my_start = id * per_thread;
-            EdgeID my_end = std::min((id + 1) * per_thread,
-                                     G->number_of_edges());
+            EdgeID my_start = std::min(id * per_thread, m);
+            EdgeID my_end = std::min((id + 1) * per_thread, m);
 
             for (size_t m = my_start; m < my_end; ++m) {
                 wgt += G->getEdgeWeight(m);
@@ -95,20 +97,21 @@ class sparsify {
             }
 
             for (size_t m = my_start; m < my_end; ++m) {
-                prefixsum[m / per_thread][m % per_thread] += my_prefix;
+                prefixsum[id][m - my_start] += my_prefix;
             }
 
             double factor = configuration::getConfig()->contraction_factor;
-            n_reduce = std::min(static_cast<NodeID>(
+            NodeID n_reduce = std::min(static_cast<NodeID>(
                                     static_cast<double>(G->number_of_nodes())
                                     * factor),
-                                G->number_of_nodes() - 2);
+                                       G->number_of_nodes() - 2);
             size_t contracted = 0;
             std::mt19937_64 m_mt(configuration::getConfig()->seed);
             n_reduce /= num_threads;
 
 #pragma omp barrier
-            while (contracted < n_reduce) {
+            for (size_t tries = 0; wgt > 0 && contracted < n_reduce
+                 && tries < MAX_TRIES * n_reduce; ++tries) {
                 auto random = m_mt();
                 EdgeWeight e_rand = (random % processor_prefixes[id])
                                     + my_prefix;
@@ -132,7 +135,7 @@ class sparsify {
             }
         }
 
-        return G->number_of_nodes() - n_reduce * num_threads;
+        return uf->n();
     }
 
     NodeID sample_contractible_separate(graphAccessPtr G,
@@ -151,7 +154,7 @@ class sparsify {
             EdgeID my_start = my_range * omp_get_thread_num();
             size_t tries = 0;
             NodeID my_reduced = 0;
-            while (tries < to_try) {
+            while (my_range > 0 && tries < to_try) {
                 EdgeWeight e_rand = (m_mt() % my_range) + my_start;
                 tries++;
 
@@ -173,6 +176,10 @@ class sparsify {
     NodeID sample_geometric(graphAccessPtr G,
                             union_find* uf) {
         timer t;
+        if (G->number_of_edges() == 0
+            || configuration::getConfig()->contraction_factor <= 0) {
+            return uf->n();
+        }
     #pragma omp parallel
         {
             double n = G->number_of_nodes();
@@ -186,8 +193,8 @@ class sparsify {
             double prob =
                 samples / (m * configuration::getConfig()->threads - samples);
 
-            if (prob > 1) {
-                LOG1 << "WARNING: Edge Sampling Probability larger than 1.";
+            if (!(prob > 0 && prob < 1)) {
+                LOG1 << "WARNING: Edge Sampling Probability not in (0, 1).";
                 LOG1 << "Setting it to a valid value of 0.5.";
                 prob = 0.5;
             }
@@ -229,7 +236,7 @@ class sparsify {
             size_t tries = 0;
             n_reduce = n_reduce / configuration::getConfig()->threads;
 
-            while (tries < to_try) {
+            while (num_edges > 0 && tries < to_try) {
                 EdgeWeight e_rand = m_mt() % num_edges;
                 tries++;
 
-- 
2.43.0


From d2e1c713a015a754657fdcbd05f2cd09c8858c0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:40:41 +0000
Subject: [PATCH 50/69] fix: mincut -q selects the priority queue

---
 app/mincut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/mincut.cpp b/app/mincut.cpp
index b8b3034..1051941 100644
--- a/app/mincut.cpp
+++ b/app/mincut.cpp
@@ -50,7 +50,7 @@ int main(int argn, char** argv) {
     cmdl.add_stringlist('p', "proc", procs, "number of processes");
 #endif
     cmdl.add_param_string("algo", cfg->algorithm, "algorithm name");
-    cmdl.add_string('q', "pq", cfg->queue_type,
+    cmdl.add_string('q', "pq", cfg->pq,
                     "name of priority queue implementation");
     cmdl.add_size_t('i', "iter", num_iterations, "number of iterations");
     cmdl.add_bool('l', "disable_limiting", cfg->disable_limiting,
-- 
2.43.0


From ca9080570d19928f93f10b86cb147e95214af589 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:40:41 +0000
Subject: [PATCH 51/69] fix: mincut ks printed the usage, as there was no
 variant for mutable graphs

---
 lib/algorithms/global_mincut/ks_minimum_cut.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/algorithms/global_mincut/ks_minimum_cut.h b/lib/algorithms/global_mincut/ks_minimum_cut.h
index effdac3..76698ad 100644
--- a/lib/algorithms/global_mincut/ks_minimum_cut.h
+++ b/lib/algorithms/global_mincut/ks_minimum_cut.h
@@ -24,6 +24,7 @@
 #include "algorithms/global_mincut/minimum_cut.h"
 #include "algorithms/global_mincut/noi_minimum_cut.h"
 #include "data_structure/graph_access.h"
+#include "data_structure/mutable_graph.h"
 #include "tools/random_functions.h"
 #include "tools/timer.h"
 
@@ -47,6 +48,20 @@ class ks_minimum_cut : public minimum_cut {
 
     ~ks_minimum_cut() { }
 
+    EdgeWeight perform_minimum_cut(mutableGraphPtr G) {
+        if (!G) {
+            return -1;
+        }
+        graphAccessPtr GA = G->to_graph_access();
+        EdgeWeight mincut = perform_minimum_cut(GA);
+
+        for (NodeID n : G->nodes()) {
+            G->setNodeInCut(n, GA->getNodeInCut(n));
+        }
+
+        return mincut;
+    }
+
     EdgeWeight perform_minimum_cut(graphAccessPtr G) {
         if (!G) {
             return -1;
-- 
2.43.0


From 5c999289ca7013bdb66169e94516b97b3fb3929d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:40:41 +0000
Subject: [PATCH 52/69] fix: mincut_contract could not be called, ignored its
 contraction factor and wrote no cut

---
 app/mincut_contract.cpp            | 18 +++++++++++++-----
 lib/parallel/coarsening/sparsify.h |  4 ++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/app/mincut_contract.cpp b/app/mincut_contract.cpp
index 1b118ec..6cbbe8b 100644
--- a/app/mincut_contract.cpp
+++ b/app/mincut_contract.cpp
@@ -43,7 +43,6 @@ int main(int argn, char** argv) {
     tlx::CmdlineParser cmdl;
 
     int iter = 1;
-    double contraction_factor;
 
     cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
                           "path to graph file");
@@ -58,12 +57,14 @@ int main(int argn, char** argv) {
                           "algorithm name ('vc', 'noi', 'matula', 'pr', 'ks')");
 #endif
 
-    cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
-                          "path to graph file");
     cmdl.add_string('q', "pq", configuration::getConfig()->pq,
                     "name of priority queue implementation");
     cmdl.add_int('i', "iter", iter, "number of iterations");
-    cmdl.add_double('c', "contraction factor", contraction_factor,
+    cmdl.add_bool('l', "disable_limiting",
+                  configuration::getConfig()->disable_limiting,
+                  "disable limiting of PQ values");
+    cmdl.add_double('c', "contraction_factor",
+                    configuration::getConfig()->contraction_factor,
                     "contract until only 1 - factor of vertices are left");
     cmdl.add_bool('s', "save_cut", configuration::getConfig()->save_cut,
                   "compute and store minimum cut");
@@ -115,6 +116,7 @@ int main(int argn, char** argv) {
                 configuration::getConfig()->algorithm);
             t.restart();
             omp_set_num_threads(numthread);
+            configuration::getConfig()->threads = numthread;
 
             auto G2 = sf.one_ks(G);
 
@@ -122,6 +124,11 @@ int main(int argn, char** argv) {
             EdgeWeight cut = mc->perform_minimum_cut(G2);
 
             if (configuration::getConfig()->save_cut) {
+                // the cut is set in the contracted graph
+                for (NodeID n : G->nodes()) {
+                    G->setNodeInCut(
+                        n, G2->getNodeInCut(G->getPartitionIndex(n)));
+                }
                 graph_io::writeCut(G,
                                    configuration::getConfig()->graph_filename
                                    + ".cut");
@@ -129,7 +136,8 @@ int main(int argn, char** argv) {
 
             double time = t.elapsed();
             std::cout << "RESULT source=taa algo=contract"
-                      << static_cast<int>(100) * contraction_factor
+                      << static_cast<int>(100)
+                * configuration::getConfig()->contraction_factor
                       << " graph="
                       << configuration::getConfig()->graph_filename
                       << " time=" << time
diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 574ce22..953003b 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -282,6 +282,10 @@ class sparsify {
         graphAccessPtr G2 =
             contraction::contractGraph(G_in, map, rm);
 
+        for (NodeID n : G_in->nodes()) {
+            G_in->setPartitionIndex(n, map[n]);
+        }
+
         LOG1 << "t " << t.elapsed() << " for contraction from "
              << G_in->number_of_nodes() << " to " << G2->number_of_nodes();
         return G2;
-- 
2.43.0


From 4b7fa57af80ff826aeefb5695bbb56664fc3a0da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 53/69] fix: shared-memory edge sampling contracted graphs to a
 single vertex

---
 lib/parallel/coarsening/sparsify.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/parallel/coarsening/sparsify.h b/lib/parallel/coarsening/sparsify.h
index 953003b..fb104f4 100644
--- a/lib/parallel/coarsening/sparsify.h
+++ b/lib/parallel/coarsening/sparsify.h
@@ -27,9 +27,12 @@
 class sparsify {
  private:
     NodeID elementsToReduce(graphAccessPtr G) {
-        return static_cast<NodeID>(
-            static_cast<double>(G->number_of_nodes())
-            * configuration::getConfig()->contraction_factor);
+        // there is no cut in a graph with a single vertex
+        return std::min(
+            static_cast<NodeID>(
+                static_cast<double>(G->number_of_nodes())
+                * configuration::getConfig()->contraction_factor),
+            std::max<NodeID>(G->number_of_nodes(), 2) - 2);
     }
 
     auto createMappings(graphAccessPtr G,
@@ -206,13 +209,18 @@ class sparsify {
             EdgeID prev = 0;
             EdgeID e = prev;
             NodeID src = 0;
-            while (e < G->number_of_edges()) {
+            NodeID my_reduced = 0;
+            NodeID max_reduced = (std::max<NodeID>(G->number_of_nodes(), 2) - 2)
+                                 / omp_get_num_threads();
+            while (e < G->number_of_edges() && my_reduced < max_reduced) {
                 while (e >= G->get_first_edge(src + 1)) {
                     ++src;
                 }
 
                 const NodeID tgt = G->getEdgeTarget(e);
-                uf->Union(src, tgt);
+                if (uf->Union(src, tgt)) {
+                    ++my_reduced;
+                }
 
                 e += (distribution(generator) + 1);
             }
-- 
2.43.0


From a3a0307a88feecb4a7f1a0f1ddef9de2757b8127 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 54/69] fix: cactus read outdated partition indices when
 save_cut is not set

---
 lib/coarsening/contract_graph.h          | 10 ++--------
 lib/parallel/coarsening/contract_graph.h | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index ff311e4..373e39f 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -132,7 +132,6 @@ class contraction {
 
     static mutableGraphPtr fromUnionFind(mutableGraphPtr G, union_find* uf,
                                          bool copy = false) {
-        bool save_cut = configuration::getConfig()->save_cut;
         if (uf->n() == G->n() && !copy) {
             // no contraction
             return G;
@@ -148,9 +147,7 @@ class contraction {
                 part[part_id] = current_pid++;
             }
             mapping[n] = part[part_id];
-            if (save_cut) {
-                G->setPartitionIndex(n, part[part_id]);
-            }
+            G->setPartitionIndex(n, part[part_id]);
             reverse_mapping[part[part_id]].push_back(
                 G->containedVertices(n)[0]);
         }
@@ -215,7 +212,6 @@ class contraction {
         std::vector<NodeID> part(G->number_of_nodes(), UNDEFINED_NODE);
         NodeID current_pid = 0;
 
-        const bool save_cut = configuration::getConfig()->save_cut;
         for (NodeID n : G->nodes()) {
             NodeID part_id = uf->Find(n);
 
@@ -224,9 +220,7 @@ class contraction {
             }
 
             mapping[n] = part[part_id];
-            if (save_cut) {
-                G->setPartitionIndex(n, part[part_id]);
-            }
+            G->setPartitionIndex(n, part[part_id]);
             reverse_mapping[part[part_id]].push_back(n);
         }
 
diff --git a/lib/parallel/coarsening/contract_graph.h b/lib/parallel/coarsening/contract_graph.h
index 66d383e..9874f3a 100644
--- a/lib/parallel/coarsening/contract_graph.h
+++ b/lib/parallel/coarsening/contract_graph.h
@@ -183,7 +183,6 @@ class contraction {
 
     static mutableGraphPtr fromUnionFind(mutableGraphPtr G, union_find* uf,
                                          bool copy = false) {
-        bool save_cut = configuration::getConfig()->save_cut;
         std::vector<std::vector<NodeID> > reverse_mapping(uf->n());
         std::vector<NodeID> part(G->number_of_nodes(), UNDEFINED_NODE);
         std::vector<NodeID> mapping(G->n());
@@ -194,9 +193,7 @@ class contraction {
                 part[part_id] = current_pid++;
             }
             mapping[n] = part[part_id];
-            if (save_cut) {
-                G->setPartitionIndex(n, part[part_id]);
-            }
+            G->setPartitionIndex(n, part[part_id]);
             reverse_mapping[part[part_id]].push_back(
                 G->containedVertices(n)[0]);
         }
@@ -254,7 +251,6 @@ class contraction {
         union_find* uf,
         bool = false) {
         std::vector<std::vector<NodeID> > rev_mapping;
-        const bool save_cut = configuration::getConfig()->save_cut;
 
         std::vector<NodeID> mapping(G->number_of_nodes());
         std::vector<NodeID> part(G->number_of_nodes(), UNDEFINED_NODE);
@@ -268,9 +264,7 @@ class contraction {
             }
 
             mapping[n] = part[part_id];
-            if (save_cut) {
-                G->setPartitionIndex(n, part[part_id]);
-            }
+            G->setPartitionIndex(n, part[part_id]);
             rev_mapping[part[part_id]].push_back(n);
         }
         return contractGraph(G, mapping, rev_mapping);
-- 
2.43.0


From d365d927baf1ae76be0db6c666ab8668ec339da7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:44:53 +0000
Subject: [PATCH 55/69] fix: parallel cactus algorithm did not write the
 GraphML file

---
 lib/parallel/algorithm/parallel_cactus.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 3417342..32a914a 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -22,6 +22,7 @@
 #include <utility>
 #include <vector>
 
+#include "algorithms/global_mincut/cactus/cactus_mincut.h"
 #include "algorithms/global_mincut/cactus/most_balanced_minimum_cut.h"
 #include "algorithms/global_mincut/cactus/recursive_cactus.h"
 #include "algorithms/global_mincut/minimum_cut_helpers.h"
@@ -209,6 +210,12 @@ class parallel_cactus : public minimum_cut {
             most_balanced_minimum_cut<GraphPtr> mbmc;
             mb_edges = mbmc.findCutFromCactus(out_graph, mincut, graphs[0]);
         }
+
+        if (configuration::getConfig()->cactus_filename != "") {
+            _write_cactus_graphml_file(
+                out_graph, configuration::getConfig()->cactus_filename);
+        }
+
         return std::make_tuple(mincut, out_graph, mb_edges);
     }
 };
-- 
2.43.0


From d2c5a569beddb9383c1aa7342b8047d609f2cbbf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:46:58 +0000
Subject: [PATCH 56/69] fix: cactus algorithm did not set the minimum cut it
 found

---
 .../global_mincut/cactus/cactus_mincut.h           | 13 +++++++++----
 lib/algorithms/global_mincut/minimum_cut_helpers.h | 14 ++++++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 9a97994..5aa87be 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -79,15 +79,15 @@ class cactus_mincut : public minimum_cut {
         if (known_mincut == UNDEFINED_NODE) {
             viecut<GraphPtr> vc;
             mincut = vc.perform_minimum_cut(graphs.back());
+            minimum_cut_helpers<GraphPtr>::propagateCut(graphs);
         } else {
             mincut = known_mincut;
+            minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
         }
         noi_minimum_cut<GraphPtr> noi;
         std::vector<std::vector<std::pair<NodeID, NodeID> > > guaranteed_edges;
         std::vector<size_t> ge_ids;
 
-        minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
-
         NodeID previous_size = UNDEFINED_NODE;
         while (graphs.back()->number_of_nodes() * 1.01 < previous_size) {
             previous_size = graphs.back()->number_of_nodes();
@@ -164,8 +164,13 @@ class cactus_mincut : public minimum_cut {
             }
         }
 
-        if (graphs.back()->number_of_nodes() > 1)
-            mincut = noi.perform_minimum_cut(graphs.back());
+        if (graphs.back()->number_of_nodes() > 1) {
+            EdgeWeight last_mincut = noi.perform_minimum_cut(graphs.back());
+            if (last_mincut < mincut) {
+                minimum_cut_helpers<GraphPtr>::propagateCut(graphs);
+            }
+            mincut = last_mincut;
+        }
 
         rc.setMincut(mincut);
         auto out_graph = rc.flowMincut(graphs);  // This is the cactus graph!
diff --git a/lib/algorithms/global_mincut/minimum_cut_helpers.h b/lib/algorithms/global_mincut/minimum_cut_helpers.h
index f1e8615..988658f 100644
--- a/lib/algorithms/global_mincut/minimum_cut_helpers.h
+++ b/lib/algorithms/global_mincut/minimum_cut_helpers.h
@@ -85,6 +85,20 @@ class minimum_cut_helpers {
         }
     }
 
+    // set minimum cut to the cut that was found in the last graph
+    static void propagateCut(const std::vector<GraphPtr>& graphs) {
+        if (configuration::getConfig()->save_cut) {
+            for (NodeID idx : graphs[0]->nodes()) {
+                NodeID coarseID = idx;
+                for (size_t lv = 0; lv < graphs.size() - 1; ++lv) {
+                    coarseID = graphs[lv]->getPartitionIndex(coarseID);
+                }
+                graphs[0]->setNodeInCut(
+                    idx, graphs.back()->getNodeInCut(coarseID));
+            }
+        }
+    }
+
     static void retrieveMinimumCut(
         std::vector<GraphPtr> graphs) {
         GraphPtr G = graphs[0];
-- 
2.43.0


From 23f758e359a732ed44a47d07fa8c035c20cbe256 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:46:58 +0000
Subject: [PATCH 57/69] fix: parallel cactus algorithm started with an
 undefined minimum cut

---
 lib/parallel/algorithm/parallel_cactus.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index 32a914a..a7b29cd 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -86,27 +86,25 @@ class parallel_cactus : public minimum_cut {
         EdgeWeight mincut = graphs.back()->getMinDegree();
         recursive_cactus<GraphPtr> rc;
         exact_parallel_minimum_cut<GraphPtr> mc;
-        if (known_mincut != UNDEFINED_NODE) {
+        if (known_mincut == UNDEFINED_NODE) {
 #ifdef PARALLEL
             viecut<GraphPtr> heuristic_mc;
             auto G2 = graphs.back();
             mincut = heuristic_mc.perform_minimum_cut(G2, true);
             LOGC(timing) << "VieCut found cut " << mincut
                          << " [Time: " << t.elapsed() << "s]";
+            minimum_cut_helpers<GraphPtr>::propagateCut(graphs);
+#else
+            minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
 #endif
         } else {
             mincut = known_mincut;
+            minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
         }
 
         std::vector<std::vector<std::pair<NodeID, NodeID> > > guaranteed_edges;
         std::vector<size_t> ge_ids;
 
-        // if PARALLEL is set, NodeInCut are already set to the result of viecut
-        // This is what we want.
-#ifndef PARALLEL
-        minimum_cut_helpers<GraphPtr>::setInitialCutValues(graphs);
-#endif
-
         NodeID previous_size = UNDEFINED_NODE;
         bool disable_blacklist = false;
 
@@ -192,8 +190,12 @@ class parallel_cactus : public minimum_cut {
 
         // check whether there is a small cut hidden in graphs.back()
         if (graphs.back()->number_of_nodes() > 1) {
-            mincut = std::min(mincut,
-                              mc.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight last_mincut =
+                mc.perform_minimum_cut(graphs.back(), true);
+            if (last_mincut < mincut) {
+                minimum_cut_helpers<GraphPtr>::propagateCut(graphs);
+                mincut = last_mincut;
+            }
         }
 
         rc.setMincut(mincut);
-- 
2.43.0


From 39ede670ae0a4e5ae4613e974c1ba12367740ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:46 +0000
Subject: [PATCH 58/69] fix: viecut reports the cut found after coarsening

The exact algorithm improves the cut on the coarsest graph; the side of
that cut has to be transferred to the input graph.
---
 lib/algorithms/global_mincut/viecut.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 0a7e601..06c0984 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -106,7 +106,11 @@ class viecut : public minimum_cut {
         if (graphs.back()->number_of_nodes() > 1) {
             timer t;
             noi_minimum_cut<GraphPtr> noi;
-            cut = std::min(cut, noi.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight noi_cut = noi.perform_minimum_cut(graphs.back(), true);
+            if (noi_cut < cut) {
+                cut = noi_cut;
+                minimum_cut_helpers<GraphPtr>::propagateCut(graphs);
+            }
 
             LOGC(timing) << "Exact Algorithm:"
                          << t.elapsedToZero() << " deg: "
-- 
2.43.0


From f570724141bfc9c4d51bef0ee946db8c8795b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:56 +0000
Subject: [PATCH 59/69] fix: a vertex split off by the trivial cut search
 belongs to its new block

Its partition index still named the old block, so that the cut found in
the contracted graph was transferred to the wrong vertices.
---
 lib/coarsening/contract_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 373e39f..2f2d193 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -122,6 +122,7 @@ class contraction {
                     reverse_mapping.push_back({ bestNode });
                     LOG << reverse_mapping.size() << " size";
                     mapping[bestNode] = reverse_mapping.size() - 1;
+                    G->setPartitionIndex(bestNode, mapping[bestNode]);
                     p--;
                 }
             }
-- 
2.43.0


From 714cdfdda3714910f26a691c39be64e377fe7e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 60/69] fix: insertions contract every vertex that separates
 the edge's endpoints in the cactus

The breadth-first search confused the edges of the two ends where the
searches met, and left out vertices in which the path changes from one
cycle to the next. These kept minimum cuts that do not exist anymore.
---
 .../global_mincut/dynamic/cactus_path.h       | 89 ++++++++++---------
 .../global_mincut/dynamic/dynamic_mincut.h    |  4 +-
 2 files changed, 48 insertions(+), 45 deletions(-)

diff --git a/lib/algorithms/global_mincut/dynamic/cactus_path.h b/lib/algorithms/global_mincut/dynamic/cactus_path.h
index 7a6afb7..3283394 100644
--- a/lib/algorithms/global_mincut/dynamic/cactus_path.h
+++ b/lib/algorithms/global_mincut/dynamic/cactus_path.h
@@ -11,7 +11,6 @@
 
 #pragma once
 
-#include <queue>
 #include <tuple>
 #include <unordered_set>
 #include <vector>
@@ -24,53 +23,57 @@ class cactus_path {
     cactus_path() { }
     ~cactus_path() { }
 
-    static std::unordered_set<NodeID> findPath(mutableGraphPtr cactus, NodeID s,
-                                               NodeID t, EdgeWeight mincut) {
-        // BFS from both vertices
-        std::vector<std::tuple<NodeID, NodeID, bool> > parents(
-            cactus->n(), std::make_tuple(UNDEFINED_NODE, UNDEFINED_NODE, true));
-        std::queue<NodeID> nodes;
-        nodes.push(s);
-        nodes.push(t);
-        parents[s] = std::make_tuple(s, s, true);
-        parents[t] = std::make_tuple(t, t, true);
+    static std::unordered_set<NodeID> findPath(mutableGraphPtr cactus,
+                                               NodeID s, NodeID t) {
+        // DFS from t, every cycle of the cactus consists of edges to parents and
+        // one edge that leads from its lowest to its highest vertex
+        std::vector<NodeID> parent(cactus->n(), UNDEFINED_NODE);
+        std::vector<NodeID> depth(cactus->n(), UNDEFINED_NODE);
+        // lowest vertex of the cycle that the edge to the parent is part of
+        std::vector<NodeID> cycle(cactus->n(), UNDEFINED_NODE);
+        // vertex, next edge to look at, edge to parent
+        std::vector<std::tuple<NodeID, EdgeID, EdgeID> > stack;
+        stack.emplace_back(t, 0, UNDEFINED_EDGE);
+        parent[t] = t;
+        depth[t] = 0;
 
-        while (!nodes.empty()) {
-            NodeID n = nodes.front();
-            nodes.pop();
-            NodeID myRoot = std::get<1>(parents[n]);
-            for (EdgeID e : cactus->edges_of(n)) {
-                auto [tgt, wgt] = cactus->getEdge(n, e);
-                NodeID tgtRoot = std::get<1>(parents[tgt]);
-                if (tgtRoot != UNDEFINED_NODE && tgtRoot != myRoot) {
-                    // found path!
-                    std::unordered_set<NodeID> pathST;
-                    pathST.insert(tgt);
-                    pathST.insert(n);
-                    NodeID nToS = myRoot == s ? n : tgt;
-                    bool onTree = std::get<2>(parents[n]);
-                    while (nToS != s) {
-                        nToS = std::get<0>(parents[nToS]);
-                        if (onTree || std::get<2>(parents[nToS]))
-                            pathST.insert(nToS);
-                        onTree = std::get<2>(parents[nToS]);
-                    }
-                    NodeID tgtToT = myRoot == s ? tgt : n;
-                    onTree = std::get<2>(parents[tgt]);
-                    while (tgtToT != t) {
-                        tgtToT = std::get<0>(parents[tgtToT]);
-                        if (onTree || std::get<2>(parents[tgtToT]))
-                            pathST.insert(tgtToT);
-                        onTree = std::get<2>(parents[tgtToT]);
-                    }
-                    return pathST;
+        while (!stack.empty()) {
+            auto& [n, e, parentEdge] = stack.back();
+            if (e == cactus->get_first_invalid_edge(n)) {
+                stack.pop_back();
+                continue;
+            }
+
+            EdgeID current = e++;
+            NodeID tgt = cactus->getEdgeTarget(n, current);
+            if (current == parentEdge || tgt == n) {
+                continue;
+            }
+
+            if (depth[tgt] == UNDEFINED_NODE) {
+                parent[tgt] = n;
+                depth[tgt] = depth[n] + 1;
+                stack.emplace_back(
+                    tgt, 0, cactus->getReverseEdge(n, current));
+            } else if (depth[tgt] < depth[n]) {
+                for (NodeID v = n; v != tgt; v = parent[v]) {
+                    cycle[v] = n;
                 }
+            }
+        }
 
-                if (tgtRoot == UNDEFINED_NODE) {
-                    parents[tgt] = std::make_tuple(n, myRoot, wgt == mincut);
-                    nodes.push(tgt);
+        if (depth[s] != UNDEFINED_NODE) {
+            // all vertices in which the path leaves a tree edge or a cycle
+            std::unordered_set<NodeID> pathST;
+            pathST.insert(s);
+            for (NodeID n = s; n != t; n = parent[n]) {
+                NodeID p = parent[n];
+                if (p == t || cycle[n] == UNDEFINED_NODE
+                    || cycle[p] != cycle[n]) {
+                    pathST.insert(p);
                 }
             }
+            return pathST;
         }
 
         LOG1 << "Error: didn't find path!";
diff --git a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
index b643735..3443412 100644
--- a/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
+++ b/lib/algorithms/global_mincut/dynamic/dynamic_mincut.h
@@ -116,7 +116,7 @@ class dynamic_mincut {
                 }
             } else {
                 auto vtxset = cactus_path::findPath(out_cactus, sCactusPos,
-                                                    tCactusPos, current_cut);
+                                                    tCactusPos);
                 if (vtxset.size() == out_cactus->n()) {
                     LOGC(verbose) << "full recompute";
                     checkCacheAndRecompute();
@@ -155,7 +155,7 @@ class dynamic_mincut {
             NodeID tCactusPos = cached->getCurrentPosition(edge.second);
             if (wgt > 0 && sCactusPos != tCactusPos) {
                 auto vtxset = cactus_path::findPath(
-                    cached, sCactusPos, tCactusPos, mincut);
+                    cached, sCactusPos, tCactusPos);
                 if (vtxset.size() == cached->n()) {
                     return false;
                 }
-- 
2.43.0


From ca46943ef452b20c01357ec6e49c798d73b80d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:24 +0000
Subject: [PATCH 61/69] fix: a cactus of two vertices has one edge, also when
 the graph has parallel edges

---
 lib/algorithms/global_mincut/cactus/recursive_cactus.h | 2 ++
 lib/data_structure/mutable_graph.h                     | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/cactus/recursive_cactus.h b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
index dc8faaf..d4b2ace 100644
--- a/lib/algorithms/global_mincut/cactus/recursive_cactus.h
+++ b/lib/algorithms/global_mincut/cactus/recursive_cactus.h
@@ -167,6 +167,8 @@ class recursive_cactus {
             return G;
         } else {
             if (G->number_of_nodes() == 2) {
+                // the cactus has one edge, even if the graph has parallel ones
+                G->mergeParallelEdges(s, e);
                 return G;
             }
             strongly_connected_components scc;
diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index dc4bf60..0b0071a 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -964,7 +964,6 @@ class mutable_graph {
         }
     }
 
- private:
     // merge all edges parallel to edge into it, returns its new id
     EdgeID mergeParallelEdges(NodeID node, EdgeID edge) {
         NodeID target = getEdgeTarget(node, edge);
@@ -984,6 +983,7 @@ class mutable_graph {
         return edge;
     }
 
+ private:
     void internalDeleteEdge(NodeID n, EdgeID e) {
         if (vertices[n].size() > e + 1) {
             vertices[n][e] = std::move(vertices[n][vertices[n].size() - 1]);
-- 
2.43.0


From a4388e6202ebf2da188a8a805de4f679ebd6f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:05 +0000
Subject: [PATCH 62/69] fix: cactus kept degree one vertices of a cut value
 that was not minimal

---
 lib/algorithms/global_mincut/cactus/cactus_mincut.h | 3 +++
 lib/parallel/algorithm/parallel_cactus.h            | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/algorithms/global_mincut/cactus/cactus_mincut.h b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
index 5aa87be..3807da2 100644
--- a/lib/algorithms/global_mincut/cactus/cactus_mincut.h
+++ b/lib/algorithms/global_mincut/cactus/cactus_mincut.h
@@ -168,6 +168,9 @@ class cactus_mincut : public minimum_cut {
             EdgeWeight last_mincut = noi.perform_minimum_cut(graphs.back());
             if (last_mincut < mincut) {
                 minimum_cut_helpers<GraphPtr>::propagateCut(graphs);
+                // edges to degree one vertices are heavier than this cut
+                guaranteed_edges.clear();
+                ge_ids.clear();
             }
             mincut = last_mincut;
         }
diff --git a/lib/parallel/algorithm/parallel_cactus.h b/lib/parallel/algorithm/parallel_cactus.h
index a7b29cd..6d0fb4b 100644
--- a/lib/parallel/algorithm/parallel_cactus.h
+++ b/lib/parallel/algorithm/parallel_cactus.h
@@ -194,6 +194,9 @@ class parallel_cactus : public minimum_cut {
                 mc.perform_minimum_cut(graphs.back(), true);
             if (last_mincut < mincut) {
                 minimum_cut_helpers<GraphPtr>::propagateCut(graphs);
+                // edges to degree one vertices are heavier than this cut
+                guaranteed_edges.clear();
+                ge_ids.clear();
                 mincut = last_mincut;
             }
         }
-- 
2.43.0


From 15bb6c167c9e34ad2fd9d4c94e8e4e5554411061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:39 +0000
Subject: [PATCH 63/69] fix: make_graph_weighted drew an edge of isolated
 vertices

---
 app/make_graph_weighted.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/make_graph_weighted.cpp b/app/make_graph_weighted.cpp
index 7557358..e15a168 100644
--- a/app/make_graph_weighted.cpp
+++ b/app/make_graph_weighted.cpp
@@ -74,6 +74,8 @@ int main(int argn, char** argv) {
 
     size_t edges = 0;
     for (NodeID n : G->nodes()) {
+        if (G->getUnweightedNodeDegree(n) == 0)
+            continue;
         // if (!covered[n]) {
         EdgeID e_highweight = random_functions::nextInt(
             G->get_first_edge(n), G->get_first_invalid_edge(n) - 1);
-- 
2.43.0


From d396457789b6b60cd8f7e1b1a0d939cd30302c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:39 +0000
Subject: [PATCH 64/69] fix: create_augment_edges never ended when it drew a
 vertex that is adjacent to all others

---
 app/create_augment_edges.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/app/create_augment_edges.cpp b/app/create_augment_edges.cpp
index f195471..9bf154c 100644
--- a/app/create_augment_edges.cpp
+++ b/app/create_augment_edges.cpp
@@ -99,12 +99,31 @@ int main(int argn, char** argv) {
             NodeID s = UNDEFINED_NODE;
             NodeID t = UNDEFINED_NODE;
 
+            bool complete = true;
+            for (NodeID n : original_graph->nodes()) {
+                if (original_graph->getUnweightedNodeDegree(n) + 1
+                    < original_graph->n()) {
+                    complete = false;
+                    break;
+                }
+            }
+
+            if (complete) {
+                LOG1 << "Error: Graph is complete, there is no edge to insert!";
+                exit(1);
+            }
+
             while (s == UNDEFINED_NODE) {
                 NodeID r = random_functions::nextInt(0, curr->n() - 1);
                 NodeID size = curr->numContainedVertices(r);
                 if (size > 0) {
                     NodeID r2 = random_functions::nextInt(0, size - 1);
                     s = curr->containedVertices(r)[r2];
+                    // all edges of s exist already, there is none to insert
+                    if (original_graph->getUnweightedNodeDegree(s) + 1
+                        >= original_graph->n()) {
+                        s = UNDEFINED_NODE;
+                    }
                 }
             }
 
-- 
2.43.0


From 07ec42a4eeb714fcf441213f30ed3f39a2e37204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:39 +0000
Subject: [PATCH 65/69] fix: decremental_gnp never ended when a vertex was
 adjacent to all others

---
 app/decremental_gnp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/decremental_gnp.cpp b/app/decremental_gnp.cpp
index c512529..20fc22e 100644
--- a/app/decremental_gnp.cpp
+++ b/app/decremental_gnp.cpp
@@ -77,7 +77,9 @@ int main(int argn, char** argv) {
     LOG1 << "Creating edges...";
     for (auto v : G->nodes()) {
         size_t i = 0;
-        while (i < edges_per_vertex) {
+        // a vertex that is adjacent to all others can have no further edge
+        while (i < edges_per_vertex
+               && G->getUnweightedNodeDegree(v) + 1 < G->n()) {
             NodeID r = random_functions::nextInt(0, G->n() - 1);
             if (!existsEdge(G, v, r)) {
                 G->new_edge_order(v, r, 1);
-- 
2.43.0


From 27ea182349b5fd89b88b74e7c56e6bb62125a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:39 +0000
Subject: [PATCH 66/69] fix: decremental_gnp ignored its random seed

---
 app/decremental_gnp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/decremental_gnp.cpp b/app/decremental_gnp.cpp
index 20fc22e..6d4a15d 100644
--- a/app/decremental_gnp.cpp
+++ b/app/decremental_gnp.cpp
@@ -71,6 +71,8 @@ int main(int argn, char** argv) {
     if (!cmdl.process(argn, argv))
         return -1;
 
+    random_functions::setSeed(cfg->seed);
+
     auto G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     std::vector<std::pair<NodeID, NodeID> > decrementalEdges;
 
-- 
2.43.0


From 33a3ccdb58037ccd602f56d5c939fd86272491e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:52 +0000
Subject: [PATCH 67/69] fix: mincut_heavy reported a cut of weight 0 unless the
 cut was saved

---
 app/mincut_heavy.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/mincut_heavy.cpp b/app/mincut_heavy.cpp
index e506635..4f2d819 100644
--- a/app/mincut_heavy.cpp
+++ b/app/mincut_heavy.cpp
@@ -44,6 +44,7 @@ int main(int argn, char** argv) {
 
     double contraction_factor = 0.9;
     int iter = 1;
+    bool save_cut = false;
 
     cmdl.add_param_string("graph", configuration::getConfig()->graph_filename,
                           "path to graph file");
@@ -63,12 +64,15 @@ int main(int argn, char** argv) {
     cmdl.add_int('i', "iter", iter, "number of iterations");
     cmdl.add_double('c', "contraction factor", contraction_factor,
                     "contract until only 1-factor of vertices are left");
-    cmdl.add_bool('s', "save_cut", configuration::getConfig()->save_cut,
+    cmdl.add_bool('s', "save_cut", save_cut,
                   "compute and save minimum cut");
 
     if (!cmdl.process(argn, argv))
         return -1;
 
+    // the cut of the whole graph is built from the cut of the sparsified one
+    configuration::getConfig()->save_cut = true;
+
     std::vector<int> numthreads;
 
     timer t;
@@ -155,7 +159,7 @@ int main(int argn, char** argv) {
 
             quality_metrics qm;
 
-            if (configuration::getConfig()->save_cut) {
+            if (save_cut) {
                 graph_io::writeCut(
                     G, configuration::getConfig()->graph_filename + ".cut");
             }
-- 
2.43.0


From 05e939c7fb893f08271b3edf543efd40591a15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:08 +0000
Subject: [PATCH 68/69] fix: inexact multiterminal cut treated vertex 0 as a
 terminal after all terminals were removed

---
 lib/algorithms/multicut/branch_multicut.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/multicut/branch_multicut.h b/lib/algorithms/multicut/branch_multicut.h
index 93d888e..c21c5b3 100644
--- a/lib/algorithms/multicut/branch_multicut.h
+++ b/lib/algorithms/multicut/branch_multicut.h
@@ -470,6 +470,10 @@ class branch_multicut {
                 }
             }
 
+            // no terminal is connected to other vertices anymore
+            if (lightest_weight == static_cast<EdgeWeight>(UNDEFINED_FLOW))
+                break;
+
             for (size_t i = 0; i < original_terminals.size(); ++i) {
                 if (i != lightest_oid) {
                     problem->addFinishedPair(
@@ -557,7 +561,8 @@ class branch_multicut {
         }
 
         graph_contraction::deleteTermEdges(problem, original_terminals);
-        if (!problem->graph->number_of_edges()) {
+        if (!problem->graph->number_of_edges()
+            || problem->terminals.size() < 2) {
             graph_contraction::setBlocksOfSolvedProblem(
                 problem, original_terminals);
             auto sol = msm.getSolution(problem);
-- 
2.43.0


From b6994cab10d2a016ece263dc554a5ccb34e0e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:45 +0000
Subject: [PATCH 69/69] fix: decremental_gnp built its cactus without the
 vertices contained in it

---
 app/decremental_gnp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/decremental_gnp.cpp b/app/decremental_gnp.cpp
index 6d4a15d..3539dcd 100644
--- a/app/decremental_gnp.cpp
+++ b/app/decremental_gnp.cpp
@@ -72,6 +72,8 @@ int main(int argn, char** argv) {
         return -1;
 
     random_functions::setSeed(cfg->seed);
+    // the cactus needs to know the vertices of its blocks
+    cfg->save_cut = true;
 
     auto G = graph_io::readGraphWeighted<mutable_graph>(initial_graph);
     std::vector<std::pair<NodeID, NodeID> > decrementalEdges;
-- 
2.43.0

