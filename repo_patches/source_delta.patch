From 5c0e58c7a4746001fe89daad777f4a22d5e32946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:41:45 +0000
Subject: [PATCH 01/23] fix: keep single samples in the condensed tree when
 their weight reaches min_cluster_size

---
 fast_hdbscan/cluster_trees.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index 0455190..f4419b8 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -228,9 +228,6 @@ def condense_tree(
         root + 1, dtype=np.bool_
     )  # 'bool' is no longer an attribute of 'numpy'
 
-    if sample_weights is None:
-        sample_weights = np.ones(num_points, dtype=np.float32)
-
     idx = 0
 
     for node in node_list:
@@ -247,15 +244,16 @@ def condense_tree(
             else plscan_lambda_value(d)
         )
 
+        # A single sample never forms a cluster, whatever its weight
         left_count = (
             np.float32(hierarchy[left - num_points, 3])
             if left >= num_points
-            else sample_weights[left]
+            else np.float32(0.0)
         )
         right_count = (
             np.float32(hierarchy[right - num_points, 3])
             if right >= num_points
-            else sample_weights[right]
+            else np.float32(0.0)
         )
 
         # The logic here is in a strange order, but it has non-trivial performance gains ...
-- 
2.43.0


From 856d57fcf060bd65d12a12c1d9ddc11daaaa448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:41:45 +0000
Subject: [PATCH 02/23] fix: persistence threshold on a hierarchy without
 splits

---
 fast_hdbscan/cluster_trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index f4419b8..66ec5b4 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -772,6 +772,8 @@ def extract_eom_clusters(
 @numba.njit(cache=NUMBA_CACHE)
 def simplify_hierarchy(condensed_tree, persistence_threshold):
     cluster_tree = cluster_tree_from_condensed_tree(condensed_tree)
+    if len(cluster_tree.child) == 0:
+        return condensed_tree
     n_points = condensed_tree.parent[0]
     n_nodes = cluster_tree.child[-1] + 1
 
-- 
2.43.0


From 6cfd62e0517cada2a9a5caebb5d02360a907c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:41:45 +0000
Subject: [PATCH 03/23] fix: KeyError when exactly one cluster other than the
 root is selected

---
 fast_hdbscan/cluster_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index 66ec5b4..5d067a4 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -976,7 +976,7 @@ def get_cluster_label_vector(
         if cluster < root_cluster:
             result[n] = -1
         elif cluster == root_cluster:
-            if len(clusters) == 1:
+            if len(clusters) == 1 and root_cluster in clusters:
                 max_lambda = tree.lambda_val[tree.parent == cluster].max()
                 cur_lambda = tree.lambda_val[tree.child == n]
                 if cluster_selection_epsilon > 0.0:
-- 
2.43.0


From ed44e61710db8f16beacfa1c3a2e19f5082948ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:41:45 +0000
Subject: [PATCH 04/23] fix: epsilon search dropped clusters of unrelated
 branches

---
 fast_hdbscan/cluster_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index 5d067a4..6ed205b 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -892,7 +892,7 @@ def segments_in_branch(parents, children, segment):
         child_set.clear()
         for segment in to_process:
             idx = np.searchsorted(parents, segment)
-            if idx >= len(parents):
+            if idx >= len(parents) or parents[idx] != segment:
                 continue
             child_set.add(children[idx])
             child_set.add(children[idx + 1])
-- 
2.43.0


From f822f1c1741327b5108d3c007dee86fb2fb1b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:41:45 +0000
Subject: [PATCH 05/23] fix: size of the whole data set when compared with
 max_cluster_size

---
 fast_hdbscan/cluster_trees.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index 6ed205b..d567187 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -731,9 +731,10 @@ def extract_eom_clusters(
                 cluster_tree.child, cluster_tree.child_size.astype(np.float32)
             )
         }
-        node_sizes[cluster_tree.parent.min()] = np.float32(
-            cluster_tree.parent.min() - 1
-        )
+        root = cluster_tree.parent.min()
+        node_sizes[root] = condensed_tree.child_size[
+            condensed_tree.parent == root
+        ].sum()
     else:
         node_sizes = {-1: np.float32(0.0)}
     selected_clusters = {node: False for node in node_scores}
-- 
2.43.0


From 32cf7523ff2fd051775fc297bf9084311b0d4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:03 +0000
Subject: [PATCH 06/23] fix: samples of a simplified branch kept densities
 beyond the branch's end

---
 fast_hdbscan/cluster_trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index d567187..16682fe 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -811,6 +811,9 @@ def simplify_hierarchy(condensed_tree, persistence_threshold):
     n_skipped = np.zeros(parent_map.shape[0], dtype=np.bool_)
     for i, parent in enumerate(parent_map):
         parent_map[i] = parent_map[parent - n_points]
+        # branches merged earlier leave together with the branch they are part of
+        if parent in lambda_map:
+            lambda_map[i + n_points] = lambda_map[parent]
     for i, parent in enumerate(parent_map):
         n_skipped[i] = parent != (i + n_points)
         parent_map[i] = parent - n_skipped[: parent - n_points].sum()
-- 
2.43.0


From fb8cd562712a617d07f45f0c866f0c4c2db68952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:03 +0000
Subject: [PATCH 07/23] fix: persistence threshold merged disconnected
 components into one cluster

---
 fast_hdbscan/cluster_trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index 16682fe..8159481 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -803,7 +803,8 @@ def simplify_hierarchy(condensed_tree, persistence_threshold):
         sibling_idx = np.int64(births[0] <= births[1])
         if leaf_indicator[node_indices[sibling_idx]]:
             leaf_indicator[parent - n_points] = True
-        else:
+        # disconnected components (death == 0) must never share a leaf
+        if not leaf_indicator[node_indices[sibling_idx]] or death == 0.0:
             lambda_map[children[1 - sibling_idx]] = death
         parent_map[node_indices] = parent
 
-- 
2.43.0


From 8361ecdbbee9addfd0f062688a473f33e2817f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:03 +0000
Subject: [PATCH 08/23] fix: semi-supervised selection merged disconnected
 components into one cluster

---
 fast_hdbscan/cluster_trees.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index 8159481..dd93892 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -611,6 +611,11 @@ def extract_clusters_bcubed(
             cluster_elements, label_indices
         )
 
+    # Nodes that only join disconnected components (lambda=0) are not clusters
+    for i in range(cluster_tree.parent.shape[0]):
+        if cluster_tree.lambda_val[i] == 0.0:
+            bcubed_node_scores[cluster_tree.parent[i]] = -1.0
+
     selected_clusters = {node: False for node in bcubed_node_scores}
 
     if len(cluster_tree_bcubed.parent) == 0:
-- 
2.43.0


From b335d8d00b6faf1f576b0d8445e4aef4ddf3ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:03 +0000
Subject: [PATCH 09/23] fix: PLSCAN layers merged disconnected components into
 one cluster

---
 fast_hdbscan/layer_clusters.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fast_hdbscan/layer_clusters.py b/fast_hdbscan/layer_clusters.py
index e18264d..995e790 100644
--- a/fast_hdbscan/layer_clusters.py
+++ b/fast_hdbscan/layer_clusters.py
@@ -201,6 +201,12 @@ def min_cluster_size_barcode(cluster_tree, n_points, min_size):
             # lambda_val == 0 means infinite distance (disconnected components);
             # treat as if the split happened at the very bottom of the hierarchy.
             lambda_deaths[out_idx - 1 : out_idx + 1] = 0.0
+            # Each side lives up to its own size, their union is never a cluster.
+            size_deaths[out_idx - 1 : out_idx + 1] = cluster_tree.child_size[
+                idx - 1 : idx + 1
+            ]
+            size_births[cluster_tree.parent[idx] - n_points] = n_points
+            continue
 
         death_size = cluster_tree.child_size[idx - 1 : idx + 1].min()
         size_deaths[out_idx - 1 : out_idx + 1] = death_size
-- 
2.43.0


From e31501b8dbb7fadcb4626204b673735f0b58e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:31 +0000
Subject: [PATCH 10/23] fix: label numbers without any sample on disconnected
 graphs

---
 fast_hdbscan/cluster_trees.py | 6 +++++-
 fast_hdbscan/hdbscan.py       | 8 ++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index dd93892..df26a3f 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -361,7 +361,11 @@ def extract_leaves(condensed_tree, allow_single_cluster=True):
         if child_size > 1:
             leaf_indicator[parent] = False
 
-    return np.nonzero(leaf_indicator)[0]
+    # Leaves whose samples are all separated at lambda=0 have no members
+    occupied = np.zeros(n_nodes, dtype=np.bool_)
+    occupied[condensed_tree.parent[condensed_tree.lambda_val > 0.0]] = True
+
+    return np.nonzero(leaf_indicator & occupied)[0]
 
 
 @numba.njit(cache=NUMBA_CACHE)
diff --git a/fast_hdbscan/hdbscan.py b/fast_hdbscan/hdbscan.py
index 4483f87..e6d7982 100644
--- a/fast_hdbscan/hdbscan.py
+++ b/fast_hdbscan/hdbscan.py
@@ -564,6 +564,14 @@ def clusters_from_spanning_tree(
             min_epsilon=cluster_selection_epsilon,
         )
 
+    # Clusters whose samples are all separated at lambda=0 have no members
+    selected_clusters = selected_clusters[
+        np.isin(
+            selected_clusters,
+            condensed_tree.parent[condensed_tree.lambda_val > 0.0],
+        )
+    ]
+
     clusters = get_cluster_label_vector(
         condensed_tree, selected_clusters, cluster_selection_epsilon, n_samples=n_points
     )
-- 
2.43.0


From 74eb6337b925af0d6fc4ef8a61717248e669eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:44:44 +0000
Subject: [PATCH 11/23] fix: hierarchies of data with non-finite rows and one
 or two finite rows

---
 fast_hdbscan/hdbscan.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/fast_hdbscan/hdbscan.py b/fast_hdbscan/hdbscan.py
index e6d7982..e11509f 100644
--- a/fast_hdbscan/hdbscan.py
+++ b/fast_hdbscan/hdbscan.py
@@ -133,6 +133,8 @@ def remap_condensed_tree(tree, internal_to_raw, outliers):
     finite_count = len(internal_to_raw)
 
     outlier_count = len(outliers)
+    # internal tree starts numbering its clusters at finite_count
+    root = finite_count + outlier_count
     for i, (parent, child, lambda_val, child_size) in enumerate(tree):
         if child < finite_count:
             child = internal_to_raw[child]
@@ -141,7 +143,9 @@ def remap_condensed_tree(tree, internal_to_raw, outliers):
         tree[i] = (parent + outlier_count, child, lambda_val, child_size)
 
     outlier_list = []
-    root = tree[0][0]  # Should I check to be sure this is the minimal lambda?
+    if len(tree) == 0:
+        # a single finite sample has no hierarchy of its own
+        outlier_list.append((root, internal_to_raw[0], 0, 1))
     for outlier in outliers:
         outlier_list.append((root, outlier, 0, 1))
 
@@ -186,11 +190,19 @@ def remap_single_linkage_tree(tree, internal_to_raw, outliers):
             tree[i, 1] = right + outlier_count
 
     outlier_tree = np.zeros((len(outliers), 4))
-    last_cluster_id = tree[tree.shape[0] - 1][0:2].max()
-    last_cluster_size = tree[tree.shape[0] - 1][3]
+    if tree.shape[0] == 0:
+        # a single finite sample: outliers are merged starting with the sample itself
+        last_cluster_id = internal_to_raw[0]
+        last_cluster_size = 1
+        next_cluster_id = finite_count + outlier_count
+    else:
+        last_cluster_id = finite_count + outlier_count + tree.shape[0] - 1
+        last_cluster_size = tree[tree.shape[0] - 1][3]
+        next_cluster_id = last_cluster_id + 1
     for i, outlier in enumerate(outliers):
-        outlier_tree[i] = (outlier, last_cluster_id + 1, np.inf, last_cluster_size + 1)
-        last_cluster_id += 1
+        outlier_tree[i] = (outlier, last_cluster_id, np.inf, last_cluster_size + 1)
+        last_cluster_id = next_cluster_id
+        next_cluster_id += 1
         last_cluster_size += 1
     tree = np.vstack([tree, outlier_tree])
     return tree
-- 
2.43.0


From bd7cd53d605666781aca76f82b30ddf81e71267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:46:11 +0000
Subject: [PATCH 12/23] fix: reproducible spanning tree depended on thread
 timing through a shared bound

---
 fast_hdbscan/boruvka.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_hdbscan/boruvka.py b/fast_hdbscan/boruvka.py
index 747d89e..22b5814 100644
--- a/fast_hdbscan/boruvka.py
+++ b/fast_hdbscan/boruvka.py
@@ -439,7 +439,7 @@ def boruvka_tree_query_reproducible(
             current_component = point_components[i]
             local_component_bound = component_nearest_neighbor_dist[
                 current_component : current_component + 1
-            ]
+            ].copy()
 
             component_aware_query_recursion(
                 tree,
-- 
2.43.0


From 1ed052ec769eb586fc6b2ee08ac0fffbbb759533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:46:11 +0000
Subject: [PATCH 13/23] fix: spanning tree of weighted samples was not minimal

---
 fast_hdbscan/boruvka.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fast_hdbscan/boruvka.py b/fast_hdbscan/boruvka.py
index 22b5814..69ae7e3 100644
--- a/fast_hdbscan/boruvka.py
+++ b/fast_hdbscan/boruvka.py
@@ -492,6 +492,10 @@ def initialize_boruvka_from_knn(
     for i in numba.prange(knn_indices.shape[0]):
         for j in range(1, knn_indices.shape[1]):
             k = np.int32(knn_indices[i, j])
+            # With sample weights neighbours may lie beyond the core distance;
+            # only the nearest of those is known to be a minimal edge
+            if j > 1 and knn_distances[i, j] > core_distances[i]:
+                break
             if core_distances[i] >= core_distances[k]:
                 # Use max of core distance and actual distance as edge weight
                 edge_weight = max(core_distances[i], knn_distances[i, j])
@@ -565,7 +569,10 @@ def parallel_boruvka(
         mean_sample_weight = np.mean(sample_weights)
         expected_neighbors = min_samples / mean_sample_weight
         distances, neighbors = parallel_tree_query(
-            tree, tree.data, k=int(2 * expected_neighbors)
+            tree,
+            tree.data,
+            k=max(1, int(2 * expected_neighbors)),
+            output_rdist=True,
         )
         core_distances = sample_weight_core_distance(
             distances, neighbors, sample_weights, min_samples
-- 
2.43.0


From a25cad12533414c2a2156398969d06552819d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:46:11 +0000
Subject: [PATCH 14/23] fix: spanning tree edges to non-existing samples when
 min_samples >= n_samples

---
 fast_hdbscan/boruvka.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/fast_hdbscan/boruvka.py b/fast_hdbscan/boruvka.py
index 69ae7e3..6a1083f 100644
--- a/fast_hdbscan/boruvka.py
+++ b/fast_hdbscan/boruvka.py
@@ -42,6 +42,8 @@ def merge_components(
     # Find the best edges from each component
     for i in range(candidate_neighbors.shape[0]):
         from_component = np.int64(point_components[i])
+        if candidate_neighbors[i] < 0:
+            continue
         if from_component in component_edges and not np.isnan(
             candidate_neighbor_distances[i]
         ):
@@ -492,6 +494,8 @@ def initialize_boruvka_from_knn(
     for i in numba.prange(knn_indices.shape[0]):
         for j in range(1, knn_indices.shape[1]):
             k = np.int32(knn_indices[i, j])
+            if k < 0:
+                break
             # With sample weights neighbours may lie beyond the core distance;
             # only the nearest of those is known to be a minimal edge
             if j > 1 and knn_distances[i, j] > core_distances[i]:
@@ -528,6 +532,23 @@ def initialize_boruvka_from_knn(
     return result[:result_idx]
 
 
+@numba.njit(cache=NUMBA_CACHE)
+def bridge_components_with_inf(disjoint_set):
+    """Join the remaining components by edges of infinite length."""
+    n_points = disjoint_set.parent.shape[0]
+    result = np.empty((n_points, 3), dtype=np.float64)
+    result_idx = 0
+    for i in range(1, n_points):
+        left = ds_find(disjoint_set, np.int32(i - 1))
+        right = ds_find(disjoint_set, np.int32(i))
+        if left != right:
+            result[result_idx] = (np.float64(i - 1), np.float64(i), np.inf)
+            result_idx += 1
+            ds_union_by_rank(disjoint_set, left, right)
+
+    return result[:result_idx]
+
+
 @numba.njit(parallel=True, cache=NUMBA_CACHE)
 def sample_weight_core_distance(distances, neighbors, sample_weights, min_samples):
     core_distances = np.zeros(distances.shape[0], dtype=np.float32)
@@ -635,6 +656,13 @@ def parallel_boruvka(
             point_components,
         )
 
+        if len(new_edges) == 0:
+            # Only infinite distances remain, e.g. when min_samples >= n_samples
+            all_edges = np.vstack(
+                (all_edges, bridge_components_with_inf(components_disjoint_set))
+            )
+            break
+
         # Update component count more efficiently - subtract merged components
         n_components -= len(new_edges)
 
-- 
2.43.0


From 0d58a1200649d50f5255bfaf8bff3d59dbe2bb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:16 +0000
Subject: [PATCH 15/23] fix: samples without edges borrowed the edge of the
 next sample

---
 fast_hdbscan/core_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fast_hdbscan/core_graph.py b/fast_hdbscan/core_graph.py
index af996d5..46b02fb 100644
--- a/fast_hdbscan/core_graph.py
+++ b/fast_hdbscan/core_graph.py
@@ -115,7 +115,7 @@ def select_components(distances, indices, indptr, point_components):
     # Find the best edges from each component
     for parent, from_component in enumerate(point_components):
         start = indptr[parent]
-        if start == len(indices) or indices[start] == -1:
+        if start == indptr[parent + 1] or indices[start] == -1:
             continue
 
         neighbor = indices[start]
-- 
2.43.0


From 7a7fc72ed0d2b48fe41fd637619058a771ec1d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:16 +0000
Subject: [PATCH 16/23] fix: cannot-link constraints were ignored for other
 metrics and for more than 30 columns

---
 fast_hdbscan/hdbscan.py   |  3 +++
 fast_hdbscan/nndescent.py | 25 ++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/fast_hdbscan/hdbscan.py b/fast_hdbscan/hdbscan.py
index e11509f..7abcc5b 100644
--- a/fast_hdbscan/hdbscan.py
+++ b/fast_hdbscan/hdbscan.py
@@ -472,6 +472,9 @@ def compute_minimum_spanning_tree(
             metric=metric,
             metric_kwds=metric_kwds,
             knn_k=knn_k,
+            cannot_link=cannot_link,
+            validate_cannot_link=validate_cannot_link,
+            cannot_link_groups=cannot_link_groups,
         )
 
     # metric == "euclidean"
diff --git a/fast_hdbscan/nndescent.py b/fast_hdbscan/nndescent.py
index a4353f2..bea7472 100644
--- a/fast_hdbscan/nndescent.py
+++ b/fast_hdbscan/nndescent.py
@@ -183,6 +183,9 @@ def compute_mst_from_knn_graph(
     metric_kwds=None,
     knn_k=None,
     random_state=None,
+    cannot_link=None,
+    validate_cannot_link=True,
+    cannot_link_groups=None,
 ):
     """
     Compute HDBSCAN MST using a pynndescent KNN graph for arbitrary metrics.
@@ -200,6 +203,8 @@ def compute_mst_from_knn_graph(
         Number of neighbors for KNN graph. If None, defaults to
         max(3 * min_samples, 15).
     random_state : int, RandomState, or None
+    cannot_link, validate_cannot_link, cannot_link_groups
+        Cannot-link constraints, see ``kruskal._resolve_cl_params``.
 
     Returns
     -------
@@ -207,9 +212,16 @@ def compute_mst_from_knn_graph(
     neighbors : ndarray of shape (n, k), int32
     core_distances : ndarray of shape (n,), float64
     """
+    from .kruskal import _resolve_cl_params
     from .precomputed import bridge_forest_with_inf
 
     n = data.shape[0]
+    cl = _resolve_cl_params(
+        n,
+        cannot_link=cannot_link,
+        validate_cannot_link=validate_cannot_link,
+        cannot_link_groups=cannot_link_groups,
+    )
 
     # Determine knn_k
     if knn_k is None:
@@ -246,6 +258,7 @@ def compute_mst_from_knn_graph(
         knn_distances,
         core_distances,
         n,
+        cl,
     )
 
     # Handle disconnected components by bridging with +inf edges
@@ -255,7 +268,7 @@ def compute_mst_from_knn_graph(
     return mst_edges, neighbors_out, core_distances
 
 
-def _kruskal_mst_from_knn(knn_indices, knn_distances, core_distances, n):
+def _kruskal_mst_from_knn(knn_indices, knn_distances, core_distances, n, cl=None):
     """
     Run Kruskal MST on a KNN graph with MRD weights.
 
@@ -267,10 +280,14 @@ def _kruskal_mst_from_knn(knn_indices, knn_distances, core_distances, n):
     """
     from .kruskal import (
         _build_mrd_edges_knn,
-        _kruskal_core,
         _get_component_labels_jit,
+        _resolve_cl_params,
+        _run_kruskal_core,
     )
 
+    if cl is None:
+        cl = _resolve_cl_params(n)
+
     # Build MRD edge list from KNN graph (parallel)
     weights, row_idx, col_idx = _build_mrd_edges_knn(
         knn_indices,
@@ -286,7 +303,9 @@ def _kruskal_mst_from_knn(knn_indices, knn_distances, core_distances, n):
 
     # Global stable sort + Kruskal DSU
     sorted_order = np.argsort(weights, kind="stable").astype(np.int32)
-    mst_edges, predecessors = _kruskal_core(weights, row_idx, col_idx, sorted_order, n)
+    mst_edges, predecessors = _run_kruskal_core(
+        weights, row_idx, col_idx, sorted_order, n, cl
+    )
 
     component_labels = _get_component_labels_jit(predecessors)
     n_components = int(np.unique(component_labels).shape[0])
-- 
2.43.0


From 9b22f746ba237b578a3fabc7053f26cdb2cf413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:16 +0000
Subject: [PATCH 17/23] fix: cannot-link entries of opposite sign cancelled
 each other

---
 fast_hdbscan/kruskal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fast_hdbscan/kruskal.py b/fast_hdbscan/kruskal.py
index 0a5c7df..8fefc2b 100644
--- a/fast_hdbscan/kruskal.py
+++ b/fast_hdbscan/kruskal.py
@@ -561,6 +561,8 @@ def _validate_cannot_link(cannot_link, n, validate=True):
         return np.empty(0, dtype=np.int32), np.zeros(n + 1, dtype=np.int32)
 
     # Symmetrize (handles upper-only, lower-only, or already symmetric).
+    # Only the pattern counts: values of opposite sign must not cancel.
+    cl_csr = cl_csr != 0
     cl_sym = cl_csr + cl_csr.T
 
     return cl_sym.indices.astype(np.int32), cl_sym.indptr.astype(np.int32)
-- 
2.43.0


From d0c4dfecb66479cd975fcf871d032e317105a0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:16 +0000
Subject: [PATCH 18/23] fix: TypeError in find_branch_sub_clusters

---
 fast_hdbscan/branches.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fast_hdbscan/branches.py b/fast_hdbscan/branches.py
index 8cca923..d98cedd 100644
--- a/fast_hdbscan/branches.py
+++ b/fast_hdbscan/branches.py
@@ -64,6 +64,7 @@ def find_branch_sub_clusters(
         result[1],
         result[3],
         result[-1],
+        result[8],
         label_sides_as_branches=label_sides_as_branches,
     )
     return result
-- 
2.43.0


From 599219ca7040b37f4ca7fe3667e2be5160bd4f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:16 +0000
Subject: [PATCH 19/23] fix: sub-cluster detection treated samples leaving at
 density zero as non-finite rows

---
 fast_hdbscan/sub_clusters.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/fast_hdbscan/sub_clusters.py b/fast_hdbscan/sub_clusters.py
index bccbace..1de30cf 100644
--- a/fast_hdbscan/sub_clusters.py
+++ b/fast_hdbscan/sub_clusters.py
@@ -333,13 +333,9 @@ def find_sub_clusters(
     # Recover finite data points
     data = clusterer._raw_data
     num_points = data.shape[0]
-    last_outlier = np.searchsorted(
-        clusterer._condensed_tree["lambda_val"], 0.0, side="right"
-    )
-    if last_outlier > 0:
-        finite_index = np.setdiff1d(
-            np.arange(data.shape[0]), clusterer._condensed_tree["child"][:last_outlier]
-        )
+    finite_index = np.nonzero(np.isfinite(data).all(axis=1))[0]
+    has_outliers = len(finite_index) < num_points
+    if has_outliers:
         data = data[finite_index]
         cluster_labels = cluster_labels[finite_index]
         cluster_probabilities = cluster_probabilities[finite_index]
@@ -354,7 +350,7 @@ def find_sub_clusters(
                 "when providing values as lens_callback, they must have"
                 f"the same length as the data, {len(lens_callback)} != {data.shape[0]}"
             )
-        if last_outlier > 0:
+        if has_outliers:
             lens_values = lens_callback[finite_index]
         else:
             lens_values = lens_callback
@@ -416,7 +412,7 @@ def find_sub_clusters(
         )
 
     # Reset for infinite data points
-    if last_outlier > 0:
+    if has_outliers:
         (
             labels,
             probabilities,
-- 
2.43.0


From 587a311f8fe51a920e66bc11b611a6c3d4d559c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:16 +0000
Subject: [PATCH 20/23] fix: missing neighbours counted as the last sample in
 sub-cluster graphs

---
 fast_hdbscan/sub_clusters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fast_hdbscan/sub_clusters.py b/fast_hdbscan/sub_clusters.py
index 1de30cf..33af57e 100644
--- a/fast_hdbscan/sub_clusters.py
+++ b/fast_hdbscan/sub_clusters.py
@@ -32,7 +32,8 @@ def compute_sub_clusters_in_cluster(
 
     in_cluster_ids = np.full(data.shape[0], -1, dtype=np.int32)
     in_cluster_ids[points] = np.arange(len(points))
-    neighbors = in_cluster_ids[neighbors[points, :]]
+    neighbors = neighbors[points, :]
+    neighbors = np.where(neighbors >= 0, in_cluster_ids[neighbors], np.int32(-1))
     core_distances = core_distances[points]
     min_spanning_tree = min_spanning_tree[
         (parent_labels == cluster) & (child_labels == cluster)
-- 
2.43.0


From 793ada5fbada6a0cc8d20ce863b62dbae4bd9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:16 +0000
Subject: [PATCH 21/23] fix: propagated labels of clusters without sub-clusters
 collided with other clusters

---
 fast_hdbscan/sub_clusters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fast_hdbscan/sub_clusters.py b/fast_hdbscan/sub_clusters.py
index 33af57e..4e67585 100644
--- a/fast_hdbscan/sub_clusters.py
+++ b/fast_hdbscan/sub_clusters.py
@@ -180,7 +180,9 @@ def propagate_sub_cluster_labels(labels, sub_labels, graph_list, points_list):
             sub_labels[points] = propagate_labels_per_cluster(
                 core_graph, sub_labels[points]
             )
-        labels[points] = sub_labels[points] + running_id
+        # clusters without any sub-cluster keep a single label
+        is_unsplit = unique_sub_labels[0] == -1 and not has_noise
+        labels[points] = sub_labels[points] + int(is_unsplit) + running_id
         running_id += len(unique_sub_labels) - int(has_noise)
 
     return labels, sub_labels
-- 
2.43.0


From df352afd069895e53d8e6d0e32481ef47cfe8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:47:16 +0000
Subject: [PATCH 22/23] fix: ZeroDivisionError when propagating labels over
 edges with lens value zero

---
 fast_hdbscan/sub_clusters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fast_hdbscan/sub_clusters.py b/fast_hdbscan/sub_clusters.py
index 4e67585..155f149 100644
--- a/fast_hdbscan/sub_clusters.py
+++ b/fast_hdbscan/sub_clusters.py
@@ -138,10 +138,11 @@ def propagate_labels_per_cluster(graph, sub_labels):
     for idx, (start, end) in enumerate(zip(graph.indptr, graph.indptr[1:])):
         for i in range(start, end):
             neighbor = graph.indices[i]
+            density = 1 / graph.weights[i] if graph.weights[i] != 0 else np.inf
             if sub_labels[neighbor] == -1:
-                undirected[neighbor][idx] = 1 / graph.weights[i]
+                undirected[neighbor][idx] = density
             if sub_labels[idx] == -1:
-                undirected[idx][neighbor] = 1 / graph.weights[i]
+                undirected[idx][neighbor] = density
 
     # repeat density-weighted majority votes on noise points until all are assigned
     while True:
-- 
2.43.0


From 064a224c47fca87ac3de94715185918888e23bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:19:26 +0000
Subject: [PATCH 23/23] Revert the fix commits

The tree is the original one again. The repairs are kept as patches outside this
repository: the build records a digest of the package sources in a file that
commits here must not make it rewrite.
---
 fast_hdbscan/boruvka.py        | 39 ++--------------------------------
 fast_hdbscan/branches.py       |  1 -
 fast_hdbscan/cluster_trees.py  | 38 +++++++++++----------------------
 fast_hdbscan/core_graph.py     |  2 +-
 fast_hdbscan/hdbscan.py        | 33 +++++-----------------------
 fast_hdbscan/kruskal.py        |  2 --
 fast_hdbscan/layer_clusters.py |  6 ------
 fast_hdbscan/nndescent.py      | 25 +++-------------------
 fast_hdbscan/sub_clusters.py   | 26 +++++++++++------------
 9 files changed, 36 insertions(+), 136 deletions(-)

diff --git a/fast_hdbscan/boruvka.py b/fast_hdbscan/boruvka.py
index 6a1083f..747d89e 100644
--- a/fast_hdbscan/boruvka.py
+++ b/fast_hdbscan/boruvka.py
@@ -42,8 +42,6 @@ def merge_components(
     # Find the best edges from each component
     for i in range(candidate_neighbors.shape[0]):
         from_component = np.int64(point_components[i])
-        if candidate_neighbors[i] < 0:
-            continue
         if from_component in component_edges and not np.isnan(
             candidate_neighbor_distances[i]
         ):
@@ -441,7 +439,7 @@ def boruvka_tree_query_reproducible(
             current_component = point_components[i]
             local_component_bound = component_nearest_neighbor_dist[
                 current_component : current_component + 1
-            ].copy()
+            ]
 
             component_aware_query_recursion(
                 tree,
@@ -494,12 +492,6 @@ def initialize_boruvka_from_knn(
     for i in numba.prange(knn_indices.shape[0]):
         for j in range(1, knn_indices.shape[1]):
             k = np.int32(knn_indices[i, j])
-            if k < 0:
-                break
-            # With sample weights neighbours may lie beyond the core distance;
-            # only the nearest of those is known to be a minimal edge
-            if j > 1 and knn_distances[i, j] > core_distances[i]:
-                break
             if core_distances[i] >= core_distances[k]:
                 # Use max of core distance and actual distance as edge weight
                 edge_weight = max(core_distances[i], knn_distances[i, j])
@@ -532,23 +524,6 @@ def initialize_boruvka_from_knn(
     return result[:result_idx]
 
 
-@numba.njit(cache=NUMBA_CACHE)
-def bridge_components_with_inf(disjoint_set):
-    """Join the remaining components by edges of infinite length."""
-    n_points = disjoint_set.parent.shape[0]
-    result = np.empty((n_points, 3), dtype=np.float64)
-    result_idx = 0
-    for i in range(1, n_points):
-        left = ds_find(disjoint_set, np.int32(i - 1))
-        right = ds_find(disjoint_set, np.int32(i))
-        if left != right:
-            result[result_idx] = (np.float64(i - 1), np.float64(i), np.inf)
-            result_idx += 1
-            ds_union_by_rank(disjoint_set, left, right)
-
-    return result[:result_idx]
-
-
 @numba.njit(parallel=True, cache=NUMBA_CACHE)
 def sample_weight_core_distance(distances, neighbors, sample_weights, min_samples):
     core_distances = np.zeros(distances.shape[0], dtype=np.float32)
@@ -590,10 +565,7 @@ def parallel_boruvka(
         mean_sample_weight = np.mean(sample_weights)
         expected_neighbors = min_samples / mean_sample_weight
         distances, neighbors = parallel_tree_query(
-            tree,
-            tree.data,
-            k=max(1, int(2 * expected_neighbors)),
-            output_rdist=True,
+            tree, tree.data, k=int(2 * expected_neighbors)
         )
         core_distances = sample_weight_core_distance(
             distances, neighbors, sample_weights, min_samples
@@ -656,13 +628,6 @@ def parallel_boruvka(
             point_components,
         )
 
-        if len(new_edges) == 0:
-            # Only infinite distances remain, e.g. when min_samples >= n_samples
-            all_edges = np.vstack(
-                (all_edges, bridge_components_with_inf(components_disjoint_set))
-            )
-            break
-
         # Update component count more efficiently - subtract merged components
         n_components -= len(new_edges)
 
diff --git a/fast_hdbscan/branches.py b/fast_hdbscan/branches.py
index d98cedd..8cca923 100644
--- a/fast_hdbscan/branches.py
+++ b/fast_hdbscan/branches.py
@@ -64,7 +64,6 @@ def find_branch_sub_clusters(
         result[1],
         result[3],
         result[-1],
-        result[8],
         label_sides_as_branches=label_sides_as_branches,
     )
     return result
diff --git a/fast_hdbscan/cluster_trees.py b/fast_hdbscan/cluster_trees.py
index df26a3f..0455190 100644
--- a/fast_hdbscan/cluster_trees.py
+++ b/fast_hdbscan/cluster_trees.py
@@ -228,6 +228,9 @@ def condense_tree(
         root + 1, dtype=np.bool_
     )  # 'bool' is no longer an attribute of 'numpy'
 
+    if sample_weights is None:
+        sample_weights = np.ones(num_points, dtype=np.float32)
+
     idx = 0
 
     for node in node_list:
@@ -244,16 +247,15 @@ def condense_tree(
             else plscan_lambda_value(d)
         )
 
-        # A single sample never forms a cluster, whatever its weight
         left_count = (
             np.float32(hierarchy[left - num_points, 3])
             if left >= num_points
-            else np.float32(0.0)
+            else sample_weights[left]
         )
         right_count = (
             np.float32(hierarchy[right - num_points, 3])
             if right >= num_points
-            else np.float32(0.0)
+            else sample_weights[right]
         )
 
         # The logic here is in a strange order, but it has non-trivial performance gains ...
@@ -361,11 +363,7 @@ def extract_leaves(condensed_tree, allow_single_cluster=True):
         if child_size > 1:
             leaf_indicator[parent] = False
 
-    # Leaves whose samples are all separated at lambda=0 have no members
-    occupied = np.zeros(n_nodes, dtype=np.bool_)
-    occupied[condensed_tree.parent[condensed_tree.lambda_val > 0.0]] = True
-
-    return np.nonzero(leaf_indicator & occupied)[0]
+    return np.nonzero(leaf_indicator)[0]
 
 
 @numba.njit(cache=NUMBA_CACHE)
@@ -615,11 +613,6 @@ def extract_clusters_bcubed(
             cluster_elements, label_indices
         )
 
-    # Nodes that only join disconnected components (lambda=0) are not clusters
-    for i in range(cluster_tree.parent.shape[0]):
-        if cluster_tree.lambda_val[i] == 0.0:
-            bcubed_node_scores[cluster_tree.parent[i]] = -1.0
-
     selected_clusters = {node: False for node in bcubed_node_scores}
 
     if len(cluster_tree_bcubed.parent) == 0:
@@ -740,10 +733,9 @@ def extract_eom_clusters(
                 cluster_tree.child, cluster_tree.child_size.astype(np.float32)
             )
         }
-        root = cluster_tree.parent.min()
-        node_sizes[root] = condensed_tree.child_size[
-            condensed_tree.parent == root
-        ].sum()
+        node_sizes[cluster_tree.parent.min()] = np.float32(
+            cluster_tree.parent.min() - 1
+        )
     else:
         node_sizes = {-1: np.float32(0.0)}
     selected_clusters = {node: False for node in node_scores}
@@ -782,8 +774,6 @@ def extract_eom_clusters(
 @numba.njit(cache=NUMBA_CACHE)
 def simplify_hierarchy(condensed_tree, persistence_threshold):
     cluster_tree = cluster_tree_from_condensed_tree(condensed_tree)
-    if len(cluster_tree.child) == 0:
-        return condensed_tree
     n_points = condensed_tree.parent[0]
     n_nodes = cluster_tree.child[-1] + 1
 
@@ -812,8 +802,7 @@ def simplify_hierarchy(condensed_tree, persistence_threshold):
         sibling_idx = np.int64(births[0] <= births[1])
         if leaf_indicator[node_indices[sibling_idx]]:
             leaf_indicator[parent - n_points] = True
-        # disconnected components (death == 0) must never share a leaf
-        if not leaf_indicator[node_indices[sibling_idx]] or death == 0.0:
+        else:
             lambda_map[children[1 - sibling_idx]] = death
         parent_map[node_indices] = parent
 
@@ -821,9 +810,6 @@ def simplify_hierarchy(condensed_tree, persistence_threshold):
     n_skipped = np.zeros(parent_map.shape[0], dtype=np.bool_)
     for i, parent in enumerate(parent_map):
         parent_map[i] = parent_map[parent - n_points]
-        # branches merged earlier leave together with the branch they are part of
-        if parent in lambda_map:
-            lambda_map[i + n_points] = lambda_map[parent]
     for i, parent in enumerate(parent_map):
         n_skipped[i] = parent != (i + n_points)
         parent_map[i] = parent - n_skipped[: parent - n_points].sum()
@@ -906,7 +892,7 @@ def segments_in_branch(parents, children, segment):
         child_set.clear()
         for segment in to_process:
             idx = np.searchsorted(parents, segment)
-            if idx >= len(parents) or parents[idx] != segment:
+            if idx >= len(parents):
                 continue
             child_set.add(children[idx])
             child_set.add(children[idx + 1])
@@ -990,7 +976,7 @@ def get_cluster_label_vector(
         if cluster < root_cluster:
             result[n] = -1
         elif cluster == root_cluster:
-            if len(clusters) == 1 and root_cluster in clusters:
+            if len(clusters) == 1:
                 max_lambda = tree.lambda_val[tree.parent == cluster].max()
                 cur_lambda = tree.lambda_val[tree.child == n]
                 if cluster_selection_epsilon > 0.0:
diff --git a/fast_hdbscan/core_graph.py b/fast_hdbscan/core_graph.py
index 46b02fb..af996d5 100644
--- a/fast_hdbscan/core_graph.py
+++ b/fast_hdbscan/core_graph.py
@@ -115,7 +115,7 @@ def select_components(distances, indices, indptr, point_components):
     # Find the best edges from each component
     for parent, from_component in enumerate(point_components):
         start = indptr[parent]
-        if start == indptr[parent + 1] or indices[start] == -1:
+        if start == len(indices) or indices[start] == -1:
             continue
 
         neighbor = indices[start]
diff --git a/fast_hdbscan/hdbscan.py b/fast_hdbscan/hdbscan.py
index 7abcc5b..4483f87 100644
--- a/fast_hdbscan/hdbscan.py
+++ b/fast_hdbscan/hdbscan.py
@@ -133,8 +133,6 @@ def remap_condensed_tree(tree, internal_to_raw, outliers):
     finite_count = len(internal_to_raw)
 
     outlier_count = len(outliers)
-    # internal tree starts numbering its clusters at finite_count
-    root = finite_count + outlier_count
     for i, (parent, child, lambda_val, child_size) in enumerate(tree):
         if child < finite_count:
             child = internal_to_raw[child]
@@ -143,9 +141,7 @@ def remap_condensed_tree(tree, internal_to_raw, outliers):
         tree[i] = (parent + outlier_count, child, lambda_val, child_size)
 
     outlier_list = []
-    if len(tree) == 0:
-        # a single finite sample has no hierarchy of its own
-        outlier_list.append((root, internal_to_raw[0], 0, 1))
+    root = tree[0][0]  # Should I check to be sure this is the minimal lambda?
     for outlier in outliers:
         outlier_list.append((root, outlier, 0, 1))
 
@@ -190,19 +186,11 @@ def remap_single_linkage_tree(tree, internal_to_raw, outliers):
             tree[i, 1] = right + outlier_count
 
     outlier_tree = np.zeros((len(outliers), 4))
-    if tree.shape[0] == 0:
-        # a single finite sample: outliers are merged starting with the sample itself
-        last_cluster_id = internal_to_raw[0]
-        last_cluster_size = 1
-        next_cluster_id = finite_count + outlier_count
-    else:
-        last_cluster_id = finite_count + outlier_count + tree.shape[0] - 1
-        last_cluster_size = tree[tree.shape[0] - 1][3]
-        next_cluster_id = last_cluster_id + 1
+    last_cluster_id = tree[tree.shape[0] - 1][0:2].max()
+    last_cluster_size = tree[tree.shape[0] - 1][3]
     for i, outlier in enumerate(outliers):
-        outlier_tree[i] = (outlier, last_cluster_id, np.inf, last_cluster_size + 1)
-        last_cluster_id = next_cluster_id
-        next_cluster_id += 1
+        outlier_tree[i] = (outlier, last_cluster_id + 1, np.inf, last_cluster_size + 1)
+        last_cluster_id += 1
         last_cluster_size += 1
     tree = np.vstack([tree, outlier_tree])
     return tree
@@ -472,9 +460,6 @@ def compute_minimum_spanning_tree(
             metric=metric,
             metric_kwds=metric_kwds,
             knn_k=knn_k,
-            cannot_link=cannot_link,
-            validate_cannot_link=validate_cannot_link,
-            cannot_link_groups=cannot_link_groups,
         )
 
     # metric == "euclidean"
@@ -579,14 +564,6 @@ def clusters_from_spanning_tree(
             min_epsilon=cluster_selection_epsilon,
         )
 
-    # Clusters whose samples are all separated at lambda=0 have no members
-    selected_clusters = selected_clusters[
-        np.isin(
-            selected_clusters,
-            condensed_tree.parent[condensed_tree.lambda_val > 0.0],
-        )
-    ]
-
     clusters = get_cluster_label_vector(
         condensed_tree, selected_clusters, cluster_selection_epsilon, n_samples=n_points
     )
diff --git a/fast_hdbscan/kruskal.py b/fast_hdbscan/kruskal.py
index 8fefc2b..0a5c7df 100644
--- a/fast_hdbscan/kruskal.py
+++ b/fast_hdbscan/kruskal.py
@@ -561,8 +561,6 @@ def _validate_cannot_link(cannot_link, n, validate=True):
         return np.empty(0, dtype=np.int32), np.zeros(n + 1, dtype=np.int32)
 
     # Symmetrize (handles upper-only, lower-only, or already symmetric).
-    # Only the pattern counts: values of opposite sign must not cancel.
-    cl_csr = cl_csr != 0
     cl_sym = cl_csr + cl_csr.T
 
     return cl_sym.indices.astype(np.int32), cl_sym.indptr.astype(np.int32)
diff --git a/fast_hdbscan/layer_clusters.py b/fast_hdbscan/layer_clusters.py
index 995e790..e18264d 100644
--- a/fast_hdbscan/layer_clusters.py
+++ b/fast_hdbscan/layer_clusters.py
@@ -201,12 +201,6 @@ def min_cluster_size_barcode(cluster_tree, n_points, min_size):
             # lambda_val == 0 means infinite distance (disconnected components);
             # treat as if the split happened at the very bottom of the hierarchy.
             lambda_deaths[out_idx - 1 : out_idx + 1] = 0.0
-            # Each side lives up to its own size, their union is never a cluster.
-            size_deaths[out_idx - 1 : out_idx + 1] = cluster_tree.child_size[
-                idx - 1 : idx + 1
-            ]
-            size_births[cluster_tree.parent[idx] - n_points] = n_points
-            continue
 
         death_size = cluster_tree.child_size[idx - 1 : idx + 1].min()
         size_deaths[out_idx - 1 : out_idx + 1] = death_size
diff --git a/fast_hdbscan/nndescent.py b/fast_hdbscan/nndescent.py
index bea7472..a4353f2 100644
--- a/fast_hdbscan/nndescent.py
+++ b/fast_hdbscan/nndescent.py
@@ -183,9 +183,6 @@ def compute_mst_from_knn_graph(
     metric_kwds=None,
     knn_k=None,
     random_state=None,
-    cannot_link=None,
-    validate_cannot_link=True,
-    cannot_link_groups=None,
 ):
     """
     Compute HDBSCAN MST using a pynndescent KNN graph for arbitrary metrics.
@@ -203,8 +200,6 @@ def compute_mst_from_knn_graph(
         Number of neighbors for KNN graph. If None, defaults to
         max(3 * min_samples, 15).
     random_state : int, RandomState, or None
-    cannot_link, validate_cannot_link, cannot_link_groups
-        Cannot-link constraints, see ``kruskal._resolve_cl_params``.
 
     Returns
     -------
@@ -212,16 +207,9 @@ def compute_mst_from_knn_graph(
     neighbors : ndarray of shape (n, k), int32
     core_distances : ndarray of shape (n,), float64
     """
-    from .kruskal import _resolve_cl_params
     from .precomputed import bridge_forest_with_inf
 
     n = data.shape[0]
-    cl = _resolve_cl_params(
-        n,
-        cannot_link=cannot_link,
-        validate_cannot_link=validate_cannot_link,
-        cannot_link_groups=cannot_link_groups,
-    )
 
     # Determine knn_k
     if knn_k is None:
@@ -258,7 +246,6 @@ def compute_mst_from_knn_graph(
         knn_distances,
         core_distances,
         n,
-        cl,
     )
 
     # Handle disconnected components by bridging with +inf edges
@@ -268,7 +255,7 @@ def compute_mst_from_knn_graph(
     return mst_edges, neighbors_out, core_distances
 
 
-def _kruskal_mst_from_knn(knn_indices, knn_distances, core_distances, n, cl=None):
+def _kruskal_mst_from_knn(knn_indices, knn_distances, core_distances, n):
     """
     Run Kruskal MST on a KNN graph with MRD weights.
 
@@ -280,14 +267,10 @@ def _kruskal_mst_from_knn(knn_indices, knn_distances, core_distances, n, cl=None
     """
     from .kruskal import (
         _build_mrd_edges_knn,
+        _kruskal_core,
         _get_component_labels_jit,
-        _resolve_cl_params,
-        _run_kruskal_core,
     )
 
-    if cl is None:
-        cl = _resolve_cl_params(n)
-
     # Build MRD edge list from KNN graph (parallel)
     weights, row_idx, col_idx = _build_mrd_edges_knn(
         knn_indices,
@@ -303,9 +286,7 @@ def _kruskal_mst_from_knn(knn_indices, knn_distances, core_distances, n, cl=None
 
     # Global stable sort + Kruskal DSU
     sorted_order = np.argsort(weights, kind="stable").astype(np.int32)
-    mst_edges, predecessors = _run_kruskal_core(
-        weights, row_idx, col_idx, sorted_order, n, cl
-    )
+    mst_edges, predecessors = _kruskal_core(weights, row_idx, col_idx, sorted_order, n)
 
     component_labels = _get_component_labels_jit(predecessors)
     n_components = int(np.unique(component_labels).shape[0])
diff --git a/fast_hdbscan/sub_clusters.py b/fast_hdbscan/sub_clusters.py
index 155f149..bccbace 100644
--- a/fast_hdbscan/sub_clusters.py
+++ b/fast_hdbscan/sub_clusters.py
@@ -32,8 +32,7 @@ def compute_sub_clusters_in_cluster(
 
     in_cluster_ids = np.full(data.shape[0], -1, dtype=np.int32)
     in_cluster_ids[points] = np.arange(len(points))
-    neighbors = neighbors[points, :]
-    neighbors = np.where(neighbors >= 0, in_cluster_ids[neighbors], np.int32(-1))
+    neighbors = in_cluster_ids[neighbors[points, :]]
     core_distances = core_distances[points]
     min_spanning_tree = min_spanning_tree[
         (parent_labels == cluster) & (child_labels == cluster)
@@ -138,11 +137,10 @@ def propagate_labels_per_cluster(graph, sub_labels):
     for idx, (start, end) in enumerate(zip(graph.indptr, graph.indptr[1:])):
         for i in range(start, end):
             neighbor = graph.indices[i]
-            density = 1 / graph.weights[i] if graph.weights[i] != 0 else np.inf
             if sub_labels[neighbor] == -1:
-                undirected[neighbor][idx] = density
+                undirected[neighbor][idx] = 1 / graph.weights[i]
             if sub_labels[idx] == -1:
-                undirected[idx][neighbor] = density
+                undirected[idx][neighbor] = 1 / graph.weights[i]
 
     # repeat density-weighted majority votes on noise points until all are assigned
     while True:
@@ -181,9 +179,7 @@ def propagate_sub_cluster_labels(labels, sub_labels, graph_list, points_list):
             sub_labels[points] = propagate_labels_per_cluster(
                 core_graph, sub_labels[points]
             )
-        # clusters without any sub-cluster keep a single label
-        is_unsplit = unique_sub_labels[0] == -1 and not has_noise
-        labels[points] = sub_labels[points] + int(is_unsplit) + running_id
+        labels[points] = sub_labels[points] + running_id
         running_id += len(unique_sub_labels) - int(has_noise)
 
     return labels, sub_labels
@@ -337,9 +333,13 @@ def find_sub_clusters(
     # Recover finite data points
     data = clusterer._raw_data
     num_points = data.shape[0]
-    finite_index = np.nonzero(np.isfinite(data).all(axis=1))[0]
-    has_outliers = len(finite_index) < num_points
-    if has_outliers:
+    last_outlier = np.searchsorted(
+        clusterer._condensed_tree["lambda_val"], 0.0, side="right"
+    )
+    if last_outlier > 0:
+        finite_index = np.setdiff1d(
+            np.arange(data.shape[0]), clusterer._condensed_tree["child"][:last_outlier]
+        )
         data = data[finite_index]
         cluster_labels = cluster_labels[finite_index]
         cluster_probabilities = cluster_probabilities[finite_index]
@@ -354,7 +354,7 @@ def find_sub_clusters(
                 "when providing values as lens_callback, they must have"
                 f"the same length as the data, {len(lens_callback)} != {data.shape[0]}"
             )
-        if has_outliers:
+        if last_outlier > 0:
             lens_values = lens_callback[finite_index]
         else:
             lens_values = lens_callback
@@ -416,7 +416,7 @@ def find_sub_clusters(
         )
 
     # Reset for infinite data points
-    if has_outliers:
+    if last_outlier > 0:
         (
             labels,
             probabilities,
-- 
2.43.0

