"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
             observe_at=observe, hook_needed=None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop("C01", "Euclidean spanning tree is an exact minimum spanning tree",
 "For every finite feature matrix (at least two rows, at most 30 columns) and every min_samples, the default Boruvka spanning tree has exactly n-1 edges that join distinct existing samples into one tree. Each edge weight equals the mutual reachability distance of its two samples (the largest of their two core distances and their Euclidean distance), and the sorted list of edge weights equals that of any minimum spanning tree of those distances. This holds with duplicate, collinear and tied points, for sample counts on both sides of every internal leaf and block boundary, and for both settings of the reproducible flag.",
 ["inputs", "configurations"],
 "all feature matrices, min_samples values, thread counts and both reproducible settings",
 "The tests run a handful of random blobs and compare edge counts or labels; they never compare the tree with an independent minimum spanning tree on ties, duplicates, min_samples >= n or n around the leaf size.",
 ["fast_hdbscan/boruvka.py", "fast_hdbscan/numba_kdtree.py", "fast_hdbscan/disjoint_set.py", "fast_hdbscan/hdbscan.py"],
 [("component-aware pruning of the tree search", "fast_hdbscan/boruvka.py:component_aware_query_recursion"),
  ("seeding from the nearest neighbours", "fast_hdbscan/boruvka.py:initialize_boruvka_from_knn"),
  ("per-round merge", "fast_hdbscan/boruvka.py:merge_components"),
  ("component tags on tree nodes", "fast_hdbscan/boruvka.py:update_component_vectors")],
 ["compute_minimum_spanning_tree", "HDBSCAN.fit -> minimum spanning tree, core distances"])

prop("C02", "Thread interleavings cannot corrupt results; reproducible is repeatable",
 "Every interleaving of the worker threads used while building neighbour lists and the Euclidean spanning tree ends with a valid minimum spanning tree and the same neighbour distances and core distances. With the reproducible flag set and a fixed number of threads, the spanning tree itself, edge for edge, is the same for every interleaving. Parallel loops elsewhere (sparse graphs, cuts of the hierarchy, sub-cluster graphs) give the same result for every interleaving.",
 ["schedules", "inputs"],
 "all interleavings of the iterations of every parallel loop, on every input",
 "The test suite runs on one numba thread, so no interleaving other than the sequential one is ever executed; compiled threads cannot be steered by a test.",
 ["fast_hdbscan/boruvka.py", "fast_hdbscan/numba_kdtree.py", "fast_hdbscan/core_graph.py", "fast_hdbscan/precomputed.py", "fast_hdbscan/kruskal.py", "fast_hdbscan/cluster_trees.py"],
 [("shared per-component bound read and lowered by all threads", "fast_hdbscan/boruvka.py:boruvka_tree_query"),
  ("block processing with bounds published between blocks", "fast_hdbscan/boruvka.py:boruvka_tree_query_reproducible"),
  ("parallel disjoint-set reads", "fast_hdbscan/boruvka.py:update_component_vectors")],
 ["compute_minimum_spanning_tree(reproducible=...)", "HDBSCAN(reproducible=True).fit"],
 [("component_nearest_neighbor_dist", "best distance found so far per component, shared by threads", "fast_hdbscan/boruvka.py")])

prop("C03", "Neighbour lists and core distances are exact",
 "For every finite feature matrix and every neighbour count, the reported neighbours of a sample are distinct samples whose distances, position by position, are the smallest distances to the other samples in ascending order (exact duplicates of the sample may stand in for the sample itself). The core distance of a sample is the distance to its min_samples-th nearest other sample, is zero when min_samples is one, and is infinite when fewer than min_samples other samples exist. Both are the same whatever the sample count is relative to the search tree's leaf size and however the rows are ordered.",
 ["inputs", "configurations"],
 "all feature matrices, neighbour counts, row orders and sample counts",
 "The only search-tree tests convert a scikit-learn tree; the library's own tree construction and query are only exercised through clustering labels on random blobs.",
 ["fast_hdbscan/numba_kdtree.py", "fast_hdbscan/boruvka.py", "fast_hdbscan/kruskal.py"],
 [("median split selection", "fast_hdbscan/numba_kdtree.py:_introselect"),
  ("recursive construction and node bounds", "fast_hdbscan/numba_kdtree.py:build_kdtree"),
  ("pruned recursive query and heap", "fast_hdbscan/numba_kdtree.py:tree_query_recursion"),
  ("core distances", "fast_hdbscan/boruvka.py:parallel_boruvka")],
 ["compute_minimum_spanning_tree -> neighbours, core distances"])

prop("C04", "Kruskal and Boruvka agree on feature data",
 "On feature data the Kruskal algorithm without a neighbour limit returns a minimum spanning tree with the same sorted edge weights and the same core distances as Boruvka. With a neighbour limit k it returns, for the undirected graph that links each sample to its max(k, min_samples) nearest samples, a minimum spanning forest in mutual reachability distance, and joins the remaining components with infinite-weight edges only. In both cases the result is one tree on all samples.",
 ["inputs", "configurations"],
 "all feature matrices, min_samples, neighbour limits",
 "Tests compare labels or sums of weights on a few random blobs where ties and disconnected neighbour graphs hardly occur.",
 ["fast_hdbscan/kruskal.py", "fast_hdbscan/boruvka.py", "fast_hdbscan/precomputed.py"],
 [("global sort and union-find", "fast_hdbscan/kruskal.py:_kruskal_core"),
  ("exact pairwise path", "fast_hdbscan/kruskal.py:_kruskal_mst_brute"),
  ("neighbour graph path", "fast_hdbscan/kruskal.py:_kruskal_mst_knn"),
  ("bridging", "fast_hdbscan/precomputed.py:bridge_forest_with_inf")],
 ["compute_minimum_spanning_tree(algorithm='kruskal')", "fast_hdbscan(algorithm=...)"])

prop("C05", "Precomputed sparse graphs: undirected meaning, components stay apart",
 "The result for a precomputed sparse graph depends only on the undirected graph it denotes: the smaller of the two stored directions counts, a stored zero is a distance of zero, a missing entry is no edge, the diagonal is ignored, and storage format and entry order are irrelevant. For both algorithms the finite edges form a minimum spanning forest of the mutual reachability distances, every finite edge is an edge of the graph carrying that exact distance, and different components are joined by infinite edges only. Samples in different components of the graph never share a cluster, for any cluster selection settings, thresholds or partial labels, and in no layer.",
 ["inputs", "configurations"],
 "all sparse graphs (including isolated nodes, zeros, asymmetric entries), formats, min_samples and selection settings",
 "Tests use a few hand-made graphs; isolated nodes occur only when every node is isolated, and formats other than CSR are not compared.",
 ["fast_hdbscan/precomputed.py", "fast_hdbscan/core_graph.py", "fast_hdbscan/kruskal.py", "fast_hdbscan/cluster_trees.py"],
 [("min symmetrisation keeping zeros", "fast_hdbscan/precomputed.py:_symmetrize_min_csr"),
  ("core distances of a graph", "fast_hdbscan/precomputed.py:_core_distances_csr"),
  ("Boruvka on the graph", "fast_hdbscan/core_graph.py:boruvka_mst"),
  ("weight restoration", "fast_hdbscan/precomputed.py:_patch_mst_weights"),
  ("infinite-distance guard in labelling", "fast_hdbscan/cluster_trees.py:get_cluster_label_vector")],
 ["HDBSCAN(metric='precomputed').fit", "compute_minimum_spanning_tree(metric='precomputed')"])

prop("C06", "Cannot-link constraints are never violated",
 "Whenever cannot-link constraints are accepted, no two samples that must not be linked receive the same non-noise label, in every clustering the library derives from them, layers included, whatever the selection settings, thresholds, partial labels, metric, number of columns, neighbour limit or number of constraint groups. A constraint given in one direction, in both, or through group labels means the same thing: group labels behave exactly like all pairwise constraints inside each group, and values below -1 or a wrong shape are refused. The forest built is the one obtained by taking edges in increasing distance and skipping an edge only when it would put a constrained pair in one component.",
 ["inputs", "configurations"],
 "all data, all constraint sets and encodings, all settings; group counts across machine-word boundaries",
 "Tests check some hand-made and random constraint sets with default settings; they cannot cover all merge orders of constraint sets, nor settings that merge clusters afterwards.",
 ["fast_hdbscan/kruskal.py", "fast_hdbscan/precomputed.py", "fast_hdbscan/cluster_trees.py", "fast_hdbscan/nndescent.py", "fast_hdbscan/hdbscan.py", "fast_hdbscan/layer_clusters.py"],
 [("conflict lists per component", "fast_hdbscan/kruskal.py:_kruskal_core_constrained"),
  ("group bit masks per component", "fast_hdbscan/kruskal.py:_kruskal_core_group_constrained"),
  ("normalisation of constraints", "fast_hdbscan/kruskal.py:_validate_cannot_link"),
  ("infinite-distance guards", "fast_hdbscan/cluster_trees.py:cluster_epsilon_search")],
 ["fast_hdbscan(cannot_link=..., cannot_link_groups=...)", "HDBSCAN.fit", "PLSCAN.fit"])

prop("C07", "Single-linkage hierarchy and DBSCAN cuts match the spanning tree",
 "The single-linkage tree lists n-1 merges in non-decreasing distance, each joining two groups that exist at that point and are linked by a spanning tree edge of that distance, with the size of the merged group. Cutting it at any distance with any minimum size labels two samples alike exactly when spanning tree edges shorter than the cut connect them and their group has at least the minimum number of samples; all other samples are noise, and labels are consecutive from zero.",
 ["inputs", "configurations"],
 "all spanning trees (with ties, zeros and infinite edges), all cut distances and minimum sizes",
 "One test cuts one random data set at one distance and counts clusters.",
 ["fast_hdbscan/cluster_trees.py", "fast_hdbscan/hdbscan.py", "fast_hdbscan/disjoint_set.py"],
 [("merge bookkeeping", "fast_hdbscan/cluster_trees.py:mst_to_linkage_tree"),
  ("union-find cut", "fast_hdbscan/cluster_trees.py:get_cluster_labelling_at_cut")],
 ["HDBSCAN.dbscan_clustering", "HDBSCAN single linkage tree", "clusters_from_spanning_tree"])

prop("C08", "Condensed tree is the hierarchy pruned at the minimum cluster size",
 "In the condensed tree every sample leaves exactly one cluster exactly once, and every cluster other than the root is the child of exactly one cluster. A group splits into two clusters exactly when both sides hold at least min_cluster_size samples and more than one; otherwise the samples of the smaller side leave at that point and the larger side continues as the same cluster. Recorded sizes are the numbers of samples below, densities are the reciprocals of the merge distances (infinite for zero, zero for infinite), and no entry of a cluster is at a lower density than the cluster's own birth.",
 ["inputs", "configurations"],
 "all hierarchies (all merge orders, ties, zero and infinite distances) and all minimum cluster sizes",
 "No test inspects a condensed tree; only label counts on blobs depend on it.",
 ["fast_hdbscan/cluster_trees.py"],
 [("top-down condensation", "fast_hdbscan/cluster_trees.py:condense_tree"),
  ("removal of small branches", "fast_hdbscan/cluster_trees.py:eliminate_branch")],
 ["HDBSCAN condensed tree", "fast_hdbscan(return_trees=True)"])

prop("C09", "Cluster selection follows the documented rules",
 "Excess-of-mass selection returns the set of non-overlapping clusters with the largest total stability (where densities are finite), keeps a cluster unless its descendants total strictly more, never returns a cluster larger than max_cluster_size, and returns the whole data set only if a single cluster is allowed; leaf selection returns exactly the leaves. If more than one cluster is selected, a selection epsilon replaces each selected cluster born at a smaller distance by its nearest ancestor born at or above that distance (or the root) and leaves all others alone. A persistence threshold removes exactly the splits in which one side's density range above the split is below the threshold, losing no sample.",
 ["inputs", "configurations"],
 "all hierarchies and all combinations of method, sizes, single-cluster flag, epsilon and persistence",
 "Tests check cluster counts for a few settings on two random data sets.",
 ["fast_hdbscan/cluster_trees.py", "fast_hdbscan/hdbscan.py"],
 [("stability", "fast_hdbscan/cluster_trees.py:score_condensed_tree_nodes"),
  ("excess of mass", "fast_hdbscan/cluster_trees.py:extract_eom_clusters"),
  ("leaves", "fast_hdbscan/cluster_trees.py:cluster_tree_leaves"),
  ("epsilon", "fast_hdbscan/cluster_trees.py:cluster_epsilon_search"),
  ("persistence", "fast_hdbscan/cluster_trees.py:simplify_hierarchy")],
 ["clusters_from_spanning_tree", "HDBSCAN.fit labels"])

prop("C10", "Labels and membership strengths are well formed and match the tree",
 "Labels are -1 or consecutive integers from zero, each used at least once; samples share a label exactly when they belong to the same selected cluster of the hierarchy, and each cluster other than the whole data set has at least min_cluster_size members. Membership strengths lie in [0, 1], are zero for noise, and in each cluster equal the sample's departure density divided by the largest departure density of the samples leaving that cluster directly, capped at one (one for an infinite density). A sample separated from all others by infinite distance is noise.",
 ["inputs", "configurations"],
 "all hierarchies and selection settings",
 "Tests only check array lengths, label counts, or equality between two code paths that share the same labelling function.",
 ["fast_hdbscan/cluster_trees.py", "fast_hdbscan/hdbscan.py"],
 [("labelling by union of unselected clusters", "fast_hdbscan/cluster_trees.py:get_cluster_label_vector"),
  ("strengths", "fast_hdbscan/cluster_trees.py:get_point_membership_strength_vector")],
 ["labels_", "probabilities_", "fast_hdbscan()", "clusters_from_spanning_tree"])

prop("C11", "Rows with missing or infinite values are isolated noise",
 "A row with any NaN or infinite entry is labelled noise with strength zero, and all remaining rows get exactly the labels and strengths they get when the bad rows are left out, wherever the bad rows are and with or without sample weights or partial labels. The hierarchies reported for the full data refer to original row numbers: they contain every row, bad rows join last at infinite distance (leave first at density zero), and cutting the hierarchy at any finite distance treats bad rows as singletons and the others as without them.",
 ["inputs", "configurations"],
 "all positions and numbers of bad rows, all kinds of non-finite values, all data",
 "One test with two NaN rows compares labels only; trees, cuts, weights and small numbers of finite rows are not covered.",
 ["fast_hdbscan/hdbscan.py", "fast_hdbscan/sub_clusters.py"],
 [("filtering", "fast_hdbscan/hdbscan.py:HDBSCAN.fit"),
  ("condensed tree renumbering", "fast_hdbscan/hdbscan.py:remap_condensed_tree"),
  ("linkage renumbering", "fast_hdbscan/hdbscan.py:remap_single_linkage_tree")],
 ["HDBSCAN.fit -> labels_, probabilities_, condensed and linkage trees, dbscan_clustering"])

prop("C12", "Sample weights act as sample mass",
 "With sample weights, a sample's core distance is the distance of the first sample, in order of distance and starting with itself, at which the accumulated weight reaches min_samples (or of the farthest sample searched, or infinite, if that is never reached), and the spanning tree is an exact minimum spanning tree for those core distances. Group sizes in the hierarchy are total weights, clusters split exactly when both sides have several samples and a total weight of at least min_cluster_size, and every sample, however heavy, leaves the condensed tree exactly once. Weights and data are permuted together without changing the result.",
 ["inputs", "configurations"],
 "all data sets, weight vectors (light and heavy, equal and unequal), min_samples and min_cluster_size of at least two",
 "One test fits weighted blobs and counts clusters.",
 ["fast_hdbscan/boruvka.py", "fast_hdbscan/kruskal.py", "fast_hdbscan/cluster_trees.py", "fast_hdbscan/hdbscan.py"],
 [("weighted core distance", "fast_hdbscan/boruvka.py:sample_weight_core_distance"),
  ("weighted hierarchy", "fast_hdbscan/cluster_trees.py:mst_to_linkage_tree_w_sample_weights"),
  ("weighted condensation", "fast_hdbscan/cluster_trees.py:condense_tree")],
 ["HDBSCAN.fit(sample_weight=...)", "fast_hdbscan(sample_weights=...)"])

prop("C13", "PLSCAN layers are leaf clusterings and nest into a tree",
 "In a hierarchy with splits, the base layer equals the leaf clustering at the base minimum cluster size, and the other layers are the leaf clusterings at the sufficiently different local maxima of the reported total persistence. Layers are ordered by number of clusters, there are at most max_layers of them, clusters of any two layers are nested or disjoint, and the reported labels are those of a layer with the highest persistence score. The cluster tree lists every cluster of every layer exactly once as a child, under a cluster of a coarser layer that contains it or under the root.",
 ["inputs", "configurations"],
 "all hierarchies, base sizes, requested base cluster counts, similarity thresholds and layer limits",
 "Tests check shapes and counts on two random data sets.",
 ["fast_hdbscan/layer_clusters.py", "fast_hdbscan/hdbscan.py", "fast_hdbscan/cluster_trees.py"],
 [("size barcode", "fast_hdbscan/layer_clusters.py:min_cluster_size_barcode"),
  ("peak selection", "fast_hdbscan/layer_clusters.py:select_diverse_peaks"),
  ("layer tree", "fast_hdbscan/layer_clusters.py:build_layer_cluster_tree")],
 ["PLSCAN.fit -> cluster_layers_, cluster_tree_, labels_"])

prop("C14", "Sub-cluster and branch labels refine the clusters they come from",
 "Sub-cluster (and branch) detection never moves a sample across clusters: every resulting group lies inside one input cluster, samples that were noise stay noise with strength zero, group labels are consecutive, and strengths are the mean of cluster and group strength. Within each cluster the groups equal the density clustering of the cluster's neighbour-plus-spanning-tree graph with edges weighted by the larger lens value. Propagation assigns every unassigned sample of a split cluster to a group of the same cluster by the weighted majority of its neighbours and changes no other label; a cluster without groups or enough branches keeps one label.",
 ["inputs", "configurations"],
 "all fitted clusterers, lens values, label overrides and settings",
 "Tests compare counts on one data set for a few settings.",
 ["fast_hdbscan/sub_clusters.py", "fast_hdbscan/branches.py", "fast_hdbscan/core_graph.py"],
 [("graph per cluster", "fast_hdbscan/core_graph.py:knn_mst_union"),
  ("sub-cluster extraction", "fast_hdbscan/core_graph.py:core_graph_clusters"),
  ("label assembly", "fast_hdbscan/sub_clusters.py:update_labels"),
  ("propagation", "fast_hdbscan/sub_clusters.py:propagate_labels_per_cluster"),
  ("branch threshold", "fast_hdbscan/branches.py:apply_branch_threshold")],
 ["SubClusterDetector.fit", "BranchDetector.fit", "find_sub_clusters", "find_branch_sub_clusters"])

prop("C15", "Refitting equals fitting afresh; queries and inputs are untouched",
 "After any sequence of parameter changes, fits on different data and queries, an estimator's fitted results equal those of a new estimator with the same parameters fitted once on the last data. Cuts of the hierarchy, tree properties, label propagation and sub-cluster detection change neither the estimator they read nor each other's results. No call modifies the arrays or matrices the caller passed in.",
 ["histories", "inputs"],
 "all sequences of fit, set-parameter and query calls over all estimators, data kinds and parameters",
 "Tests fit each estimator once and never compare with a fresh one or check that arguments are unchanged.",
 ["fast_hdbscan/hdbscan.py", "fast_hdbscan/sub_clusters.py", "fast_hdbscan/branches.py", "fast_hdbscan/precomputed.py", "fast_hdbscan/layer_clusters.py"],
 [("fit overwrites all fitted state", "fast_hdbscan/hdbscan.py:HDBSCAN.fit"),
  ("copies before in-place renumbering and propagation", "fast_hdbscan/sub_clusters.py:SubClusterDetector.propagated_labels")],
 ["HDBSCAN, PLSCAN, SubClusterDetector, BranchDetector attributes", "arguments passed in"],
 [("fitted attributes", "labels, strengths, trees, neighbours, raw data", "fast_hdbscan/hdbscan.py")])

prop("C16", "Semi-supervised selection maximises agreement with the given labels",
 "With partial labels, the selected clusters of a hierarchy with splits are a non-overlapping set covering every branch whose total BCubed F-score with the labelled samples is the largest possible, ties being resolved by stability and then in favour of the larger cluster. In the extended variant labelled samples that drop out of an internal cluster compete as single-sample nodes that are never returned as clusters. Renaming the classes or storing them in another number type changes nothing, and unlabelled samples count for nothing.",
 ["inputs", "configurations"],
 "all hierarchies, partial labelings and both variants",
 "One test compares the precomputed and feature paths, which share the selection code.",
 ["fast_hdbscan/cluster_trees.py", "fast_hdbscan/hdbscan.py"],
 [("BCubed scores", "fast_hdbscan/cluster_trees.py:score_condensed_tree_nodes_bcubed"),
  ("selection", "fast_hdbscan/cluster_trees.py:eom_recursion_bcubed"),
  ("labelled members", "fast_hdbscan/cluster_trees.py:get_condensed_tree_clusters_bcubed")],
 ["HDBSCAN(semi_supervised=True).fit(X, y)", "clusters_from_spanning_tree(semi_supervised=True)"])

prop("C17", "Every accepted call terminates with a full set of results",
 "For every data set (including one or two rows, all-identical rows, or fewer rows than min_samples or min_cluster_size) and every combination of documented parameter values, fitting either finishes with labels, strengths and trees of the right lengths or refuses the arguments with a clear argument error. It never hangs, never fails with an internal error, and never reports an index that is not a sample or a node. Sizes and counts below one, negative selection thresholds and unknown method, algorithm and metric names are always refused.",
 ["inputs", "configurations"],
 "all small data sets and the product of all documented options",
 "Tests try single options on comfortable data sizes; combinations of options and degenerate sizes are not enumerated.",
 ["fast_hdbscan/hdbscan.py", "fast_hdbscan/boruvka.py", "fast_hdbscan/cluster_trees.py", "fast_hdbscan/layer_clusters.py"],
 [("argument validation", "fast_hdbscan/hdbscan.py:fast_hdbscan"),
  ("degenerate sizes", "fast_hdbscan/hdbscan.py:fast_hdbscan")],
 ["HDBSCAN.fit", "PLSCAN.fit", "fast_hdbscan()"])

prop("C18", "Other metrics: the tree is faithful to the neighbour graph used",
 "For metrics other than Euclidean, given the neighbour graph delivered by the approximate neighbour index, the core distance of a sample is the distance of its min_samples-th listed neighbour (zero for one), the finite edges form a minimum spanning forest of the mutual reachability distances over the listed pairs, and components are joined by infinite edges only. Absent neighbours are never treated as samples. The same holds for Euclidean data with more than 30 columns.",
 ["inputs", "configurations"],
 "all neighbour graphs an index may deliver (ties, missing entries, disconnected), all min_samples and neighbour counts",
 "Tests run the real index on three blobs; which graphs it returns cannot be steered, so missing entries and disconnections are not reached.",
 ["fast_hdbscan/nndescent.py", "fast_hdbscan/kruskal.py", "fast_hdbscan/precomputed.py", "fast_hdbscan/hdbscan.py"],
 [("edge list", "fast_hdbscan/kruskal.py:_build_mrd_edges_knn"),
  ("forest", "fast_hdbscan/nndescent.py:compute_mst_from_knn_graph")],
 ["compute_minimum_spanning_tree(metric=...)", "HDBSCAN(metric=...).fit"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
