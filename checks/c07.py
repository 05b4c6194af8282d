"""C07: single-linkage hierarchy and DBSCAN cuts match the spanning tree."""
import itertools

import numpy as np

from mc.core import Space, Violation
from mc import gens, hier, oracle as O
from mc.euclid import array

ASSUMPTIONS = ["an edge belongs to a cut when it is strictly shorter than the cut distance",
               "feature data has more samples than min_samples (C01 and C17 have the rest)"]
INF = float("inf")


def cut_points(ds):
    ds = sorted(set(d for d in ds if np.isfinite(d)))
    out = [0.0, INF]
    for i, d in enumerate(ds):
        out += [d, float(np.nextafter(d, INF))]
        out.append((d + ds[i + 1]) / 2 if i + 1 < len(ds) else 2 * d + 1)
    return sorted(set(out))


def run_linkage(c, ctx):
    edges, mcs = c
    n = len(edges) + 1
    labels, strengths, L, ct, mst = hier.run_tree(edges, min_cluster_size=mcs)
    hier.same_edges(mst, edges)
    O.check_linkage(L, edges, n)
    ctx.state(edges, np.asarray(L).tobytes())
    ctx.trans(n - 1)
    ctx.trace()


def linkage_partition(L, n, cut, min_size):
    """Grouping by the merges below the cut (the merges themselves are judged by check_linkage)."""
    d = O.DSU(2 * n)
    for i, (a, b, w, s) in enumerate(np.asarray(L).tolist()):
        if w < cut:
            d.union(int(a), n + i)
            d.union(int(b), n + i)
    comp = [d.find(i) for i in range(n)]
    cnt = {}
    for x in comp:
        cnt[x] = cnt.get(x, 0) + 1
    return [x if cnt[x] >= min_size else -1 for x in comp]


def check_cuts(est, edges, n, ms, ctx):
    L = np.array(est.single_linkage_tree_.to_numpy())
    O.check_linkage(L, edges, n)
    for cut in cut_points([e[2] for e in np.asarray(edges).tolist()]):
        got = est.dbscan_clustering(cut)
        exp = O.cut_partition(edges, n, cut, ms)
        O.check_same_grouping(got, exp, "cut at %r, minimum size %d" % (cut, ms), "cut")
        ctx.state(edges.tobytes(), cut, ms)
        ctx.trans()
    if not np.array_equal(L, est.single_linkage_tree_.to_numpy()):
        raise Violation("cutting changed the hierarchy", "cut-mutates")
    ctx.trace()


def run_feature(c, ctx):
    from mc import sut

    rows, ms, mcs = c
    est = sut.HDBSCAN(min_samples=ms, min_cluster_size=mcs).fit(array(rows))
    edges = np.array(est.minimum_spanning_tree_.to_numpy())
    check_cuts(est, edges, len(rows), mcs if ms is None else ms, ctx)


def run_graph(c, ctx):
    """A tree given as precomputed sparse graph; min_samples 1 keeps its weights."""
    from mc import sut
    import scipy.sparse as sp

    edges, (ms, algo) = c
    n = len(edges) + 1
    fin = [e for e in edges if np.isfinite(e[2])]
    g = sp.csr_matrix(([e[2] for e in fin] * 2, ([e[0] for e in fin] + [e[1] for e in fin],
                                                  [e[1] for e in fin] + [e[0] for e in fin])), shape=(n, n))
    mst, _, _ = sut.compute_minimum_spanning_tree(g, min_samples=ms, metric="precomputed", algorithm=algo)
    mst = np.asarray(mst)
    est = sut.HDBSCAN(min_samples=ms, min_cluster_size=2, metric="precomputed", algorithm=algo).fit(g)
    check_cuts(est, mst, n, ms, ctx)


def build(tier):
    T = tier == "thorough"
    mcs1 = lambda n: [2, 3]
    sp_f = []
    size, dec = gens.with_params(
        gens.line_data([((0, 1, 2, 4), n) for n in range(2, 6)] + [((0, 1, 3), 6)]) +
        gens.grid_multisets((3, 3), range(3, 7 if T else 6)),
        lambda n: [(ms, 2) for ms in range(1, n)] + [(None, m) for m in (2, 3) if m < n])
    sp_f.append(Space("feature-cuts", size, dec, run_feature, chunk=16, note="cuts at, just above and between merges"))
    size, dec = gens.with_params(gens.family_data(list(range(2, 90, 1 if T else 3)) + [160, 161]),
                                 lambda n: [p for p in ((1, 2), (2, 2), (5, 5), (None, 4)) if (p[0] or p[1]) < n])
    sp_f.append(Space("sizes", size, dec, run_feature, chunk=4, note="structured data of every size"))
    return [
        hier.tree_space("paths", sum([hier.path_permutations(n) for n in range(2, 9 if T else 8)], []), mcs1,
                        run_linkage, "every merge order of a row of samples"),
        hier.tree_space("ties", sum([hier.path_gaps(n, (0, 1, 2, INF)) for n in range(2, 8 if T else 7)], []), mcs1,
                        run_linkage, "rows with ties, zero and infinite distances"),
        hier.tree_space("trees", hier.all_trees(4, (1, 2, 4)) + hier.all_trees(5, (0, 1, 2))
                        + (hier.all_trees(6, (1, 2, 4)) if T else hier.all_trees(6, (1, 2))),
                        lambda n: [2], run_linkage, "every labelled tree with tied and distinct weights"),
        hier.tree_space("scales", hier.scaled(sum([hier.path_gaps(n, (0, 1, 2, INF)) for n in (3, 4)], [])
                                              + hier.path_permutations(5)), lambda n: [2], run_linkage,
                        "very small and very large distances"),
        hier.tree_space("graph-cuts", sum([hier.path_gaps(n, (1, 2, INF)) for n in range(3, 7)], [])
                        + hier.path_permutations(6) + hier.scaled(hier.path_permutations(4) + hier.path_gaps(4, (1, 2, INF))),
                        lambda n: [(ms, a) for ms in (1, 2, 3) for a in ("boruvka", "kruskal")], run_graph,
                        "cuts of disconnected precomputed graphs"),
    ] + sp_f
