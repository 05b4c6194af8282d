"""C08: the condensed tree is the hierarchy pruned at the minimum cluster size."""
import numpy as np

from mc.core import Space, Violation
from mc import gens, hier, oracle as O
from mc.euclid import array

ASSUMPTIONS = ["densities are compared as single-precision numbers (relative tolerance 1e-5)"]
INF = float("inf")


def judge(L, ct, n, mcs, ctx, key):
    t = O.parse_ctree(ct, n)
    O.check_ctree_semantics(t)
    O.check_ctree_equal(t, O.condense_reference(L, n, mcs))
    ctx.state(key, mcs, tuple(O.ctree_rows(ct)))
    ctx.trans(len(O.ctree_rows(ct)))
    ctx.trace()


def run(c, ctx):
    edges, mcs = c
    n = len(edges) + 1
    labels, strengths, L, ct, mst = hier.run_tree(edges, min_cluster_size=mcs)
    judge(L, ct, n, mcs, ctx, edges)


def run_feature(c, ctx):
    from mc import sut

    rows, ms, mcs = c
    est = sut.HDBSCAN(min_samples=ms, min_cluster_size=mcs).fit(array(rows))
    L = np.array(est.single_linkage_tree_.to_numpy())
    ct = np.array(est.condensed_tree_.to_numpy())
    judge(L, ct, len(rows), mcs, ctx, rows)


def classify(space, case, key, msg):
    # recorded: with a minimum cluster size of one, single samples are taken for clusters
    mcs = case[2] if space in ("feature", "sizes") else case[1]
    return "minimum-size-one" if mcs <= 1 and str(key).startswith("ctree-") else None


def build(tier):
    T = tier == "thorough"
    every = lambda n: list(range(1, n + 2))
    feat = gens.line_data([((0, 1, 2, 4), n) for n in range(2, 6)]) + gens.grid_multisets((3, 3), (4, 5))
    size, dec = gens.with_params(feat, lambda n: [(ms, mcs) for ms in sorted(set([1, 2, n - 1])) if ms < n for mcs in (1, 2, 3)])
    size2, dec2 = gens.with_params(gens.family_data(list(range(2, 70, 1 if T else 3)) + [120, 161]),
                                   lambda n: [(ms, mcs) for ms in (1, 3) if ms < n for mcs in (2, 3, 4, 5, 8, max(2, n // 2))])
    return [
        hier.tree_space("paths", sum([hier.path_permutations(n) for n in range(2, 9 if T else 8)], []), every, run,
                        "every merge order of a row of samples, every minimum cluster size"),
        hier.tree_space("ties", sum([hier.path_gaps(n, (0, 1, 2, INF)) for n in range(2, 8 if T else 7)], []), every,
                        run, "rows with ties, zero and infinite distances"),
        hier.tree_space("trees", hier.all_trees(5, (1, 2, 4)) + hier.all_trees(6, (1, 2, 4) if T else (1, 2)),
                        lambda n: [2, 3], run, "every labelled tree"),
        hier.tree_space("pairs", hier.group_chain(4, 2, (0.5, 1.0), (2, 4, 8, 16)) +
                        hier.group_chain(5, 2, (1.0,), (2, 4, 8, 16), renames=(0, 1, 2, 3)) +
                        hier.group_chain(6, 2, (1.0,), (2, 4, 8, 16, 32), renames=(0, 3)) +
                        hier.group_chain(4, 3, (1.0,), (2, 4, 8), renames=(0, 1, 2, 3)),
                        lambda n: [2, 3, 4, 5, 6], run, "chains of groups: up to six nested clusters"),
        hier.tree_space("scales", hier.scaled(sum([hier.path_permutations(n) for n in (4, 5, 6)], [])
                                              + hier.path_gaps(5, (0, 1, 2, INF))), lambda n: [2, 3], run,
                        "very small and very large distances"),
        Space("feature", size, dec, run_feature, chunk=16, note="end to end on small data"),
        Space("sizes", size2, dec2, run_feature, chunk=4, note="end to end on structured data of many sizes"),
    ]
