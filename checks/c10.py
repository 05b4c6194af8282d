"""C10: labels and membership strengths are well formed and match the tree."""
import math

import numpy as np

from mc.core import Space, Violation
from mc import gens, hier, oracle as O, recorded as R
from mc.euclid import array

ASSUMPTIONS = [
    "a selection of the whole data set follows its own rule (densest samples or those above the epsilon density)",
]
INF = float("inf")


def judge(labels, strengths, ct, n, mcs, eps, ctx, key, isolated=()):
    t = O.parse_ctree(ct, n)
    lab = [int(x) for x in labels]
    if len(lab) != n or min(lab) < -1:
        raise Violation("labels %s for %d samples" % (lab, n), "labels-shape")
    lab, gaps = R.renumber(lab, t)
    if gaps:
        ctx.known("memberless-label", "labels %s: a cluster without members has a number" % list(labels))
    options = O.check_some_selection(t, lab, eps, n)
    sizes = {}
    for l in lab:
        if l >= 0:
            sizes[l] = sizes.get(l, 0) + 1
    whole = any(t.root in exp for exp in options)
    for l, s in sizes.items():
        if s < min(mcs, n) and not whole and math.isfinite(mcs):
            if not any(x == 0 for c in t.points for _, x in t.points[c]):
                raise Violation("cluster %d has %d samples, minimum is %d" % (l, s, mcs), "labels-small")
    for k, exp in enumerate(options):
        try:
            O.check_strengths(t, exp, strengths)
            break
        except Violation:
            if k == len(options) - 1:
                raise
    for p in isolated:
        if lab[p] != -1:
            raise Violation("sample %d is infinitely far from all others but labelled %d" % (p, lab[p]),
                            "labels-isolated")
    ctx.state(key, tuple(lab), tuple(float(x) for x in strengths))
    ctx.trans(n)
    ctx.trace()


def run(c, ctx):
    edges, (mcs, method, single, eps, pers, max_size) = c
    n = len(edges) + 1
    if pers > 0 and not R.has_split(hier.bare_tree(edges, mcs), n):
        ctx.count("skipped_no_split")  # executed, interpreted, by C09
        return
    labels, strengths, L, ct, mst = hier.run_tree(
        edges, min_cluster_size=mcs, cluster_selection_method=method, allow_single_cluster=single,
        cluster_selection_epsilon=eps, cluster_selection_persistence=pers, max_cluster_size=max_size)
    deg = {}
    for a, b, w in edges:
        if math.isfinite(w):
            deg[a] = deg[b] = 1
    judge(labels, strengths, ct, n, mcs, eps, ctx, (edges,) + c[1], [p for p in range(n) if p not in deg])


def run_feature(c, ctx):
    from mc import sut

    rows, ms, mcs, method, single, eps = c
    est = sut.HDBSCAN(min_samples=ms, min_cluster_size=mcs, cluster_selection_method=method,
                      allow_single_cluster=single, cluster_selection_epsilon=eps)
    lab = est.fit_predict(array(rows))
    if not np.array_equal(lab, est.labels_):
        raise Violation("fit_predict and labels_ differ", "labels-differ")
    judge(est.labels_, est.probabilities_, np.array(est.condensed_tree_.to_numpy()), len(rows), mcs, eps, ctx, c)


def classify(space, case, key, msg):
    # recorded: KeyError when exactly one cluster other than the whole data set remains after max_cluster_size or epsilon
    if key == "raise:KeyError" and space not in ("feature", "sizes"):
        mcs, method, single, eps, pers, max_size = case[1]
        if eps > 0 or math.isfinite(max_size):
            return "one-cluster-keyerror"
    if key == "raise:KeyError" and space in ("feature", "sizes") and case[5] > 0:
        return "one-cluster-keyerror"
    return None


def build(tier):
    T = tier == "thorough"

    def params(n):
        for mcs in (2, 3):
            for method in ("eom", "leaf"):
                for single in (False, True):
                    for eps, pers, mx in ((0.0, 0.0, INF), (1.5, 0.0, INF), (3.0, 0.0, INF), (0.0, 0.4, INF),
                                          (0.0, 0.0, 3.0)):
                        yield (mcs, method, single, eps, pers, mx)

    def fparams(n):
        for ms in [m for m in (1, 2, 3) if m < n]:
            for mcs in (2, 3):
                for method, single, eps in (("eom", False, 0.0), ("eom", True, 0.0), ("leaf", False, 0.0),
                                            ("eom", True, 1.5), ("leaf", False, 1.2)):
                    yield (ms, mcs, method, single, eps)

    feat = gens.line_data([((0, 1, 2, 4), n) for n in range(2, 6)]) + gens.line_data([((0, 1, 5), 6)]) \
        + gens.grid_multisets((3, 3), (4, 5) + ((6,) if T else ()))
    fs, fd = gens.with_params(feat, fparams)
    ss, sd = gens.with_params(gens.family_data(list(range(2, 100, 1 if T else 3)) + [160, 161]), fparams)
    return [
        hier.tree_space("paths", sum([hier.path_permutations(n) for n in range(2, 8)], [])
                        + sum([hier.path_gaps(n, (1, 2, 4)) for n in range(2, 7)], []), params, run,
                        "rows of samples"),
        hier.tree_space("degenerate", sum([hier.path_gaps(n, (0, 1, 2, INF)) for n in range(2, 7)], []), params, run,
                        "zero and infinite distances"),
        hier.tree_space("pairs", hier.group_chain(4, 2, (0.25, 0.5, 1.0), (2, 4, 8), renames=(0, 2))
                        + hier.group_chain(4, 2, (0.5, 1.0), (2, 4, INF), renames=(0, 1))
                        + hier.group_chain(3, 3, (0.5, 1.0), (2, 4), renames=(0, 1, 2, 3))
                        + (hier.group_chain(5, 2, (0.5, 1.0), (2, 4, 8, 16)) if T else []), params, run,
                        "chains of groups"),
        hier.tree_space("scales", hier.scaled(hier.path_permutations(5) + hier.group_chain(3, 3, (0.5, 1.0), (2, 4))
                                              + hier.path_gaps(4, (0, 1, 2, INF))),
                        lambda n: [(2, "eom", True, 0.0, 0.0, INF), (2, "leaf", False, 0.0, 0.0, INF),
                                   (2, "eom", False, 0.0, 0.0, 3.0)], run, "very small and very large distances"),
        hier.tree_space("trees", hier.all_trees(5, (1, 2, 4)), lambda n: [(2, "eom", True, 0.0, 0.0, INF),
                                                                        (2, "leaf", False, 0.0, 0.0, INF)], run,
                        "every labelled tree"),
        Space("feature", fs, fd, run_feature, chunk=16, note="end to end on small data"),
        Space("sizes", ss, sd, run_feature, chunk=6, note="end to end on structured data of many sizes"),
    ]
