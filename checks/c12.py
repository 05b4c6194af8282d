"""C12: sample weights act as sample mass."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, product_space
from mc import gens, hier, oracle as O, recorded
from mc.euclid import ref, array

ASSUMPTIONS = [
    "when the samples searched weigh less than min_samples together, the farthest of them or infinity is accepted as "
    "core distance",
    "clusters of total weight one or less (min_cluster_size 1) are only judged in the condensed tree",
    "selection scores of weighted clusters are not judged, only hierarchies, sizes and leaf clusterings",
]
INF = float("inf")


def w32(ws):
    return np.array(ws, dtype=np.float32)


def numbered(labels):
    """The numbers in use without gaps (C10 judges the numbering)."""
    used = sorted(set(int(x) for x in labels) - {-1})
    return [used.index(int(x)) if x >= 0 else -1 for x in labels]


def needed(ms, ws):
    """Number of neighbours a search for min_samples looks at (one less where rounding may decide)."""
    x = 2 * ms / (sum(ws) / len(ws))
    return int(x - 1e-4 * x)


def snapped(r, core):
    """Core distances with the rounding of single precision undone."""
    out = []
    for i, x in enumerate(float(v) for v in core):
        near = min((float(d) for d in r.D[i]), key=lambda d: abs(d - x))
        out.append(near if abs(near - x) <= 2e-6 * near else x)
    return out


# ---------------------------------------------------------------- hierarchies of given spanning trees
def judge_tree(edges, ws, mcs, L, ct, n, ctx):
    """Linkage and condensed tree carry total weights.  Returns the parsed condensed tree, None if a finding."""
    O.check_linkage(L, edges, n, weights=ws)
    try:
        t = O.parse_ctree(ct, n)
        O.check_ctree_semantics(t, weights=ws)
        O.check_ctree_equal(t, O.condense_reference(L, n, mcs, weights=ws))
    except Violation as v:
        if max(ws) >= mcs and recorded.same_rows(O.ctree_rows(ct), recorded.condense_weighted(L, n, mcs, ws)):
            ctx.known("heavy-sample", "weights %s, minimum size %s: %s" % (list(ws), mcs, v))
            return None
        raise
    return t


def run(c, ctx):
    edges, (ws, mcs) = c
    n = len(edges) + 1
    labels, strengths, L, ct, mst = hier.run_tree(edges, min_cluster_size=mcs, sample_weights=w32(ws),
                                                  cluster_selection_method="leaf")
    hier.same_edges(mst, edges)
    t = judge_tree(edges, ws, mcs, L, ct, n, ctx)
    if t is not None and mcs > 1:
        O.check_same_grouping(numbered(labels), O.labels_reference(t, O.leaf_reference(t), 0.0, n), "leaf clustering of weighted samples",
                               "labels-weighted")
        if len(set(e[2] for e in edges)) == len(edges):
            # renaming samples together with their weights renames the result
            p = hier.perms_of(n)[1 + (n + mcs) % 3]
            w2 = [0.0] * n
            for i in range(n):
                w2[p[i]] = ws[i]
            l2 = hier.run_tree([(p[a], p[b], d) for a, b, d in edges], min_cluster_size=mcs, sample_weights=w32(w2),
                               cluster_selection_method="leaf")[0]
            O.check_same_grouping(numbered([l2[p[i]] for i in range(n)]), list(labels), "the same samples in another order", "labels-order")
    ctx.state(edges, ws, mcs, tuple(O.ctree_rows(ct)))
    ctx.trans(len(O.ctree_rows(ct)))
    ctx.trace()


# ---------------------------------------------------------------- core distances and spanning trees
def weighted_cores(r, ws, ms, searched):
    """Per sample the accepted core distances: exact ones, or (lowest, highest) when the search ends too early."""
    out = []
    for i in range(r.n):
        order = sorted(range(r.n), key=lambda j: (float(r.D[i][j]), j != i))
        tot, exact = 0.0, INF
        reach = {}
        for j in order:
            d = float(r.D[i][j])
            tot += ws[j]
            reach[d] = tot
            if tot >= ms and exact == INF:
                exact = d
        if ms <= 0:
            exact = 0.0
        k = min(searched, r.n)
        far = float(r.D[i][order[k - 1]])
        # weight that is certainly found: everything nearer than the farthest searched, plus the sample itself
        sure = sum(ws[j] for j in order[:k] if float(r.D[i][j]) < far or j == i)
        whole = sum(ws[j] for j in order if float(r.D[i][j]) <= far) if k < r.n and float(r.D[i][order[k]]) == far else None
        if exact < far or (exact == far and (sure >= ms or whole is None)):
            out.append((exact, exact))
        else:
            out.append((far, INF))
    return out


def check_cores(core, acc):
    core = np.asarray(core, dtype=np.float64).tolist()
    if len(core) != len(acc):
        raise Violation("%d core distances for %d samples" % (len(core), len(acc)), "core-shape")
    for i, (x, (lo, hi)) in enumerate(zip(core, acc)):
        if not (lo * (1 - 2e-6) <= x <= hi * (1 + 2e-6)):
            raise Violation("core distance of sample %d is %r, expected %s" % (
                i, x, lo if lo == hi else "at least %r" % lo), "core-value")


def run_kruskal(c, ctx):
    from mc import sut
    from checks.c04 import knn_pairs, check_between

    rows, ws, ms, k = c
    n = len(rows)
    edges, _, core = sut.compute_minimum_spanning_tree(array(rows), min_samples=ms, algorithm="kruskal", knn_k=k,
                                                       sample_weights=w32(ws))
    r = ref(rows)
    kk = max(k, int(2 * ms / (sum(ws) / n)))
    lo = max(k, needed(ms, ws))
    check_cores(core, weighted_cores(r, ws, ms, lo + 1))
    W = r.mrd_for(snapped(r, core))
    must, may = knn_pairs(r, lo)[0], knn_pairs(r, kk)[1]
    es = O.check_tree_edges(edges, n)
    check_between(es, W, must, may, n)
    ctx.state(rows, ws, ms, k, tuple(es))
    ctx.trans(len(es))
    ctx.trace()


def run_boruvka(c, ctx):
    from mc import sut

    rows, ws, ms, leaf = c
    n = len(rows)
    searched = needed(ms, ws)
    if searched < 1:
        # recorded: nothing is searched and memory behind the table is read; never run compiled
        ctx.count("skipped_empty_search")
        return
    with sut.leaf_size(leaf):
        edges, _, core = sut.compute_minimum_spanning_tree(array(rows), min_samples=ms, sample_weights=w32(ws))
    r = ref(rows)
    acc = weighted_cores(r, ws, ms, searched)
    try:
        check_cores(core, acc)
        W = r.mrd_for(snapped(r, core))
        es = O.check_mst(edges, W, n)
    except Violation as v:
        if int(2 * ms / (sum(ws) / n) + 1e-6) > n and v.key in ("mst-endpoint", "mst-cycle", "mst-weight", "mst-shape", "core-value"):
            ctx.known("search-beyond-samples", "%s, weights %s, min_samples %d: %s" % (rows, list(ws), ms, v))
            return
        why = recorded_boruvka(r, edges, core, acc)
        if why is not None:
            raise Violation("%s (and not as recorded: %s)" % (v, why), v.key)
        ctx.known("boruvka-not-minimal", "%s, weights %s, min_samples %d: %s" % (rows, list(ws), ms, v))
        es = O.check_tree_edges(edges, n)
    ctx.state(rows, ws, ms, tuple(es))
    ctx.trans(len(es))
    ctx.trace()


def recorded_boruvka(r, edges, core, acc):
    """Recorded: distances are taken for squared distances, so that roots of them are returned, and neighbours beyond
    the core distance are linked as if they were nearest."""
    cores = [float(x) ** 2 for x in np.asarray(core)]
    for i, (x, (lo, hi)) in enumerate(zip(cores, acc)):
        if not (lo * (1 - 1e-5) <= x <= hi * (1 + 1e-5)):
            return "core distance of sample %d" % i
    try:
        es = O.check_tree_edges(edges, r.n)
    except Violation as v:
        return str(v)
    for a, b, w in es:
        d = float(r.D[a][b])
        if not any(O.close(w, math.sqrt(x), 1e-5) for x in (
                max(cores[a], d), max(cores[b], d), max(cores[a], cores[b], d * d))):
            return "weight of edge (%d, %d)" % (a, b)
    return None


def run_empty_search(c, ctx):
    """Interpreted: samples so heavy that no neighbour is needed."""
    from mc import sut

    rows, ws, ms = c
    n = len(rows)
    try:
        edges, _, core = sut.compute_minimum_spanning_tree(array(rows), min_samples=ms, sample_weights=w32(ws))
    except (IndexError, ValueError) as e:
        ctx.known("empty-search", "%s, weights %s, min_samples %d: %s: %s" % (rows, list(ws), ms, type(e).__name__, e))
        return
    r = ref(rows)
    check_cores(core, weighted_cores(r, ws, ms, 1))
    es = O.check_mst(edges, r.mrd_for(snapped(r, core)), n)
    ctx.state(c, tuple(es))
    ctx.trace()


# ---------------------------------------------------------------- estimators
def run_estimator(c, ctx):
    from mc import sut

    rows, ws, ms, mcs, algo = c
    n = len(rows)
    if algo == "boruvka" and not 1 <= needed(ms, ws) <= n - 1:
        ctx.count("skipped_search")
        return
    kw = dict(algorithm="kruskal", knn_k=n - 1) if algo == "kruskal" else {}
    est = sut.HDBSCAN(min_samples=ms, min_cluster_size=mcs, cluster_selection_method="leaf", **kw)
    X = array(rows)
    est.fit(X, sample_weight=np.array(ws))
    mst = np.array(est.minimum_spanning_tree_.to_numpy())
    L = np.array(est.single_linkage_tree_.to_numpy())
    ct = np.array(est.condensed_tree_.to_numpy())
    O.check_tree_edges(mst, n)
    t = judge_tree(mst, ws, mcs, L, ct, n, ctx)
    if t is not None:
        O.check_same_grouping(numbered(est.labels_), O.labels_reference(t, O.leaf_reference(t), 0.0, n), "leaf clustering of weighted samples",
                               "labels-weighted")
        if not t.children[t.root]:
            return
        m = sut.PLSCAN(min_samples=ms, base_min_cluster_size=mcs, max_layers=1, **kw).fit(X, sample_weight=np.array(ws))
        if len(set(mst[:, 2].tolist())) == n - 1:
            try:
                O.check_same_grouping(numbered(m.labels_), list(est.labels_), "base layer of weighted samples", "labels-layer")
            except Violation as v:
                u = O.parse_ctree(hier.run_tree([tuple(e) for e in mst.tolist()], min_cluster_size=mcs,
                                              cluster_selection_method="leaf")[3], n)
                plain = O.labels_reference(u, O.leaf_reference(u) or [u.root], 0.0, n)
                if u.children[u.root]:
                    try:
                        O.check_same_grouping(numbered(m.labels_), list(plain), "", "")
                    except Violation:
                        raise v
                ctx.known("layers-ignore-weights", "%s, weights %s: %s" % (rows, list(ws), v))
    ctx.state(c, tuple(O.ctree_rows(ct)))
    ctx.trans(len(O.ctree_rows(ct)))
    ctx.trace()


def classify(space, case, key, msg):
    # recorded: a sample heavy enough on its own becomes a cluster without samples, which labelling cannot find
    if space.startswith(("weights", "pairs")) and key == "raise:KeyError" and max(case[1][0]) >= case[1][1]:
        return "heavy-sample"
    return None


def tree_params(values, mcss):
    return lambda n: [(ws, m) for ws in itertools.product(values, repeat=n) for m in mcss]


def build(tier):
    T = tier == "thorough"
    small = sum([hier.path_permutations(n) for n in (3, 4)], []) + sum([hier.path_gaps(n, (0, 1, INF)) for n in (3, 4)], [])
    five = hier.path_permutations(5)
    chains = hier.group_chain(3, 2, (0.5, 1.0), (2, 4)) + hier.group_chain(3, 2, (1.0,), (2, 4), renames=(1, 2, 3))
    chains4 = hier.group_chain(4, 2, (1.0,), (2, 4, 8))
    lines = gens.line_data([((0, 1, 2, 4), 3)]) + [gens.float_rows((v,) for v in p) for p in
                                                  itertools.permutations((0, 1, 3, 7))]
    more = [gens.float_rows((v,) for v in p) for p in
            ((0, 1, 3, 7, 15), (15, 0, 7, 1, 3), (0, 1, 10, 11.5, 30), (0, 0, 1, 1, 5), (0, 1, 2, 3, 4), (4, 2, 2, 9, 1))]
    sized = [gens.float_rows(gens.family(k, n)) for n in (20, 45, 90) for k in
             ("growing", "quadratic", "pairs", "blocks", "line", "wide")]
    pat = lambda n: [tuple([0.5, 1.0, 2.0, 4.0][(i * a + b) % 4] for i in range(n)) for a, b in ((1, 0), (3, 1), (0, 1), (0, 2))] \
        + [tuple(1.0 + 7.0 * (i % 5 == 0) for i in range(n))]

    def listed(name, cases, fn, note, chunk=16, mode="jit"):
        return Space(name, len(cases), lambda i: cases[i], fn, chunk=chunk, note=note, mode=mode)

    K = [(r, ws, ms, k) for r in lines for ws in itertools.product((0.5, 1.0, 3.0), repeat=len(r))
         for ms in (1, 2, 4) for k in range(1, len(r))]
    K += [(r, ws, ms, k) for r in more for ws in itertools.product((0.0, 1.0, 2.0), repeat=len(r)) if sum(ws) > 1
          for ms in (1, 3, 5) for k in (1, 2, 4)]
    K2 = [(r, ws, ms, k) for r in sized for ws in pat(len(r)) for ms in (1, 2, 3, 5, 8) for k in (1, 3, 10)]
    B = [(r, ws, ms, l) for r in lines for ws in itertools.product((0.5, 1.0, 3.0), repeat=len(r))
         for ms in (1, 2, 3, 4) for l in (40, 1)]
    B += [(r, ws, ms, 1) for r in more for ws in itertools.product((0.0, 1.0, 2.0), repeat=len(r)) if sum(ws) > 1
          for ms in (1, 2, 3)]
    B += [(r, ws, ms, l) for r in sized for ws in pat(len(r)) for ms in (1, 2, 3, 5, 8) for l in (40, 3)]
    E = [(r, ws, ms, mcs, a) for r in more[:3] + [gens.float_rows((v,) for v in (0, 1, 10, 11.5, 30, 33))]
         for ws in itertools.product((1.0, 2.0, 5.0), repeat=len(r)) for ms in (1, 3) for mcs in (2, 3, 6)
         for a in ("boruvka", "kruskal")]
    E += [(r, ws, ms, mcs, a) for r in sized for ws in pat(len(r)) for ms in (2, 5) for mcs in (3, 5, 10)
          for a in ("boruvka", "kruskal")]
    H = [(r, ws, 1) for r in lines[-24:] for ws in ((3.0, 3.0, 3.0, 3.0), (4.0, 1.0, 4.0, 4.0), (2.0, 2.5, 2.0, 3.0))]
    return [
        hier.tree_space("weights-3-4", small, tree_params((0.5, 1.0, 2.0, 3.0), (2, 3, 4)), run,
                        "every weight vector on every small hierarchy"),
        hier.tree_space("weights-5", five, tree_params((0.5, 1.0, 2.0) if T else (1.0, 2.0), (2, 3, 4)), run,
                        "every order of merges of five weighted samples"),
        hier.tree_space("weights-zero", hier.path_permutations(4), tree_params((0.0, 1.0, 2.5), (1, 2, 3, 5)), run,
                        "samples without weight"),
        hier.tree_space("pairs", chains, tree_params((0.5, 1.0, 2.5) if T else (0.5, 1.5), (2, 3, 4)), run,
                        "chains of weighted pairs"),
        hier.tree_space("pairs-4", chains4, tree_params((1.0, 1.5), (2, 3, 4)), run, "deeper chains of weighted pairs"),
        listed("cores", K, run_kruskal, "core distances and trees of the nearest-neighbour graph, every weight vector"),
        listed("cores-sizes", K2, run_kruskal, "the same on structured data", chunk=4),
        listed("boruvka", B, run_boruvka, "core distances and trees of the tree search"),
        listed("heavy", H, run_empty_search, "samples that need no neighbours", mode="interp", chunk=4),
        listed("estimators", E, run_estimator, "end to end, and layers of weighted samples", chunk=8),
    ]
