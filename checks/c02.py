"""C02: thread interleavings cannot corrupt results; the reproducible mode is repeatable."""
import itertools
import json
import os

import numpy as np

from mc.core import Space, Violation
from mc import gens, oracle as O
from mc.euclid import array, ref

ASSUMPTIONS = [
    "every iteration of a parallel loop may run on a thread of its own",
    "loads and stores of single array elements are atomic and take effect in program order",
    "the interpreted functions do what the compiled ones do (the other checks compare both)",
]
INTERPRETED = os.environ.get("NUMBA_DISABLE_JIT") == "1"
if INTERPRETED:
    from mc import sched

    sched.install()


class Always:
    """Interleavings cannot be enforced on compiled code: what the exploration finds is final."""

    def __contains__(self, key):
        return True


FINAL_KEYS = Always()


def account(ex, ctx):
    for k, n in ex.stats.items():
        if k not in ("states", "transitions"):
            ctx.count(k, n)
    ctx.count("interleaving_states", ex.stats["states"])
    ctx.trans(ex.stats["transitions"])
    ctx.trace(ex.stats["executions"])


def near(a, b):
    return len(a) == len(b) and all(x == y or abs(x - y) <= 1e-5 * max(abs(x), abs(y)) for x, y in zip(a, b))


def run_tree(c, ctx):
    from mc import sut

    rows, (ms, repro, leaf, threads, ws) = c
    n = len(rows)
    X = array(rows)
    w = None if ws is None else np.array([ws[i % len(ws)] for i in range(n)], dtype=np.float32)

    def program():
        with sut.leaf_size(leaf), sut.thread_count(threads):
            return sut.compute_minimum_spanning_tree(X, min_samples=ms, reproducible=repro, sample_weights=w)

    ex = sched.Explorer()
    r = ref(rows)
    W, exp = r.mst(ms)
    core_exp = r.core(ms)
    trees, lists, totals = set(), set(), set()
    for edges, nbrs, core in ex.explore(program):
        core = np.asarray(core).tolist()
        if ws is None:
            O.check_mst(edges, W, n, exp=exp)
            if not near(core, core_exp):
                raise Violation("core distances %s, expected %s" % (core, core_exp), "core")
        lists.add((tuple(core), tuple(tuple(sorted(r.D[i][j] for j in row if j >= 0))
                                      for i, row in enumerate(np.asarray(nbrs).tolist()))))
        key = tuple(tuple(e) for e in np.asarray(edges).tolist())
        trees.add(key)
        totals.add(tuple(sorted(e[2] for e in key)))
        if len(lists) > 1:
            raise Violation("neighbours or core distances depend on the interleaving", "lists")
        if len(totals) > 1:
            raise Violation("spanning trees of two interleavings have different distances", "distances")
    if repro and len(trees) > 1:
        msg = "%d different trees for %r, min_samples=%d, %d threads" % (len(trees), rows, ms, threads)
        if len(trees) <= RECORDED.get((rows, ms, threads, ws), 0):
            ctx.known("shared-bound", msg)
        else:
            raise Violation(msg, "reproducible")
    account(ex, ctx)
    ctx.state(rows, c[1], len(trees))


def recorded():
    """Inputs for which the reproducible mode is known to give several trees (committed, never written by a check)."""
    out = {}
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known", "c02_inputs.txt")) as f:
        for line in f:
            rows, ms, threads, ws, count = json.loads(line)
            out[(tuple(tuple(x) for x in rows), ms, threads, None if ws is None else tuple(ws))] = count
    return out


RECORDED = recorded()


def freeze(x):
    if isinstance(x, (tuple, list)):
        return tuple(freeze(y) for y in x)
    if hasattr(x, "tobytes"):
        return (str(x.dtype), x.shape, x.tobytes())
    if hasattr(x, "to_numpy"):
        return freeze(x.to_numpy())
    return repr(x)


def same(program, c, ctx):
    """The result of the program is the same for every interleaving."""
    try:
        plain = freeze(program())
    except Exception as e:  # what is refused is judged by C17
        ctx.count("refused")
        return ctx.state(c, type(e).__name__)
    ex = sched.Explorer(paths=200)
    for got in ex.explore(program):
        if freeze(got) != plain:
            raise Violation("the result depends on the interleaving of a parallel loop (%s)" % ", ".join(
                sorted(ex.racing)), "interleaving")
    account(ex, ctx)
    ctx.state(c, plain)


def run_graph(c, ctx):
    from mc import sut
    from checks.c05 import matrix

    n, ws, ms, algo = c

    def program():
        m = matrix(n, ws, "csr")
        est = sut.HDBSCAN(metric="precomputed", algorithm=algo, min_samples=ms, min_cluster_size=2).fit(m)
        return (sut.compute_minimum_spanning_tree(m, min_samples=ms, metric="precomputed", algorithm=algo),
                est.labels_, est.probabilities_, est.dbscan_clustering(1.5))

    same(program, c, ctx)


def run_kruskal(c, ctx):
    from mc import sut

    rows, (ms, k, ws) = c
    w = None if ws is None else np.array([ws[i % len(ws)] for i in range(len(rows))], dtype=np.float32)

    def program():
        est = sut.HDBSCAN(algorithm="kruskal", min_samples=ms, min_cluster_size=2, knn_k=k)
        est.fit(array(rows), sample_weight=w)
        return (sut.compute_minimum_spanning_tree(array(rows), min_samples=ms, algorithm="kruskal", knn_k=k,
                                                  sample_weights=w),
                est.labels_, est.probabilities_, [est.dbscan_clustering(x) for x in (0.5, 1.5, 3.5)])

    same(program, c, ctx)


def run_parts(c, ctx):
    from mc import sut
    from fast_hdbscan.sub_clusters import SubClusterDetector
    from fast_hdbscan.branches import BranchDetector

    rows, (ms, what, groups) = c
    est = sut.HDBSCAN(min_samples=ms, min_cluster_size=2, algorithm="kruskal").fit(array(rows))
    given = np.array([i * groups // len(rows) for i in range(len(rows))])
    lens = np.array([float((i * 5) % 7 + 1) for i in range(len(rows))])

    def program():
        if what == "branches":
            det = BranchDetector(min_cluster_size=2, label_sides_as_branches=True).fit(est, labels=given)
        elif what == "propagated":
            det = SubClusterDetector(min_cluster_size=2, lens_values=lens, propagate_labels=True).fit(est, labels=given)
        else:
            det = SubClusterDetector(min_cluster_size=2, lens_values=lens).fit(est, labels=given)
        return (det.labels_, det.probabilities_, det.sub_cluster_labels_, det.lens_values_,
                det.minimum_spanning_trees_ if hasattr(det, "minimum_spanning_trees_") else None)

    same(program, c, ctx)


def run_layers(c, ctx):
    from mc import sut

    rows, (ms, kw) = c

    def program():
        est = sut.PLSCAN(min_samples=ms, base_min_cluster_size=2, reproducible=True, **dict(kw)).fit(array(rows))
        return [est.labels_, est.cluster_layers_]

    same(program, c, ctx)


def run_fit(c, ctx):
    """The reproducible flag reaches the spanning tree from every entry point."""
    from mc import sut
    from fast_hdbscan import layer_clusters as LC

    rows, (ms, what, threads) = c
    X = array(rows)
    trees = set()

    def program():
        seen = []
        with sut.leaf_size(1), sut.thread_count(threads):
            if what == "estimator":
                est = sut.HDBSCAN(min_samples=ms, min_cluster_size=2, reproducible=True).fit(X)
                seen.append(est.minimum_spanning_tree_.to_numpy())
            elif what == "function":
                out = sut.fast_hdbscan_fn(X, min_samples=ms, min_cluster_size=2, reproducible=True, return_trees=True)
                seen.append([np.asarray(t).tolist() if not isinstance(t, tuple) else freeze(t) for t in out])
            else:
                homes = [m for m in (sut.H, LC) if hasattr(m, "compute_minimum_spanning_tree")]
                inner = homes[0].compute_minimum_spanning_tree

                def record(*a, **k):
                    out = inner(*a, **k)
                    seen.append(out[0].copy())
                    return out

                for m in homes:
                    m.compute_minimum_spanning_tree = record
                try:
                    est = sut.PLSCAN(min_samples=ms, base_min_cluster_size=2, reproducible=True).fit(X)
                finally:
                    for m in homes:
                        m.compute_minimum_spanning_tree = inner
                seen.append(est.labels_)
        return freeze(seen)

    ex = sched.Explorer()
    for key in ex.explore(program):
        trees.add(key)
    if len(trees) > 1:
        msg = "%d different results (%s) for %r, min_samples=%d, %d threads" % (len(trees), what, rows, ms, threads)
        if len(trees) <= RECORDED.get((rows, ms, threads, None), 0):
            ctx.known("shared-bound", msg)
        else:
            raise Violation(msg, "reproducible")
    account(ex, ctx)
    ctx.state(c, len(trees))


def crossed(name, data, params, fn, note, chunk=4):
    data, params = list(data), list(params)
    return Space(name, len(data) * len(params), lambda i: (data[i // len(params)], params[i % len(params)]), fn,
                 mode="interp", chunk=chunk, note=note)


PLANE = [(x, y) for x in range(3) for y in range(2)] + [(7, 0), (7, 1), (8, 0)]


def build(tier):
    thorough = tier == "thorough"
    modes = [(False, 1, 1), (True, 1, 2), (True, 1, 3)]
    lines = [tuple((x,) for x in xs) for n in (3, 4) for xs in itertools.combinations(range(6), n) if xs[0] == 0]
    lines += [tuple((x,) for x in xs) for xs in ((0, 1, 3, 7, 12), (3, 0, 12, 1, 7), (0, 1, 10, 11, 20), (20, 1, 10, 0, 11))]
    doubles = [r for n in (4, 5) for r in itertools.combinations_with_replacement([(0, 0), (1, 0), (3, 0), (3, 1)], n)]
    pts = PLANE if thorough else PLANE[:5] + PLANE[6:]
    planes = [r for n in (4, 5) for r in itertools.combinations(pts, n)]
    six = (0, 3, 8, 9, 19, 21)
    orders = [tuple((x,) for x in xs) for xs in itertools.permutations((0, 1, 10, 12, 25))]
    orders += [tuple((x,) for x in xs) for xs in itertools.permutations(six)
               if thorough or (xs.index(0) < xs.index(3) and xs.index(8) < xs.index(9))]
    large = [tuple(rows) for kind, n in (("pairs", 8), ("line-shuffled", 9), ("blocks", 8), ("quadratic", 9))
             for rows in [gens.family(kind, n)]]
    v = lambda mss, modes, ws=(None,): [(ms,) + m + (w,) for ms in mss for m in modes for w in ws]
    spaces = [
        crossed("line", lines, v((1, 2), modes), run_tree, "all gaps on a line"),
        crossed("plane", planes, v((1, 2, 3), modes), run_tree, "all subsets of a part of the grid with a second group"),
        crossed("orders", orders, v((1,), modes[1:2]), run_tree, "all row orders"),
        crossed("doubles", doubles, v((1, 2), modes[:2]), run_tree, "multisets with repeated samples"),
        crossed("larger", large, v((1, 2), modes[1:]), run_tree, "8-9 samples, reproducible mode", chunk=1),
        crossed("weights", planes, v((2,), modes[:2], ((1.0, 1.5),)), run_tree, "sample weights"),
    ]
    five = [r for r in planes if len(r) == 5]
    spaces.append(crossed("entry-points", five, [(ms, w, 2) for ms in (2, 3) for w in ("estimator", "function", "layers")], run_fit,
                          "every way to ask for the reproducible mode"))
    if thorough:
        six = list(itertools.combinations(PLANE, 6))
        spaces.append(crossed("plane-6", six, v((1, 2, 3), modes), run_tree, "all 6-subsets", chunk=1))
    ws = (None, 1.0, 2.0) if not thorough else (None, 0.0, 1.0, 2.0)
    graphs = [(4, g, ms, a) for g in itertools.product(ws, repeat=6) for ms in (1, 2) for a in ("boruvka", "kruskal")]
    spaces.append(Space("graphs", len(graphs), lambda i: graphs[i], run_graph, mode="interp", chunk=16,
                        note="all graphs of four samples"))
    some = planes + lines + doubles
    spaces.append(crossed("kruskal", some, [(1, None, None), (2, None, None), (2, 2, None), (2, 2, (1.0, 1.5))],
                          run_kruskal, "neighbour graphs and cuts", chunk=16))
    groups = [tuple((float(x), 0.0) for x in xs) for xs in itertools.combinations((0, 1, 3, 7, 12, 20), 5)]
    groups += [tuple((float(x), float(y)) for x, y in r) for r in itertools.combinations(PLANE, 6)]
    spaces.append(crossed("parts", groups, [(ms, w, g) for ms in (1, 2) for w in ("branches", "lens", "propagated")
                                             for g in (1, 2)], run_parts,
                          "sub-clusters and branches", chunk=16))
    knn = [(2, (("algorithm", "kruskal"), ("knn_k", 2)))]
    spaces.append(crossed("layers", planes + doubles, knn, run_layers, "layers", chunk=16))
    distinct = [tuple((x,) for x in xs) for xs in itertools.permutations((0, 1, 5, 12, 23), 5)]
    spaces.append(crossed("layers-tree", distinct, [(1, ())], run_layers, "layers of a tree without equal distances"))
    return spaces
