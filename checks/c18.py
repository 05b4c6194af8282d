"""C18: for metrics other than Euclidean the tree is faithful to the neighbour graph used."""
import itertools
import math

import numpy as np

from checks.c13 import check_base
from mc.core import Space, Violation, product_space
from mc import oracle as O
from checks.c05 import pairs_of

ASSUMPTIONS = [
    "the neighbour lists of the approximate index are the environment: small cases replace the index by enumerated "
    "lists (sorted by distance, padded with -1 at infinite distance), larger ones record what the real index delivers",
]
INF = float("inf")


class Index:
    """Stand-in for, or recorder of, the neighbour index."""

    def __init__(self, lists=None):
        self.lists = lists
        self.used = None

    def __enter__(self):
        import pynndescent
        import fast_hdbscan.nndescent as N

        self.places = [(m, getattr(m, "NNDescent")) for m in (N, pynndescent) if hasattr(m, "NNDescent")]
        real = pynndescent.NNDescent
        me = self

        def make(data, *a, **kw):
            if me.lists is None:
                idx = real(data, *a, **kw)
                me.used = tuple(np.array(x) for x in idx.neighbor_graph)
                return idx
            k = kw.get("n_neighbors", 30)
            n = len(me.lists)
            ind = np.full((n, k), -1, dtype=np.int32)
            dist = np.full((n, k), np.inf, dtype=np.float32)
            for i, row in enumerate(me.lists):
                for t, (j, d) in enumerate(row[:k]):
                    ind[i, t], dist[i, t] = j, d
            me.used = (ind.copy(), dist.copy())

            class Fake:
                neighbor_graph = (ind, dist)

                def prepare(self):
                    pass

            return Fake()

        for m, _ in self.places:
            m.NNDescent = make
        return self

    def __exit__(self, *a):
        for m, f in self.places:
            m.NNDescent = f


def judge(edges, core, used, n, ms, what, ctx):
    ind, dist = used
    if any(i not in ind[i] for i in range(n)):
        ctx.count("sample_missing_in_its_own_list")  # an outcome of the real index: which entry goes is not defined
        return O.check_tree_edges(edges, n)
    lists = [[(int(j), float(d)) for j, d in zip(ind[i], dist[i]) if j >= 0 and j != i and math.isfinite(d)]
             for i in range(n)]
    exp = [0.0 if ms <= 1 else (lists[i][ms - 1][1] if len(lists[i]) >= ms else INF) for i in range(n)]
    core = np.asarray(core, dtype=float)
    if core.shape != (n,):
        raise Violation("%s: %s core distances for %d samples" % (what, core.shape, n), "core-shape")
    for i in range(n):
        if exp[i] == INF and ms < len(dist[i]) and math.isfinite(dist[i][ms]) and O.close(float(core[i]), float(dist[i][ms]), 2e-6):
            # recorded: some metrics give absent neighbours a finite distance, which becomes the core distance
            ctx.known("absent-distance", "%s: sample %d has %d listed neighbours, its core distance %r for %d is that of "
                      "an absent one" % (what, i, len(lists[i]), float(core[i]), ms))
            exp[i] = float(core[i])
        elif not O.close(float(core[i]), exp[i], 2e-6):
            raise Violation("%s: core distance of sample %d is %r, its neighbour %d is at %r" % (
                what, i, float(core[i]), ms, exp[i]), "core")
    try:
        return check(edges, lists, exp, n)
    except Violation as v:
        # recorded: the first entry of a list is dropped even where it is another sample and not the sample itself
        if any(int(ind[i, 0]) != i for i in range(n)) and v.key in ("forest-count", "forest-not-minimal"):
            short = [[(int(j), float(d)) for j, d in zip(ind[i, 1:], dist[i, 1:]) if j >= 0 and j != i
                      and math.isfinite(d)] for i in range(n)]
            check(edges, short, exp, n)
            ctx.known("self-not-first", "%s: %s" % (what, v.msg))
            return O.check_tree_edges(edges, n)
        raise


def check(edges, lists, core, n):
    D = np.full((n, n), INF)
    pairs = set()
    for i, row in enumerate(lists):
        for j, d in row:
            D[i, j] = D[j, i] = min(D[i, j], d)
            pairs.add((min(i, j), max(i, j)))
    c = np.array(core)
    return O.check_forest(edges, np.maximum(D, np.maximum(c[:, None], c[None, :])), sorted(pairs), n, 2e-6)


def run_lists(c, ctx):
    """c: lists per row (without the sample itself), position of the sample itself, min_samples, neighbour limit"""
    from mc import sut

    rows, ms, k, form = c
    n = len(rows)
    lists = []
    for i, row in enumerate(rows):
        zeros = sum(1 for _, d in row if d == 0)
        at = min(zeros, max(k or 15, ms)) if form == "self-late" else 0
        lists.append(list(row[:at]) + [(i, 0.0)] + list(row[at:]))
    if form == "columns":
        X, metric = np.arange(n * 31, dtype=float).reshape(n, 31), "euclidean"
    else:
        X, metric = np.arange(2.0 * n).reshape(n, 2), "manhattan"
    with Index(lists) as idx:
        edges, nb, core = sut.compute_minimum_spanning_tree(X, min_samples=ms, metric=metric, knn_k=k,
                                                            algorithm="kruskal" if form == "kruskal" else "boruvka")
    if idx.used is None:
        ctx.count("index_not_used")
        return
    es = judge(edges, core, idx.used, n, ms, "%s, k=%s" % (form, k), ctx)
    ctx.state(c, tuple(es))
    ctx.trans(len(es))
    ctx.trace()


def run_estimator(c, ctx):
    """The estimators cluster exactly what the index delivered: components never share a cluster."""
    from mc import sut

    rows, ms, mcs, k, how = c
    n = len(rows)
    lists = [[(i, 0.0)] + list(row) for i, row in enumerate(rows)]
    X = np.arange(2.0 * n).reshape(n, 2)
    with Index(lists) as idx:
        if how == "layers":
            est = sut.PLSCAN(min_samples=ms, base_min_cluster_size=mcs, metric="manhattan", knn_k=k).fit(X)
            labels = list(est.cluster_layers_) + [est.labels_]
            one = sut.PLSCAN(min_samples=ms, base_min_cluster_size=mcs, metric="manhattan", knn_k=k, max_layers=1).fit(X)
            edges, _, core = sut.compute_minimum_spanning_tree(X, min_samples=ms, metric="manhattan", knn_k=k)
            edges = [(int(a), int(b), float(w)) for a, b, w in np.asarray(edges)]
            if not any(math.isinf(w) for _, _, w in edges):
                check_base([int(x) for x in one.labels_], edges, mcs, ctx)
        else:
            kw = dict(leaf=dict(cluster_selection_method="leaf"), single=dict(allow_single_cluster=True)).get(how, {})
            est = sut.HDBSCAN(min_samples=ms, min_cluster_size=mcs, metric="manhattan", knn_k=k, **kw).fit(X)
            labels = [est.labels_]
            mst = np.array(est.minimum_spanning_tree_.to_numpy())
            if idx.used is not None:
                judge(mst, est._core_distances, idx.used, n, ms, "estimator", ctx)
            O.check_linkage(np.array(est.single_linkage_tree_.to_numpy()), mst, n)
    if idx.used is None:
        ctx.count("index_not_used")
        return
    ind, dist = idx.used
    comp = O.components(n, [(i, int(j)) for i in range(n) for j, d in zip(ind[i], dist[i]) if j >= 0 and math.isfinite(d)])
    for lab in labels:
        lab = [int(x) for x in lab]
        if len(lab) != n:
            raise Violation("%d labels for %d samples" % (len(lab), n), "labels")
        for a, b in itertools.combinations(range(n), 2):
            if comp[a] != comp[b] and lab[a] >= 0 and lab[a] == lab[b]:
                msg = "%s: samples %d and %d share a cluster, no listed neighbours connect them" % (how, a, b)
                if how == "layers":
                    ctx.known("layers-disconnected", msg)
                    break
                raise Violation(msg, "joined")
    ctx.state(c, tuple(tuple(int(x) for x in lab) for lab in labels))
    ctx.trans(len(labels))
    ctx.trace()


def run_graph(c, ctx):
    """Sub-cluster graphs hold the first listed neighbours and the edges of the tree, and nothing else."""
    from mc import sut
    from fast_hdbscan.sub_clusters import SubClusterDetector

    rows, labels = c
    n = len(rows)
    X = np.arange(2.0 * n).reshape(n, 2)
    with Index([[(i, 0.0)] + list(row) for i, row in enumerate(rows)]) as idx:
        est = sut.HDBSCAN(min_samples=1, min_cluster_size=2, metric="manhattan").fit(X)
    if idx.used is None:
        ctx.count("index_not_used")
        return
    det = SubClusterDetector(lens_values=np.arange(1.0, n + 1), min_cluster_size=2).fit(est, labels=np.array(labels))
    mst = np.array(est.minimum_spanning_tree_.to_numpy()).tolist()
    want = set((min(i, row[0][0]), max(i, row[0][0])) for i, row in enumerate(rows) if row)
    want |= set((min(int(a), int(b)), max(int(a), int(b))) for a, b, _ in mst)
    want = set((a, b) for a, b in want if labels[a] == labels[b])
    got = set((min(int(e["parent"]), int(e["child"])), max(int(e["parent"]), int(e["child"])))
              for e in det.approximation_graph_.to_numpy()[1])
    extra = sorted(got - want)
    # recorded: a missing entry (-1) is taken for the last sample
    last = [(a, b) for a, b in extra if b == n - 1 and not rows[a]]
    if want - got or last != extra:
        raise Violation("sub-cluster graph has edges %s, neighbours and tree give %s" % (sorted(got), sorted(want)), "graph")
    if last:
        ctx.known("absent-is-last", "edges %s: samples without listed neighbours are linked to the last sample" % last)
    for a, b in itertools.combinations(range(n), 2):
        if labels[a] != labels[b] and det.labels_[a] == det.labels_[b]:
            raise Violation("samples %d and %d of two clusters share a group" % (a, b), "refine")
    ctx.state(c, tuple(sorted(got)), tuple(int(x) for x in det.labels_))
    ctx.trans(len(got))
    ctx.trace()


REAL = {
    "manhattan": (dict(metric="manhattan"), lambda a, b: sum(abs(x - y) for x, y in zip(a, b))),
    "chebyshev": (dict(metric="chebyshev"), lambda a, b: max(abs(x - y) for x, y in zip(a, b))),
    "minkowski": (dict(metric="minkowski", metric_kwds={"p": 3.0}),
                  lambda a, b: sum(abs(x - y) ** 3 for x, y in zip(a, b)) ** (1 / 3)),
    "euclidean31": (dict(metric="euclidean"), math.dist),
    "euclidean40": (dict(metric="euclidean"), math.dist),
    "cosine": (dict(metric="cosine"), None),
}


def run_real(c, ctx):
    from mc import sut
    from mc import gens

    name, kind, n, ms, k, how = c
    rows = gens.family(kind, n)
    kw, dist = REAL[name]
    cols = 31 if name == "euclidean31" else 40 if name == "euclidean40" else len(rows[0])
    X = np.zeros((n, cols))
    if name == "cosine":
        X = np.ones((n, len(rows[0]) + 1))
    X[:, :len(rows[0])] = rows
    with Index() as idx:
        if how == "layers":
            est = sut.PLSCAN(min_samples=ms, base_min_cluster_size=3, knn_k=k, **kw).fit(X)
        else:
            est = sut.HDBSCAN(min_samples=ms, min_cluster_size=3, knn_k=k, **kw).fit(X)
    if idx.used is None:
        ctx.count("index_not_used")
        return
    ind, dd = idx.used
    if dist is not None:
        for i in range(n):
            for j, d in zip(ind[i], dd[i]):
                if j >= 0 and not O.close(float(d), dist(X[i], X[j]), 1e-4):
                    raise Violation("%s: samples %d and %d were taken to be %r apart, they are %r apart" % (
                        name, i, j, float(d), dist(X[i], X[j])), "metric")
    if k is not None and ind.shape[1] < min(n, max(k, ms)):
        raise Violation("%d neighbours were asked for, %d were used" % (max(k, ms), ind.shape[1]), "neighbour-count")
    if how == "layers":
        ctx.state(c)
        ctx.trace()
        return
    edges = np.array(est.minimum_spanning_tree_.to_numpy())
    es = judge(edges, est._core_distances, idx.used, n, ms, "%s of %d, %s" % (kind, n, name), ctx)
    O.check_linkage(np.array(est.single_linkage_tree_.to_numpy()), edges, n)
    ctx.state(c, tuple(es))
    ctx.trans(len(es))
    ctx.trace()


def sorted_lists(n, ws, members):
    D = {}
    for (i, j), w in zip(pairs_of(n), ws):
        D[i, j] = D[j, i] = w
    return tuple(tuple(sorted(((j, D[i, j]) for j in members[i]), key=lambda t: (t[1], t[0]))) for i in range(n))


def space(name, items_size, dec, run, note, chunk=32, warm=(0, -1)):
    return Space(name, items_size, dec, run, chunk=chunk, note=note, warm=warm)


def path_lists(sizes, seed):
    """Components are rows of samples; every sample lists its two nearest on each side within the component."""
    rows, at = [], 0
    for t, m in enumerate(sizes):
        pos = [0.0]
        for i in range(m - 1):
            pos.append(pos[-1] + 1.0 + ((i * (3 + seed) + t) % 4) * 0.5)
        for i in range(m):
            near = sorted(((abs(pos[i] - pos[j]), j) for j in range(m) if j != i))[:4]
            rows.append(tuple((at + j, d) for d, j in near))
        at += m
    return tuple(rows)


def build(tier):
    T = tier == "thorough"
    out = []
    others = [[j for j in range(4) if j != i] for i in range(4)]
    everyone = tuple(tuple(o) for o in others)
    s, d = product_space(list(itertools.product((1.0, 2.0, 3.0), repeat=6)), [1, 2, 3, 4], [None, 1, 2, 3],
                         ["plain", "columns", "kruskal"])
    out.append(space("complete-n4", s, lambda i, d=d: (lambda t: (sorted_lists(4, t[0], everyone),) + t[1:])(d(i)),
                     run_lists, "every order of distances of 4 samples, every neighbour limit", warm=(0, 1, 2, 3, -1)))
    subsets = [[m for k in range(4) for m in itertools.combinations(o, k)] for o in others]
    weights = [(1.0, 2.0, 3.0, 4.0, 5.0, 6.0), (6.0, 1.0, 5.0, 2.0, 4.0, 3.0), (1.0, 1.0, 2.0, 2.0, 1.0, 2.0)]
    s, d = product_space(subsets[0], subsets[1], subsets[2], subsets[3], weights, [1, 2, 3])
    out.append(space("partial-n4", s, lambda i, d=d: (lambda t: (sorted_lists(4, t[4], t[:4]), t[5], None, "plain"))(d(i)),
                     run_lists, "every set of listed neighbours of 4 samples"))
    graphs = []
    for ms in itertools.product(*subsets):
        comp = O.components(4, [(i, j) for i, m in enumerate(ms) for j in m])
        if all(ms) or len(set(comp)) > 1:
            continue
        graphs += [(sorted_lists(4, w, ms), g) for w in weights for g in ((0, 0, 0, 0), (0, 0, 1, 1), (1, 0, 1, 0), (1, 0, 0, 1))]
    out.append(space("absent-n4", len(graphs), lambda i: graphs[i], run_graph,
                     "sub-cluster graphs when some samples list no neighbours"))
    two = [[m for k in (1, 2) for m in itertools.combinations([j for j in range(5) if j != i], k)] for i in range(5)]
    w5 = [tuple(float(1 + (3 * t) % 11) for t in range(10)), tuple(float(1 + (7 * t + 5) % 11) for t in range(10))]
    s, d = product_space(*two, w5 if T else w5[:1], [1, 2] if T else [1])
    out.append(space("partial-n5", s, lambda i, d=d: (lambda t: (sorted_lists(5, t[5], t[:5]), t[6], None, "plain"))(d(i)),
                     run_lists, "one or two listed neighbours of 5 samples"))
    zero = []
    for v in itertools.product((0, 1, 2, 4), repeat=5 if T else 4):
        zero.append(v)
    s, d = product_space(zero, [1, 2, 3], [1, 2, 3, None], ["plain", "self-late"])

    def dup(t):
        n = len(t[0])
        ws = [float(abs(t[0][i] - t[0][j])) for i, j in pairs_of(n)]
        return (sorted_lists(n, ws, [[j for j in range(n) if j != i] for i in range(n)]),) + t[1:]

    out.append(space("identical", s, lambda i, d=d: dup(d(i)), run_lists, "identical samples, which may be listed first"))
    comps = [c for k in (1, 2, 3) for c in itertools.product((2, 3, 5, 8), repeat=k)]
    s, d = product_space(comps, [0, 1], [1, 2, 3], [2, 3], [None, 2, 4], ["eom", "leaf", "single", "layers"])
    out.append(space("estimators", s, lambda i, d=d: (lambda t: (path_lists(t[0], t[1]),) + t[2:])(d(i)),
                     run_estimator, "estimators on one to three components"))
    # one metric at a time: the index compiles its metric once per process (the last one on every call)
    s, d = product_space(["manhattan", "euclidean31", "cosine"] + (["chebyshev", "euclidean40"] if T else []),
                         ["line", "blocks", "quadratic", "heavy-ties", "wide", "cube"],
                         [2, 3, 5, 8, 13, 17, 25, 41, 60] if T else [2, 3, 9, 17, 30], [1, 2, 5], [None, 3])
    per = s // (5 if T else 3)
    real = [d(i) + ("clusters",) for i in range(s)]
    real += [("minkowski", "quadratic", n, 2, k, how) for n in (5, 20) for k in (None, 3) for how in ("clusters", "layers")]
    out.append(space("real-index", len(real), lambda i: real[i], run_real, "recorded lists of the real index",
                     chunk=per, warm=()))
    return out
