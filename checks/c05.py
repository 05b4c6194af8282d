"""C05: precomputed sparse graphs have their undirected meaning and components stay apart."""
import itertools
from itertools import chain
import math

import numpy as np

from mc.core import Space, Violation, product_space
from mc import oracle as O, recorded as R

ASSUMPTIONS = [
    "weights are small dyadic numbers, exact in single precision",
    "matrices have no duplicate entries (scipy itself adds those up when it converts)",
]
INF = float("inf")
NO = None


def pairs_of(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


class Graph:
    """Reference values of an undirected graph given by one weight (or None) per pair."""

    def __init__(self, n, ws):
        self.n, self.ws = n, ws
        self.pairs = [(i, j) for (i, j), w in zip(pairs_of(n), ws) if w is not NO]
        self.D = np.full((n, n), INF)
        for (i, j), w in zip(pairs_of(n), ws):
            if w is not NO:
                self.D[i, j] = self.D[j, i] = w
        self.comp = O.components(n, self.pairs)
        self.deg = [sum(1 for p in self.pairs if i in p) for i in range(n)]
        self._core = {}

    def core(self, ms):
        if ms not in self._core:
            out = []
            for i in range(self.n):
                near = sorted(float(self.D[i, j]) for j in range(self.n) if j != i and math.isfinite(self.D[i, j]))
                out.append(0.0 if ms <= 1 else (near[ms - 1] if len(near) >= ms else INF))
            W = np.maximum(self.D, np.maximum(np.array(out)[:, None], np.array(out)[None, :]))
            self._core[ms] = (out, W)
        return self._core[ms]


_cache = {}


def graph(n, ws):
    if _cache.get("k") != (n, ws):
        _cache["k"] = (n, ws)
        _cache["g"] = Graph(n, ws)
    return _cache["g"]


FORMS = ("csr", "csc-upper", "coo-lower", "coo-reversed", "csr-longer-back", "csr-diagonal", "csr-unsorted")


def matrix(n, ws, form):
    import scipy.sparse as sp

    ent = [(i, j, w) for (i, j), w in zip(pairs_of(n), ws) if w is not NO]
    both = ent + [(j, i, w) for i, j, w in ent]
    kind, _, how = form.partition("-")
    if how == "upper":
        es = ent
    elif how == "lower":
        es = [(j, i, w) for i, j, w in ent]
    elif how == "reversed":
        es = both[::-1]
    elif how == "longer-back":
        es = [(i, j, w) if (i + j) % 2 else (i, j, w + 1.5) for i, j, w in ent] + \
             [(j, i, w + 0.5) if (i + j) % 2 else (j, i, w) for i, j, w in ent]
    elif how == "diagonal":
        es = both + [(i, i, float(i % 3)) for i in range(n)]
    else:
        es = both
    r = np.array([e[0] for e in es], dtype=np.int32)
    c = np.array([e[1] for e in es], dtype=np.int32)
    d = np.array([e[2] for e in es], dtype=np.float64)
    if how == "unsorted":
        order = np.lexsort((-c, r))
        indptr = np.zeros(n + 1, dtype=np.int32)
        np.cumsum(np.bincount(r, minlength=n), out=indptr[1:])
        return sp.csr_matrix((d[order], c[order], indptr), shape=(n, n))
    m = sp.coo_matrix((d, (r, c)), shape=(n, n))
    return m if kind == "coo" else m.asformat(kind)


def unlinked(g, algo):
    """Recorded flaw: Boruvka gives a sample without edges the first edge of the next sample that has one."""
    return algo == "boruvka" and any(d == 0 and any(g.deg[i:]) for i, d in enumerate(g.deg))


def run_forest(c, ctx):
    from mc import sut

    n, ws, ms, algo = c
    g = graph(n, ws)
    core, W = g.core(ms)
    first = None
    for form in FORMS:
        m = matrix(n, ws, form)
        edges, nb, cd = sut.compute_minimum_spanning_tree(m, min_samples=ms, metric="precomputed", algorithm=algo)
        edges = np.asarray(edges)
        if first is None:
            for i in range(n):
                if float(cd[i]) != core[i]:
                    raise Violation("core distance of sample %d is %r, expected %r" % (i, float(cd[i]), core[i]),
                                    "graph-core")
            check_neighbors(g, np.asarray(nb), ms)
            try:
                O.check_forest(edges, W, g.pairs, n, rtol=1e-12)
            except Violation as v:
                if not unlinked(g, algo):
                    raise
                ctx.known("unlinked-sample", v.msg)
            first = edges
        elif not np.array_equal(first, edges):
            raise Violation("matrix stored as %s gives edges %s, stored as csr %s" % (
                form, edges.tolist(), first.tolist()), "graph-form")
        elif not np.array_equal(cd, core):
            raise Violation("matrix stored as %s gives core distances %s, expected %s" % (form, cd, core), "graph-form")
    ctx.state(n, ws, ms, first.tobytes())
    ctx.trans(len(FORMS) * (n - 1))
    ctx.trace(len(FORMS))


def check_neighbors(g, nb, ms):
    for i in range(g.n):
        got = [int(x) for x in nb[i]]
        real = [x for x in got if x != -1]
        if got != real + [-1] * (len(got) - len(real)) or len(set(real)) != len(real):
            raise Violation("neighbours of sample %d are %s" % (i, got), "graph-neighbors")
        near = sorted(float(g.D[i, j]) for j in range(g.n) if j != i and math.isfinite(g.D[i, j]))
        ds = [float(g.D[i, j]) if 0 <= j < g.n and j != i else -1.0 for j in real]
        if ds != near[:len(got)]:
            raise Violation("neighbours of sample %d at distances %s, nearest are %s" % (i, ds, near), "graph-neighbors")


SETTINGS = [
    ("plain", dict()),
    ("leaf", dict(cluster_selection_method="leaf")),
    ("single", dict(allow_single_cluster=True)),
    ("epsilon", dict(cluster_selection_epsilon=5.0)),
    ("epsilon-single", dict(cluster_selection_epsilon=1.5, allow_single_cluster=True)),
    ("leaf-epsilon", dict(cluster_selection_method="leaf", cluster_selection_epsilon=100.0)),
    ("max", dict(max_cluster_size=3, allow_single_cluster=True)),
    ("persistence", dict(cluster_selection_persistence=0.4)),
    ("leaf-persistence", dict(cluster_selection_method="leaf", cluster_selection_persistence=5.0)),
    ("semi", dict(semi_supervised=True)),
    ("semi-single", dict(semi_supervised=True, allow_single_cluster=True, ss_algorithm="bc_simple")),
    ("layers", None),
]


def labels_of(m, n, ms, mcs, algo, name, kw, truth):
    """List of label vectors the library derives, or None where a recorded flaw reads outside an array."""
    from mc import sut

    if kw is None:
        est = sut.PLSCAN(min_samples=ms, base_min_cluster_size=mcs, metric="precomputed", algorithm=algo)
        est.fit(m)
        return list(est.cluster_layers_) + [est.labels_]
    base = dict(min_samples=ms, min_cluster_size=mcs, metric="precomputed", algorithm=algo)
    if "cluster_selection_persistence" in kw:
        ct = sut.fast_hdbscan_fn(m, return_trees=True, **base)[3]
        if not R.has_split(O.ctree_rows(ct), n):
            return None
    if kw.get("semi_supervised"):
        return [sut.HDBSCAN(**base, **kw).fit(m, truth).labels_]
    return [sut.fast_hdbscan_fn(m, **base, **kw)[0]]


def run_clusters(c, ctx):
    n, ws, (ms, mcs, algo, k) = c
    g = graph(n, ws)
    name, kw = SETTINGS[k]
    truth = np.array([i % 2 if i % 3 else -1 for i in range(n)])
    apart = len(set(g.comp)) > 1
    flaw = None
    if apart and "persistence" in name:
        flaw = "persistence-disconnected"
    elif apart and name.startswith("semi"):
        flaw = "semi-supervised-disconnected"
    elif apart and name == "layers":
        flaw = "layers-disconnected"
    if unlinked(g, algo):
        ctx.count("left_to_forest_space")
        return
    try:
        found = labels_of(matrix(n, ws, "csr"), n, ms, mcs, algo, name, kw, truth)
    except KeyError:
        if name in ("epsilon", "epsilon-single", "leaf-epsilon", "max", "semi", "semi-single"):
            ctx.count("refused_by_recorded_keyerror")  # C09 and C16
            return
        raise
    if found is None:
        ctx.count("left_to_no_split_space")
        return
    for lab in found:
        lab = [int(x) for x in lab]
        if len(lab) != n:
            raise Violation("%d labels for %d samples" % (len(lab), n), "graph-labels")
        home = {}
        for i, l in enumerate(lab):
            if l >= 0 and home.setdefault(l, g.comp[i]) != g.comp[i]:
                msg = "%s: label %d is shared by different components, labels %s, components %s" % (
                    name, l, lab, g.comp)
                if flaw is None:
                    raise Violation(msg, "components-share")
                ctx.known(flaw, msg)
                break
    ctx.state(n, ws, c[2], tuple(tuple(int(x) for x in lab) for lab in found))
    ctx.trans(len(found))
    ctx.trace()


def run_refused(c, ctx):
    """Matrices without a meaning are refused."""
    from mc import sut
    import scipy.sparse as sp

    what, algo, api = c
    m = np.array([[0.0, 1.0, 2.0], [1.0, 0.0, 1.0], [2.0, 1.0, 0.0]])
    if what == "dense":
        g = m
    elif what == "rectangular":
        g = sp.csr_matrix(m[:2])
    else:
        m[0, 2] = {"negative": -1.0, "nan": np.nan, "inf": np.inf, "-inf": -np.inf}[what]
        g = sp.csr_matrix(m)
    try:
        if api == "fit":
            sut.HDBSCAN(min_cluster_size=2, metric="precomputed", algorithm=algo).fit(g)
        elif api == "layers":
            sut.PLSCAN(min_samples=2, base_min_cluster_size=2, metric="precomputed", algorithm=algo).fit(g)
        else:
            sut.fast_hdbscan_fn(g, min_cluster_size=2, metric="precomputed", algorithm=algo)
    except ValueError:
        ctx.state(c)
        ctx.trace()
        return
    raise Violation("a %s matrix was accepted" % what, "graph-accepted")


def graphs(name, n, values, params, run, note, chunk=32):
    np_ = len(pairs_of(n))
    size, dec = product_space(*([list(values)] * np_ + [params]))

    def decode(i):
        t = dec(i)
        p = t[-1]
        if run is run_forest:
            return (n, t[:-1]) + tuple(p)
        return (n, t[:-1], p)

    return Space(name, size, decode, run, chunk=chunk, note=note, warm=tuple(range(len(params))) + (-1,))


def listed(name, items, params, run, note, chunk=16):
    items = list(items)
    size, dec = product_space(items, params)

    def decode(i):
        (n, ws), p = dec(i)
        return (n, ws) + tuple(p) if run is run_forest else (n, ws, p)

    return Space(name, size, decode, run, chunk=chunk, note=note, warm=tuple(range(len(params))) + (-1,))


def two_parts(n1, n2, values):
    """Graphs of two complete parts with every choice of weights inside."""
    n = n1 + n2
    inner = [(i, j) for i, j in pairs_of(n) if (i < n1) == (j < n1)]
    for vs in itertools.product(values, repeat=len(inner)):
        d = dict(zip(inner, vs))
        yield n, tuple(d.get(p) for p in pairs_of(n))


def many_parts(sizes, counts):
    """Graphs whose components are paths: every sequence of component sizes."""
    for k in counts:
        for sz in itertools.product(sizes, repeat=k):
            starts = [sum(sz[:i]) for i in range(k + 1)]
            link = {(a + t, a + t + 1): 1.0 + (t % 2) + 4.0 * (t % 5 == 4) for a, m in zip(starts, sz) for t in range(m - 1)}
            n = starts[-1]
            yield n, tuple(link.get(p) for p in pairs_of(n))


def interleaved(items):
    """The same graphs with samples of both parts alternating."""
    for n, ws in items:
        perm = sorted(range(n), key=lambda i: (i % 2, i))
        d = dict(zip(pairs_of(n), ws))
        out = {}
        for (i, j), w in d.items():
            a, b = perm[i], perm[j]
            out[(min(a, b), max(a, b))] = w
        yield n, tuple(out[p] for p in pairs_of(n))


def family_graphs(sizes):
    """Structured graphs of larger size: rings, stars, blocks, chains with chords."""
    for n in sizes:
        ps = pairs_of(n)
        yield n, tuple(1.0 + (i * 7 + j) % 5 if (j - i) in (1, 2, n - 1) else NO for i, j in ps)
        yield n, tuple(float((i * 3 + j) % 4) if i % 6 == 0 and j - i < 6 else NO for i, j in ps)
        yield n, tuple(0.5 * (1 + (i * j) % 7) if i // 5 == j // 5 else NO for i, j in ps)
        yield n, tuple(2.0 if i // 4 == j // 4 else (3.0 if (i, j) == (0, n - 1) else NO) for i, j in ps)
        yield n, tuple(float(1 + (i * i + 3 * j) % 11) if (i + j) % 3 == 0 else NO for i, j in ps)


def build(tier):
    T = tier == "thorough"
    algos = ("boruvka", "kruskal")
    F = lambda mss: [(ms, a) for ms in mss for a in algos]
    C = [(ms, 2, a, k) for ms in (1, 2) for a in algos for k in range(len(SETTINGS))]
    tp = list(two_parts(3, 3, (1.0, 2.0))) + list(two_parts(2, 3, (0.0, 1.0, 2.0))) + \
        list(two_parts(2, 4, (1.0, 2.0)))
    if T:
        tp += list(two_parts(3, 3, (1.0, 2.0, 4.0))) + list(two_parts(3, 4, (1.0, 2.0)))
    tp += list(interleaved(tp))
    return [
        graphs("n3", 3, (NO, 0.0, 1.0, 2.0, 3.5), F((1, 2, 3, 4)), run_forest, "every weighted graph on 3 samples"),
        graphs("n4", 4, (NO, 0.0, 1.0, 2.0), F((1, 2, 3)), run_forest, "every weighted graph on 4 samples"),
        graphs("n5", 5, (NO, 1.0, 2.0) if T else (NO, 1.0), F((1, 2, 3)), run_forest, "graphs on 5 samples"),
        listed("n5-distinct", [(5, tuple(2.0 ** p[i] if k >> i & 1 else NO for i in range(10)))
                               for p in ([i for i in range(10)], [9 - i for i in range(10)],
                                         [(i * 3) % 10 for i in range(10)], [(i * 7 + 4) % 10 for i in range(10)])
                               for k in range(1 << 10)], F((1, 2)), run_forest,
               "every graph on 5 samples with distinct weights in four orders"),
        listed("scales", [(4, tuple(v * 2.0 ** e if v is not NO else NO for v in g))
                          for e in (-60, -30, 30, 60) for g in itertools.product((NO, 1.0, 2.0), repeat=6)],
               F((1, 2)), run_forest, "very small and very large weights"),
        graphs("fractions", 4, (NO, 0.1, 0.3, 0.7, 16777217.0) if T else (NO, 0.1, 16777217.0),
               [(ms, a) for ms in (1, 2) for a in algos], run_forest,
               "distances that single precision cannot hold"),
        listed("families", family_graphs(list(range(6, 60 if T else 40, 1 if T else 3)) + [64, 65, 128]),
               F((1, 2, 3, 5)), run_forest, "structured graphs of many sizes", chunk=2),
        graphs("clusters-n4", 4, (NO, 1.0, 2.0), C, run_clusters, "clusterings of every graph on 4 samples"),
        listed("clusters-parts", tp, C, run_clusters, "clusterings of graphs with two components"),
        listed("clusters-many", many_parts((2, 3, 5, 8), (3, 4)) if T else chain(many_parts((2, 3, 6), (3, 4)), many_parts((3, 4, 7, 12), (3,))),
               [(ms, mcs, a, k) for ms in (1, 2) for mcs in (2, 3) for a in algos for k in range(len(SETTINGS))],
               run_clusters, "clusterings of graphs with three and four components", chunk=8),
        listed("clusters-families", family_graphs((8, 9, 15, 20, 31)),
               [(ms, mcs, a, k) for ms in (1, 2, 3) for mcs in (2, 3, 4) for a in algos for k in range(len(SETTINGS))],
               run_clusters, "clusterings of structured graphs", chunk=8),
        Space("refused", *product_space(["dense", "rectangular", "negative", "nan", "inf", "-inf"], algos,
                                        ["fit", "function", "layers"]), run_refused, chunk=2,
              note="matrices without a meaning"),
    ]
