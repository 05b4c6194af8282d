"""C15: refitting equals fitting afresh; queries leave estimators and inputs untouched."""
import copy
import itertools

import numpy as np

from mc.core import Space, Violation
from mc.euclid import array

ASSUMPTIONS = [
    "one numba thread: the same call on the same data gives the same result bit by bit",
    "after a refused fit nothing is said about the estimator until the next fit that succeeds",
    "cuts asked for after parameters changed without a fit are not judged",
]
INF = float("inf")
NAN = float("nan")


# ---- what is compared ------------------------------------------------------------------------------------------------
def freeze(x):
    """Comparable image of arrays, sparse matrices, lists and numbers (NaN equals NaN)."""
    if x is None or isinstance(x, (str, bool)):
        return x
    if hasattr(x, "tocsr"):
        return (type(x).__name__, x.shape) + tuple(freeze(getattr(x, a)) for a in ("data", "indices", "indptr", "row", "col")
                                                   if hasattr(x, a))
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, dict):
        return tuple(sorted((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if hasattr(x, "to_numpy"):
        return freeze(np.asarray(x.to_numpy()))
    if isinstance(x, (int, float, np.number)):
        return repr(float(x))
    return repr(type(x))


def soft(v):
    """Values only: the number type of a result does not matter here."""
    a = np.asarray(v)
    if a.dtype.names:
        return tuple(tuple(repr(float(y)) for y in r) for r in a.tolist())
    return (a.shape, tuple(repr(float(y)) for y in a.ravel().tolist()))


def view_hdbscan(e):
    out = [soft(e.labels_), soft(e.probabilities_), soft(e.single_linkage_tree_.to_numpy()),
           soft(e.condensed_tree_.to_numpy())]
    if e.metric != "precomputed":
        out.append(soft(e.minimum_spanning_tree_.to_numpy()))
    return tuple(out)


def view_plscan(e):
    return (soft(e.labels_), soft(e.membership_strengths_), tuple(soft(x) for x in e.cluster_layers_),
            tuple(soft(x) for x in e.membership_strength_layers_), soft(e.layer_persistence_scores_),
            soft(e.min_cluster_sizes_), soft(e.total_persistence_),
            tuple(sorted((tuple(map(int, k)), tuple(sorted(tuple(map(int, x)) for x in v))) for k, v in e.cluster_tree_.items())))


def view_detector(e):
    out = [soft(getattr(e, a)) for a in ("labels_", "probabilities_", "cluster_labels_", "cluster_probabilities_",
                                         "sub_cluster_labels_", "sub_cluster_probabilities_", "lens_values_")]
    out.append(tuple(soft(p) for p in e.cluster_points_))
    for trees in (e.condensed_trees_, e.linkage_trees_, e.spanning_trees_):
        out.append(tuple(None if t is None else soft(t.to_numpy()) for t in trees))
    return tuple(out)


# ---- data of the histories: fresh objects for every history ----------------------------------------------------------
def cloud(vals, dtype=np.float64, order="C"):
    return np.array([[v, (v * 7) % 5 / 8] for v in vals], dtype=dtype, order=order)


def graph(n, messy):
    import scipy.sparse as sp

    pos = [0, 1, 2.5, 9, 10, 11.5, 20, 21.5, 30][:n]
    i, j, w = [], [], []
    for a in range(n):
        for b in sorted(range(n), key=lambda b: -abs(pos[a] - pos[b])) if messy else range(n):
            if a != b and (not messy or b - a != 2):
                i.append(a)
                j.append(b)
                w.append(abs(pos[a] - pos[b]) + (0.25 if messy and a < b else 0.0))
    indptr = np.searchsorted(i, range(n + 1))
    m = sp.csr_matrix((np.array(w), np.array(j, dtype=np.int32), indptr.astype(np.int32)), shape=(n, n))
    if messy:
        m.has_sorted_indices = False
    return m


def apart(n, pairs, kind):
    import scipy.sparse as sp

    i = [a for a, b in pairs]
    j = [b for a, b in pairs]
    m = sp.coo_matrix((np.ones(len(i)), (i, j)), shape=(n, n))
    if kind == "coo":
        return m
    if kind == "messy":  # one-sided, unsorted, an explicit zero, a repeated entry and a diagonal entry
        k = sp.csr_matrix((np.array([1.0, 0.0, 1.0, 1.0, 1.0]), np.array([n - 1, 1, n - 1, 0, 1], dtype=np.int32),
                           np.array([0, 3, 5] + [5] * (n - 2), dtype=np.int32)), shape=(n, n))
        return k
    return (m + m.T).tocsr()


A = (0, 1, 2.5, 4.75, 10, 11, 12.5, 14.75, 30)
B = (0, 1.25, 3, 20, 21, 23)


def datasets():
    n = len(A)
    return dict(
        A=cloud(A), B=cloud(B), A32=cloud(A, np.float32), AF=cloud(A[::-1], np.float64, "F"), L=cloud(B).tolist(),
        N=np.vstack([cloud(B), [[NAN, 1.0]], cloud((24,))]),
        w=np.array([0.5 + (i % 3) * 0.5 for i in range(n)]), w32=np.array([1.0 + (i % 2) for i in range(n)], np.float32),
        y=np.array([0, 0, 0, -1, 1, 1, 1, -1, -1]), yf=np.array([0, -1, 0, 0, -1, 2, 1, 1, -1.0]), none=np.full(n, -1),
        G=graph(n, False), M=graph(6, True),
    )


HOPS = {
    "fit A": lambda e, d: e.fit(d["A"]),
    "fit B": lambda e, d: e.fit(d["B"]),
    "fit list": lambda e, d: e.fit(d["L"]),
    "fit A32": lambda e, d: e.fit_predict(d["A32"]),
    "fit AF": lambda e, d: e.fit(d["AF"]),
    "fit bad rows": lambda e, d: e.fit(d["N"]),
    "fit weights": lambda e, d: e.fit(d["A"], sample_weight=d["w"]),
    "fit weights32": lambda e, d: e.fit(d["A32"], sample_weight=d["w32"]),
    "fit labels": lambda e, d: e.fit(d["A"], y=d["y"]),
    "fit labels2": lambda e, d: e.fit(d["A32"], y=d["y"]),
    "fit no labels": lambda e, d: e.fit(d["A"], y=d["none"]),
    "fit graph": lambda e, d: e.fit(d["G"]),
    "fit messy graph": lambda e, d: e.fit(d["M"]),
}
HSETS = {
    "set default": dict(min_cluster_size=2, min_samples=2, cluster_selection_method="eom", algorithm="boruvka", cannot_link=None,
                        semi_supervised=False, metric="euclidean", allow_single_cluster=False, reproducible=False,
                        cannot_link_groups=None, knn_k=None),
    "set leaf": dict(cluster_selection_method="leaf", min_samples=1),
    "set size": dict(min_cluster_size=3, min_samples=None),
    "set single": dict(allow_single_cluster=True, cluster_selection_epsilon=1.5),
    "set no epsilon": dict(cluster_selection_epsilon=0.0),
    "set semi": dict(semi_supervised=True),
    "set unsemi": dict(semi_supervised=False),
    "set graph": dict(metric="precomputed"),
    "set rows": dict(metric="euclidean"),
    "set apart": dict(algorithm="kruskal", cannot_link=("A", "sym")),
    "set apart coo": dict(algorithm="kruskal", cannot_link=("A", "coo")),
    "set apart messy": dict(algorithm="kruskal", cannot_link=("A", "messy")),
    "set groups": dict(algorithm="kruskal", cannot_link_groups=("A", "groups")),
    "set neighbours": dict(algorithm="kruskal", knn_k=2),
    "set repro": dict(reproducible=True),
}


OWNED = ("cannot_link", "cannot_link_groups")


def matrix(v):
    if v[1] == "groups":
        return np.array([0, -1, 0, 1, 1, -1, 2, -1, 1], dtype=np.int64)
    return apart(len(A), [(0, 2), (4, 8)], v[1])


def q_cut(e, d):
    return soft(e.dbscan_clustering(1.6))


def q_trees(e, d):
    return tuple(soft(t.to_numpy()) for t in (e.condensed_tree_, e.single_linkage_tree_))


def q_sub(e, d):
    from fast_hdbscan.sub_clusters import SubClusterDetector

    lens = np.arange(float(len(e.labels_))) % 4
    s = SubClusterDetector(lens_values=lens, min_cluster_size=2).fit(e)
    p = s.propagated_labels()
    return view_detector(s), tuple(soft(x) for x in p), freeze(lens)


def q_branch(e, d):
    from fast_hdbscan import BranchDetector

    s = BranchDetector(min_cluster_size=2, label_sides_as_branches=True).fit(e)
    return view_detector(s), tuple(soft(x) for x in s.propagated_labels())


def q_copy(e, d):
    return view_hdbscan(copy.deepcopy(e))


HQ = {"ask cut": q_cut, "ask trees": q_trees, "ask sub-clusters": q_sub, "ask branches": q_branch, "ask copy": q_copy}

POPS = {
    "fit A": lambda e, d: e.fit(d["A"]),
    "fit B": lambda e, d: e.fit(d["B"]),
    "fit A32": lambda e, d: e.fit_predict(d["A32"]),
    "fit AF": lambda e, d: e.fit(d["AF"]),
    "fit weights": lambda e, d: e.fit(d["A"], sample_weight=d["w32"]),
    "fit graph": lambda e, d: e.fit(d["G"]),
    "fit messy graph": lambda e, d: e.fit(d["M"]),
}
PSETS = {
    "set default": dict(min_samples=2, base_min_cluster_size=2, base_n_clusters=None, max_layers=10, algorithm="boruvka",
                        cannot_link=None, metric="euclidean"),
    "set base": dict(base_min_cluster_size=3),
    "set count": dict(base_n_clusters=2),
    "set layers": dict(max_layers=1),
    "set graph": dict(metric="precomputed"),
    "set rows": dict(metric="euclidean"),
    "set apart": dict(algorithm="kruskal", cannot_link=("A", "sym")),
    "set apart messy": dict(algorithm="kruskal", cannot_link=("A", "messy")),
}


def models(d):
    """Fitted models the detectors read."""
    from mc import sut

    return dict(
        m1=sut.HDBSCAN(min_samples=2, min_cluster_size=3).fit(d["A"]),
        m2=sut.HDBSCAN(min_samples=1, min_cluster_size=2, algorithm="kruskal").fit(d["B"]),
        lab=np.array([0, 0, 0, 0, 0, 1, 1, 1, -1]), prob=np.linspace(0.1, 1, 9), w=d["w"],
    )


DOPS = {
    "fit m1": lambda e, m: e.fit(m["m1"]),
    "fit m2": lambda e, m: e.fit(m["m2"]),
    "fit given labels": lambda e, m: e.fit(m["m1"], m["lab"]),
    "fit given all": lambda e, m: e.fit(m["m1"], m["lab"], m["prob"]),
    "fit weights": lambda e, m: e.fit(m["m1"], sample_weight=m["w"]),
}
DSETS = {
    "set default": dict(min_cluster_size=None, cluster_selection_method="eom", allow_single_cluster=False, propagate_labels=False),
    "set size": dict(min_cluster_size=2),
    "set leaf": dict(cluster_selection_method="leaf"),
    "set single": dict(allow_single_cluster=True),
    "set propagate": dict(propagate_labels=True),
}


def q_prop(e, d):
    return tuple(soft(x) for x in e.propagated_labels())


def q_graph(e, d):
    points, edges = e.approximation_graph_.to_numpy()
    return soft(points), soft(edges)


DQ = {"ask propagated": q_prop, "ask trees": lambda e, d: view_detector(e), "ask graph": q_graph}


# ---- the histories ---------------------------------------------------------------------------------------------------
class Machine:
    def __init__(self, kind):
        self.kind = kind
        self.memo = {}
        if kind == "hdbscan":
            self.fits, self.sets, self.asks, self.view = HOPS, HSETS, HQ, view_hdbscan
        elif kind == "plscan":
            self.fits, self.sets, self.asks, self.view = POPS, PSETS, {"ask copy": lambda e, d: view_plscan(copy.deepcopy(e))}, \
                view_plscan
        else:
            self.fits, self.sets, self.asks, self.view = DOPS, DSETS, DQ, view_detector

    def new(self, params):
        from mc import sut

        kw = {k: (matrix(v) if k in OWNED and v is not None else v) for k, v in params.items()}
        if self.kind == "hdbscan":
            return sut.HDBSCAN(**kw)
        if self.kind == "plscan":
            return sut.PLSCAN(**kw)
        if self.kind == "branch":
            from fast_hdbscan import BranchDetector

            return BranchDetector(**kw)
        from fast_hdbscan.sub_clusters import SubClusterDetector

        # values are computed anew for every model
        return SubClusterDetector(lens_values=None, **kw)

    def data(self):
        d = datasets()
        return models(d) if self.kind in ("sub", "branch") else d

    def start(self):
        return dict({"hdbscan": HSETS, "plscan": PSETS}.get(self.kind, DSETS)["set default"])

    def fresh(self, params, fit, ask=None):
        """Outcome of one fit (and one query) of a new estimator."""
        key = (tuple(sorted((k, repr(v)) for k, v in params.items())), fit, ask)
        if key not in self.memo:
            e, d = self.new(params), self.data()
            try:
                self.do(e, d, fit)
                out = ("ok", self.view(e) if ask is None else self.ask(e, d, ask))
            except Exception as x:
                out = ("refused", type(x).__name__)
            self.memo[key] = out
        return self.memo[key]

    def do(self, e, d, fit):
        if self.kind == "sub":
            n = len(d["m2" if fit == "fit m2" else "m1"].labels_)
            e.set_params(lens_values=np.array([(i * 5) % 7 / 2 for i in range(n)]))
        return self.fits[fit](e, d)

    def ask(self, e, d, ask):
        return self.asks[ask](e, d)


MACHINES = {k: Machine(k) for k in ("hdbscan", "plscan", "sub", "branch")}


def image(d):
    """Everything the caller owns: arrays, matrices and the models detectors read."""
    return {k: view_hdbscan(v) if hasattr(v, "fit") else freeze(v) for k, v in d.items()}


def diff(what, got, want, history):
    if got != want:
        raise Violation("%s after %s differs from a new estimator:\n%s\n%s" % (what, list(history), got, want), "history")


def run(c, ctx):
    kind, ops = c
    m = MACHINES[kind]
    params = m.start()
    d = m.data()
    given = image(d)
    e = m.new(params)
    owned = [(getattr(e, "cannot_link", None), None)]
    last, fit_params, kept = None, None, []
    for i, op in enumerate(ops):
        done = ops[: i + 1]
        if op in m.sets:
            params = dict(params, **m.sets[op])
            kw = {k: (matrix(v) if k in OWNED and v is not None else v) for k, v in m.sets[op].items()}
            for k in OWNED:
                if kw.get(k) is not None:
                    owned.append((kw[k], freeze(kw[k])))
            e.set_params(**kw)
        elif op in m.fits:
            want = m.fresh(params, op)
            try:
                m.do(e, d, op)
                out = ("ok", m.view(e))
            except Exception as x:
                if want[0] == "ok":
                    raise
                out = ("refused", type(x).__name__)
            diff(op, out, want, done)
            last, fit_params = (op, params) if out[0] == "ok" else (None, None)
            if last:
                kept.append((e.labels_, soft(e.labels_), done))
        elif last:
            if fit_params == params:
                want = m.fresh(params, last, op)
                try:
                    out = ("ok", m.ask(e, d, op))
                except Exception as x:
                    if want[0] == "ok":
                        raise
                    out = ("refused", type(x).__name__)
                diff(op, out, want, done)
                diff("the estimator", ("ok", m.view(e)), m.fresh(params, last), done)
        ctx.trans()
    now = image(d)
    for k in given:
        if now[k] != given[k]:
            raise Violation("%s: argument %s has changed" % (list(ops), k), "argument")
    for mat, was in owned:
        if was is not None and freeze(mat) != was:
            raise Violation("%s: the constraints have changed" % list(ops), "argument")
    for lab, was, h in kept:
        if soft(lab) != was:
            raise Violation("%s: labels returned after %s have changed" % (list(ops), list(h)), "returned")
    ctx.state((kind, tuple(sorted((k, repr(v)) for k, v in params.items())), last))
    ctx.trace()


# ---- functions that take the caller's arrays -------------------------------------------------------------------------
def run_function(c, ctx):
    from mc import sut

    name, opts = c
    d = datasets()
    kw = dict(opts)
    if kw.get("cannot_link"):
        kw["cannot_link"] = matrix(kw["cannot_link"])
    args = [d[name]] + [v for v in kw.values()]
    was = [freeze(a) for a in args]
    mst_kw = {k: v for k, v in kw.items() if k in ("min_samples", "algorithm", "cannot_link", "metric", "reproducible",
                                                  "sample_weights", "knn_k")}
    w = kw.get("sample_weights")
    try:
        first = sut.fast_hdbscan_fn(d[name], return_trees=True, **kw)
        tree = sut.compute_minimum_spanning_tree(d[name], **mst_kw)
    except (ValueError, TypeError, NotImplementedError):
        ctx.count("refused")
        return
    edges = np.array(tree[0])
    passed = np.array(tree[0])
    a = sut.clusters_from_spanning_tree(passed, min_cluster_size=kw["min_cluster_size"], sample_weights=w)
    if freeze(passed) != freeze(edges):
        raise Violation("the spanning tree passed in has changed", "argument")
    b = sut.clusters_from_spanning_tree(passed, min_cluster_size=kw["min_cluster_size"], sample_weights=w)
    if soft(a[0]) != soft(b[0]) or soft(a[1]) != soft(b[1]) or soft(a[2]) != soft(b[2]):
        raise Violation("clusters of the same spanning tree differ", "history")
    second = sut.fast_hdbscan_fn(d[name], return_trees=True, **kw)
    for k in (0, 1, 2, 4):
        if soft(first[k]) != soft(second[k]):
            raise Violation("a second call returns different results", "history")
    for x, y in zip(args, was):
        if freeze(x) != y:
            raise Violation("an argument has changed: %s %s" % (name, sorted(kw)), "argument")
    ctx.state(c[0], repr(opts))
    ctx.trans(2)
    ctx.trace()


def sequences(ops, length, fits):
    """Histories of a given length that fit at least once and end with a fit or a query."""
    for s in itertools.product(ops, repeat=length):
        if s[-1].startswith("set") or not any(o in fits for o in s):
            continue
        f = min(i for i, o in enumerate(s) if o in fits)
        if any(o.startswith("ask") for o in s[:f]):
            continue
        if any(s[i] == s[i + 1] and s[i].startswith("set") for i in range(length - 1)):
            continue
        yield s


def build(tier):
    T = tier == "thorough"
    hall = list(HOPS) + list(HSETS) + list(HQ)
    hcore = ["fit A", "fit B", "fit bad rows", "fit weights", "fit labels", "fit messy graph", "set leaf", "set semi", "set graph",
             "set default", "ask cut", "ask sub-clusters"]
    pall = list(POPS) + list(PSETS) + ["ask copy"]
    dall = list(DOPS) + list(DSETS) + list(DQ)
    H3 = [("hdbscan", s) for n in (1, 2, 3) for s in sequences(hall, n, HOPS)]
    H4 = [("hdbscan", s) for s in sequences(hcore, 5 if T else 4, HOPS)]
    P = [("plscan", s) for n in (1, 2, 3) + ((4,) if T else ()) for s in sequences(pall, n, POPS)]
    P += [("plscan", s) for s in sequences(["fit A", "fit B", "fit weights", "fit messy graph", "set base", "set count",
                                            "set graph", "set default"], 4, POPS)]
    D = [(k, s) for k in ("sub", "branch") for n in (1, 2, 3) + ((4,) if T else ()) for s in sequences(dall, n, DOPS)]
    D += [(k, s) for k in ("sub", "branch")
          for s in sequences(["fit m1", "fit m2", "fit given all", "set size", "set propagate", "ask propagated", "ask graph"], 4,
                             DOPS)]
    F = []
    for name in ("A", "B", "A32", "AF", "G", "M"):
        for ms in (1, 2, 3):
            for mcs in (2, 3):
                for al in ("boruvka", "kruskal"):
                    for x in (None, "weights", "sym", "coo", "messy", "repro"):
                        o = dict(min_samples=ms, min_cluster_size=mcs, algorithm=al)
                        if name in ("G", "M"):
                            o["metric"] = "precomputed"
                        if x == "weights":
                            o["sample_weights"] = np.linspace(0.5, 1.5, len(A))
                        elif x == "repro":
                            o["reproducible"] = True
                        elif x:
                            o["cannot_link"] = ("A", x)
                        F.append((name, o))

    def listed(name, cs, fn, note, chunk=16):
        return Space(name, len(cs), lambda i: cs[i], fn, chunk=chunk, note=note)

    return [
        listed("histories", H3, run, "HDBSCAN: every history of up to three calls"),
        listed("long-histories", H4, run, "HDBSCAN: every history of %d calls out of twelve" % (5 if T else 4)),
        listed("layers", P, run, "PLSCAN: every history"),
        listed("detectors", D, run, "SubClusterDetector and BranchDetector reading two models: every history"),
        listed("functions", F, run_function, "functions on the caller's arrays and matrices", chunk=4),
    ]
