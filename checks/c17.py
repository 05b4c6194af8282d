"""C17: every accepted call terminates with a full set of results."""
import itertools
import linecache
import math
import os
import traceback

import numpy as np

from mc import entry
from mc.core import REPO, Space, Violation
from mc.euclid import array

ASSUMPTIONS = [
    "an argument error is a ValueError, TypeError or NotImplementedError raised by a raise statement of the package or "
    "of the validation of scikit-learn and pynndescent, not one that escapes from a computation",
    "a case that does not finish within the time limit of its worker counts as not terminating",
]
INF = float("inf")
FINAL_KEYS = ("raise:IndexError",)  # compiled code would read beyond the array instead of failing
COMPILED = os.environ.get("NUMBA_DISABLE_JIT") != "1"
REFUSAL = (ValueError, TypeError, NotImplementedError)


def refused(e):
    """True for a clear argument error."""
    if not isinstance(e, REFUSAL):
        return False
    f = traceback.extract_tb(e.__traceback__)[-1]
    name = f.filename.replace(os.sep, "/")
    if "/sklearn/" in name:
        return True
    if not name.startswith(os.path.abspath(REPO) + "/") and "/pynndescent/" not in name:
        return False
    return (f.line or linecache.getline(f.filename, f.lineno)).strip().startswith("raise")


def indices(a, lo, hi, what):
    for x in np.asarray(a).ravel().tolist():
        if x != int(x) or not lo <= x < hi:
            raise Violation("%s: %r is not in [%d, %d)" % (what, x, lo, hi), "index")


def check_labels(labels, strengths, n, what):
    labels, strengths = np.asarray(labels), np.asarray(strengths)
    if labels.shape != (n,) or strengths.shape != (n,):
        raise Violation("%s: labels %s, strengths %s for %d rows" % (what, labels.shape, strengths.shape, n), "lengths")
    for x in labels.tolist():
        if x != int(x) or not -1 <= x < n:
            raise Violation("%s: label %r" % (what, x), "label")
    for x in strengths.tolist():
        if not 0.0 <= x <= 1.0:
            raise Violation("%s: strength %r" % (what, x), "strength")


def check_trees(L, ct, mst, n):
    L, mst = np.asarray(L), np.asarray(mst)
    if L.shape != (max(n - 1, 0), 4):
        raise Violation("single linkage tree %s for %d rows" % (L.shape, n), "lengths")
    if mst.shape != (max(n - 1, 0), 3):
        raise Violation("spanning tree %s for %d rows" % (mst.shape, n), "lengths")
    indices(mst[:, :2], 0, n, "spanning tree")
    for i in range(len(L)):
        indices(L[i, :2], 0, n + i, "merge %d" % i)
    for t in (L[:, 2], mst[:, 2]):
        if np.isnan(t).any() or (t < 0).any():
            raise Violation("distances %s" % t.tolist(), "distance")
    if n < 2:
        return
    rows = [(int(a), int(b), float(c), float(d)) for a, b, c, d in ct]
    parents = set(r[0] for r in rows)
    hi = max([n] + [max(r[0], r[1]) for r in rows]) + 1
    if hi > 2 * n:
        raise Violation("condensed tree has node %d for %d rows" % (hi - 1, n), "index")
    for p, c, l, s in rows:
        if p < n or c < 0 or math.isnan(l) or l < 0 or s <= 0:
            raise Violation("condensed tree row %s" % ((p, c, l, s),), "ctree")
    kids = [c for _, c, _, _ in rows]
    if sorted(c for c in kids if c < n) != list(range(n)):
        raise Violation("condensed tree does not list every row once: %s" % sorted(kids), "ctree-rows")


def call(fn, ctx):
    """Result, or None if the arguments are refused."""
    try:
        return fn()
    except Exception as e:
        if refused(e):
            ctx.count("refused")
            return None
        raise


def fit_hdbscan(c):
    from mc import sut

    rows, kw, extra = c
    kw = dict(kw)
    fit = {}
    n = len(rows)
    X = array(rows).reshape(n, -1)
    if extra == "weights":
        fit["sample_weight"] = np.array([0.5 + i % 3 * 0.5 for i in range(n)])
    if extra == "labels":
        kw["semi_supervised"] = True
        fit["y"] = np.array([i % 2 for i in range(n)])
    if extra == "labels-few":
        kw["semi_supervised"] = True
        kw["ss_algorithm"] = "bc_simple"
        fit["y"] = np.array([0] + [-1] * (n - 1))
    return sut.HDBSCAN(**kw).fit(X, **fit)


def has_split(c, fit=fit_hdbscan):
    """Whether the hierarchy splits at all when no branch is simplified away."""
    est = fit((c[0], dict(c[1], cluster_selection_persistence=0.0), c[2]))
    return any(r[3] > 1 for r in est.condensed_tree_.to_numpy().tolist())


def unsafe(c):
    """Cases of recorded defects that read beyond an array: not executed in compiled code."""
    if len(c[0]) < 2:
        return False
    if c[1]["min_cluster_size"] == 1:
        return True
    return c[1].get("cluster_selection_persistence", 0.0) > 0 and not has_split(c)


def run(c, ctx):
    if COMPILED and unsafe(c):
        ctx.count("interpreted_only")
        return
    est = call(lambda: fit_hdbscan(c), ctx)
    if est is not None:
        n = len(c[0])
        check_labels(est.labels_, est.probabilities_, n, "fit")
        check_trees(est.single_linkage_tree_.to_numpy(), est.condensed_tree_.to_numpy().tolist(),
                    est.minimum_spanning_tree_.to_numpy(), n)
        ctx.trans()
    ctx.state(repr(c))
    ctx.trace()


def tree_rows(ct):
    """Rows of a condensed tree given as a table or as columns."""
    return ct.tolist() if isinstance(ct, np.ndarray) else list(zip(*[x.tolist() for x in ct[:4]]))


def run_function(c, ctx):
    from mc import sut

    rows, kw, _ = c
    n = len(rows)
    res = call(lambda: sut.fast_hdbscan_fn(array(rows).reshape(n, -1), return_trees=True, **dict(kw)), ctx)
    if res is not None:
        check_labels(res[0], res[1], n, "function")
        check_trees(res[2], tree_rows(res[3]), res[4], n)
        two = sut.fast_hdbscan_fn(array(rows).reshape(n, -1), **dict(kw))
        if len(two) != 2 or two[0].tolist() != res[0].tolist():
            raise Violation("the function returns different labels without trees", "function")
    ctx.state(repr(c))
    ctx.trace()


def run_layers(c, ctx):
    from mc import sut

    rows, kw, extra = c
    n = len(rows)
    fit = {}
    if extra == "weights":
        fit["sample_weight"] = np.array([0.5 + i % 3 * 0.5 for i in range(n)])
    est = call(lambda: sut.PLSCAN(**dict(kw)).fit(array(rows).reshape(n, -1), **fit), ctx)
    if est is not None:
        check_labels(est.labels_, est.membership_strengths_, n, "labels")
        k = len(est.cluster_layers_)
        if not (k == len(est.membership_strength_layers_) == len(est.layer_persistence_scores_)) or k < 1:
            raise Violation("%d layers, %d strengths, %d scores" % (
                k, len(est.membership_strength_layers_), len(est.layer_persistence_scores_)), "lengths")
        for a, b in zip(est.cluster_layers_, est.membership_strength_layers_):
            check_labels(a, b, n, "layer")
        if len(est.min_cluster_sizes_) != len(est.total_persistence_):
            raise Violation("sizes and total persistence differ in length", "lengths")
        for (pl, pc), kids in est.cluster_tree_.items():
            indices([pl], 0, k + 1, "cluster tree")
            for cl, cc in kids:
                indices([cl], 0, k, "cluster tree")
                indices([cc], 0, n, "cluster tree")
        ctx.trans()
    ctx.state(repr(c))
    ctx.trace()


def graph(rows, kind):
    import scipy.sparse as sp

    n = len(rows)
    i, j, w = [], [], []
    for a in range(n):
        for b in range(n):
            if a == b or kind == "empty":
                continue
            if kind == "chain" and abs(a - b) != 1:
                continue
            if kind == "halves" and (a < n // 2) != (b < n // 2):
                continue
            i.append(a)
            j.append(b)
            w.append(sum(abs(x - y) for x, y in zip(rows[a], rows[b])))
    return sp.csr_matrix((w, (i, j)), shape=(n, n))


GRAPHS = ("full", "chain", "halves", "empty")


def run_graph(c, ctx):
    from mc import sut

    rows, kw, kind = c
    n = len(rows)
    res = call(lambda: sut.fast_hdbscan_fn(graph(rows, kind), metric="precomputed", return_trees=True, **dict(kw)), ctx)
    if res is not None:
        check_labels(res[0], res[1], n, "graph")
        check_trees(res[2], tree_rows(res[3]), res[4], n)
    ctx.state(repr(c))
    ctx.trace()


FIT_KINDS = ("boruvka", "kruskal", "kruskal-k", "weights", "labels", "missing", "function", "layers", "layers-kruskal",
             "manhattan", "wide", "branches")


def fit_form(X, kind, extra):
    """Labels and strengths of a fit of the data X in some array form."""
    from mc import sut

    h = dict(min_samples=1, min_cluster_size=2)
    if kind == "function":
        return sut.fast_hdbscan_fn(X, **h)
    if kind.startswith("layers"):
        est = sut.PLSCAN(min_samples=1, base_min_cluster_size=2,
                         algorithm="kruskal" if kind.endswith("kruskal") else "boruvka").fit(X)
        return est.labels_, est.membership_strengths_
    if kind.startswith("kruskal"):
        h["algorithm"] = "kruskal"
    if kind == "kruskal-k":
        h["knn_k"] = 2
    if kind == "manhattan":
        h["metric"] = kind
    fit = {}
    if kind == "weights":
        fit["sample_weight"] = extra
    if kind == "labels":
        h["semi_supervised"] = True
        fit["y"] = extra
    est = sut.HDBSCAN(**h).fit(X, **fit)
    if kind == "branches":
        from fast_hdbscan import BranchDetector

        b = BranchDetector(min_cluster_size=2).fit(est)
        return b.labels_, b.probabilities_
    return est.labels_, est.probabilities_


def run_form(c, ctx):
    rows, kind, form, extra_form = c
    n = len(rows)
    if kind == "wide":
        rows = tuple(r * 31 for r in rows)
    if kind == "missing":
        rows = rows[:2] + ((float("nan"),) * len(rows[0]),) + rows[2:]
        n += 1
    plain, extra = None, None
    if kind == "weights":
        extra = [2.0] * n if extra_form == "scalar" else [1.0 + i % 2 for i in range(n)]
    if kind == "labels":
        extra = [i % 3 - 1 for i in range(n)]
    if extra is not None:
        plain = np.array(extra, dtype=np.float64 if kind == "weights" else np.int64)
        if extra_form == "scalar":
            extra = extra[0]
        elif extra_form != "list":
            extra = np.array(extra).astype(extra_form)
    want = fit_form(entry.as_form(rows, "float64"), kind, plain)
    got = call(lambda: fit_form(entry.as_form(rows, form), kind, extra), ctx)
    if got is None:
        raise Violation("data in the form %s (extra values: %s) are refused" % (form, extra_form), "form-refused")
    check_labels(got[0], got[1], n, "form")
    if np.asarray(got[0]).tolist() != np.asarray(want[0]).tolist() or not np.allclose(got[1], want[1], rtol=1e-5):
        raise Violation("labels %s, in plain form %s" % (np.asarray(got[0]).tolist(), np.asarray(want[0]).tolist()),
                        "form-labels")
    ctx.state(repr(c))
    ctx.trans(2)
    ctx.trace()


def form_cases():
    out = []
    for r in lines((0, 1, 10, 11, 30, 31)) + [tuple((float(x), float(y)) for x, y in FORM_PLANE)]:
        for kind in FIT_KINDS:
            for form in entry.FORMS:
                if kind == "missing" and form.startswith("int"):
                    continue
                extras = {"weights": ("float64", "float32", "int64", "list", "scalar"), "labels": ("int64", "int32", "float64", "list")}
                for x in extras.get(kind, (None,)):
                    out.append((r, kind, form, x))
    return out


FORM_PLANE = [(0, 0), (1, 0), (0, 1), (20, 20), (21, 20), (23, 20), (20, 22), (50, 3), (51, 3), (52, 4)]


def run_metric(c, ctx):
    from mc import sut

    rows, kw, kind = c
    n = len(rows)
    X = array(rows).reshape(n, -1) + 1.0
    if kind == "wide":
        X = np.repeat(X, 31, axis=1)
    est = call(lambda: sut.HDBSCAN(**dict(kw)).fit(X), ctx)
    if est is not None:
        check_labels(est.labels_, est.probabilities_, n, "fit")
        check_trees(est.single_linkage_tree_.to_numpy(), est.condensed_tree_.to_numpy().tolist(),
                    est.minimum_spanning_tree_.to_numpy(), n)
    ctx.state(repr(c))
    ctx.trace()


BAD = dict(
    hdbscan=[("min_samples", (0, -1, -7)), ("min_cluster_size", (0, -1, -7)), ("cluster_selection_epsilon", (-0.5, -INF)),
             ("cluster_selection_persistence", (-0.5, -INF)),
             ("cluster_selection_method", ("EOM", "", "best")), ("algorithm", ("prim", "")), ("metric", ("nosuch", "")),
             ("ss_algorithm", ("nosuch",)), ("max_cluster_size", (0, -1, -INF)), ("knn_k", (0, -1))],
    plscan=[("min_samples", (0, -1, -7)), ("base_min_cluster_size", (0, -1)), ("base_n_clusters", (0, -1)),
            ("max_layers", (0, -1)), ("algorithm", ("prim", "")), ("metric", ("nosuch",)), ("knn_k", (0, -1))],
    detector=[("min_cluster_size", (0, -1, -7)), ("max_cluster_size", (0, -1, -INF)),
              ("cluster_selection_epsilon", (-0.5, -INF)), ("cluster_selection_persistence", (-0.5, -INF)),
              ("cluster_selection_method", ("EOM", "", "best"))],
)
DETECTORS = ("sub", "branch", "branch-function")


def invalid_cases():
    out = []
    rows = [SMALL[0], SMALL[2], SMALL[5], SMALL[11], SMALL[14], PLANE[4]]
    for r in rows:
        for how in ("init", "set", "function"):
            for k, vs in BAD["hdbscan"]:
                for v in vs:
                    if k != "metric" or len(r) > 1:  # no distance is needed for one row
                        out.append((r, "hdbscan", how, k, v))
        for how in ("init", "set"):
            for k, vs in BAD["plscan"]:
                for v in vs:
                    if k != "metric" or len(r) > 1:
                        out.append((r, "plscan", how, k, v))
    for r in lines((0, 1, 10, 11, 30), (0, 1, 4, 6, 20, 21), (0, 0, 5, 5, 9, 9)):
        for what in DETECTORS:
            for how in ("init",) if what == "branch-function" else ("init", "set"):
                for k, vs in BAD["detector"]:
                    for v in vs:
                        out.append((r, what, how, k, v))
    return out


def run_detector(X, what, how, k, v, ctx):
    from mc import sut
    from fast_hdbscan.branches import BranchDetector, find_branch_sub_clusters
    from fast_hdbscan.sub_clusters import SubClusterDetector

    est = sut.HDBSCAN(min_samples=1, min_cluster_size=2).fit(X)
    if est.labels_.max() < 0:
        raise Violation("no cluster to detect groups in", "detector-input")
    if what == "branch-function":
        go = lambda: find_branch_sub_clusters(est, **{k: v})
    else:
        cls, ok = BranchDetector, {}
        if what == "sub":
            cls, ok = SubClusterDetector, dict(lens_values=X[:, 0].astype(np.float32))
        if how == "init":
            go = lambda: cls(**ok, **{k: v}).fit(est)
        else:
            go = lambda: cls(**ok).set_params(**{k: v}).fit(est)
    if call(go, ctx) is not None:
        raise Violation("%s=%r is accepted by %s (%s)" % (k, v, what, how), "accepted:%s:%s:%r:%s" % (what, k, v, how))


def run_invalid(c, ctx):
    from mc import sut

    rows, what, how, k, v = c
    n = len(rows)
    X = array(rows).reshape(n, -1)
    y = np.array([i % 2 for i in range(n)])
    semi = k == "ss_algorithm"
    if what in DETECTORS:
        run_detector(X, what, how, k, v, ctx)
        ctx.state(repr(c))
        ctx.trace()
        return
    if what == "hdbscan":
        ok = dict(min_samples=1, min_cluster_size=2)
        fit = dict(y=y) if semi else {}
        if semi:
            ok["semi_supervised"] = True
        cls = sut.HDBSCAN
    else:
        ok, fit, cls = dict(min_samples=1, base_min_cluster_size=2), {}, sut.PLSCAN
    if k == "knn_k":
        ok["algorithm"] = "kruskal"

    def go():
        if how == "init":
            return cls(**dict(ok, **{k: v})).fit(X, **fit)
        if how == "set":
            return cls(**ok).set_params(**{k: v}).fit(X, **fit)
        return sut.fast_hdbscan_fn(X, **dict(ok, **{k: v}), **(dict(data_labels=y) if semi else {}))

    if call(go, ctx) is not None:
        raise Violation("%s=%r is accepted by %s (%s) for %d rows" % (k, v, what, how, n), "accepted:%s:%s:%r:%s" % (what, k, v,how))
    ctx.state(repr(c))
    ctx.trace()


def classify(space, c, key, msg):
    n = len(c[0])
    if space == "invalid":
        _, what, how, k, v = c
        if what in ("hdbscan", "plscan") and k in ("max_cluster_size", "knn_k"):
            return "count-unchecked"
        if what == "plscan" and how == "set" and k != "metric":
            return "set-params-unvalidated"
        if n == 1 and what == "hdbscan" and k in ("cluster_selection_method", "algorithm") and str(key).startswith("accepted"):
            return "one-row-unchecked"
        return None
    if space.startswith("layers"):
        return "layers-one-row" if n == 1 and key == "raise:ValueError" else None
    if space == "forms":
        if c[1] == "labels" and c[3] not in ("int64", "list") and key == "raise:TypingError":
            return "label-dtype"
        return "column-order" if c[2] == "fortran" and len(c[0][0]) > 1 and key == "raise:TypeError" else None
    kw = c[1]
    ms = kw["min_cluster_size"] if kw["min_samples"] is None else kw["min_samples"]
    if kw["min_cluster_size"] == 1 and key in ("raise:IndexError", "raise:KeyError", "index", "ctree-rows"):
        return "minimum-size-one"
    if key == "index" and ms >= n and msg.startswith("spanning tree"):
        return "min-samples-ge-n"
    if key == "raise:KeyError" and (kw.get("cluster_selection_epsilon", 0.0) > 0 or kw.get("max_cluster_size", INF) < INF):
        return "one-cluster-keyerror"
    if key == "raise:IndexError" and kw.get("cluster_selection_persistence", 0.0) > 0 and not COMPILED:
        if space == "graphs" or not has_split(c):
            return "persistence-no-split"
    return None


def lines(*vs):
    return [tuple((float(x),) for x in v) for v in vs]


SMALL = lines((0,), (0, 0), (0, 1), (0, 0, 0), (0, 0, 1), (0, 1, 3), (0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 3, 7), (9, 0, 0, 0),
              (0, 0, 0, 0, 0), (0, 1, 3, 7, 12), (0, 1, 10, 11, 30), (0, 0, 5, 5, 9, 9), (0, 1, 4, 6, 20, 21))
PLANE = [((0.0, 0.0),), ((1.0, 2.0), (1.0, 2.0)), ((0.0, 0.0), (0.0, 1.0), (5.0, 5.0)),
         ((0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0)), ((0.0, 0.0), (1.0, 0.0), (9.0, 9.0), (9.0, 8.0), (0.0, 0.0))]


def build(tier):
    T = tier == "thorough"
    S = list(itertools.product((None, 1, 2, 3, 5, 10), (1, 2, 3, 10), ("eom", "leaf"), (False, True), (0.0, 1.5), (0.0, 0.5),
                               (INF, 2), ("boruvka", "kruskal")))

    def kw(s):
        ms, mcs, me, si, ep, pe, mx, al = s
        return dict(min_samples=ms, min_cluster_size=mcs, cluster_selection_method=me, allow_single_cluster=si,
                    cluster_selection_epsilon=ep, cluster_selection_persistence=pe, max_cluster_size=mx, algorithm=al)

    D = SMALL + PLANE
    plain = [(r, kw(s), None) for r in D for s in S]

    # extras: weights, labels, the reproducible mode, numbers of neighbours
    E = list(itertools.product((None, 1, 3, 10), (2, 3), ("eom", "leaf"), (False, True), (0.0, 0.5)))
    extra = []
    for r in D:
        for ms, mcs, me, si, pe in E:
            base = dict(min_samples=ms, min_cluster_size=mcs, cluster_selection_method=me, allow_single_cluster=si,
                        cluster_selection_persistence=pe)
            for x in ("weights", "labels", "labels-few"):
                extra.append((r, base, x))
            extra.append((r, dict(base, reproducible=True), None))
            for k in (1, 2, 50):
                extra.append((r, dict(base, knn_k=k), None))

    # layers
    P = list(itertools.product((1, 2, 3, 10), (1, 2, 3, 10), (None, 1, 2, 5), (1, 2, 10), (0.0, 0.2, 1.0), (None, "weights")))
    layers = []
    for r in D:
        for ms, b, k, mx, th, x in P:
            layers.append((r, dict(min_samples=ms, base_min_cluster_size=b, base_n_clusters=k, max_layers=mx,
                                   layer_similarity_threshold=th), x))

    # graphs and other metrics
    G = []
    for r in D:
        for s in itertools.product((None, 1, 3, 10), (2, 3), ("eom", "leaf"), (False, True), (0.0, 0.5), GRAPHS):
            G.append((r, dict(min_samples=s[0], min_cluster_size=s[1], cluster_selection_method=s[2],
                              allow_single_cluster=s[3], cluster_selection_persistence=s[4]), s[5]))
    M = []
    for r in D:
        for s in itertools.product((None, 1, 3, 10), (2, 3), ("boruvka", "kruskal"), ("manhattan", "cosine", "wide")):
            kk = dict(min_samples=s[0], min_cluster_size=s[1], algorithm=s[2])
            if s[3] != "wide":
                kk["metric"] = s[3]
            M.append((r, kk, s[3]))

    def listed(name, cs, fn, note, chunk=24, mode="jit"):
        return Space(name, len(cs), lambda i: cs[i], fn, chunk=chunk, note=note, mode=mode)

    deg = "one to six rows, identical rows, fewer rows than the sizes asked for"
    return [
        listed("options", plain, run, deg + "; product of all options of HDBSCAN", mode="interp"),
        listed("options-function", plain[::3], run_function, "the function", mode="interp"),
        listed("extras", extra, run, "weights, labels, reproducible mode, neighbour counts", mode="interp"),
        listed("layers", layers, run_layers, deg + "; product of the options of PLSCAN", mode="interp"),
        listed("graphs", G, run_graph, "precomputed graphs: full, chain, two parts, no edges", mode="interp"),
        listed("invalid", invalid_cases(), run_invalid, "sizes, thresholds and names that must be refused", mode="interp"),
        listed("options-compiled", plain if T else plain[::2], run, "as options" + ("" if T else ", one algorithm")),
        listed("extras-compiled", extra, run, "as extras"),
        listed("layers-compiled", layers if T else layers[::2], run_layers, "as layers" + ("" if T else ", without weights")),
        listed("forms", form_cases(), run_form, "array forms of data, weights and labels through every kind of fit"),
        listed("metrics", M, run_metric, "the neighbour index on very small data"),
    ]
