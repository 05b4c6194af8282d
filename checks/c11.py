"""C11: rows with missing or infinite values are isolated noise."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, product_space
from mc import gens, oracle as O
from mc.euclid import array

ASSUMPTIONS = ["the expected labels of the complete rows come from a fit on those rows alone (judged by C01-C10)"]
INF = float("inf")
NAN = float("nan")
KINDS = {"nan": NAN, "inf": INF, "-inf": -INF}


def spoiled(rows, bad, kind):
    """Rows with bad rows inserted: `bad` are positions in the full data; the spoilt entry alternates."""
    n = len(rows) + len(bad)
    it = iter(rows)
    cols = len(rows[0]) if rows else 2
    out = []
    for i in range(n):
        if i in bad:
            b = [float(i)] * cols
            j = bad.index(i)
            if kind == "all":
                b = [NAN] * cols
            elif kind == "mixed":
                b[j % cols] = (NAN, INF, -INF)[j % 3]
            else:
                b[j % cols] = KINDS[kind]
            out.append(tuple(b))
        else:
            out.append(next(it))
    return out


def spread(values, bad, n, fill):
    it = iter(values)
    return [fill if i in bad else next(it) for i in range(n)]


SETTINGS = [
    {},
    dict(cluster_selection_method="leaf"),
    dict(allow_single_cluster=True),
    dict(algorithm="kruskal"),
    dict(cluster_selection_method="leaf", algorithm="kruskal", knn_k=2),
    dict(cluster_selection_epsilon=1.5),
]


def check_linkage(L, clean, good, bad, n, weights):
    """L: merges of all rows; clean: merges of the good rows alone."""
    nf = len(good)
    if L.shape != (n - 1, 4):
        raise Violation("single linkage tree has shape %s for %d rows" % (L.shape, n), "linkage-shape")
    node = {i: frozenset([i]) for i in range(n)}
    used = set()
    merges = []
    for i, (a, b, d, s) in enumerate(L.tolist()):
        a, b = int(a), int(b)
        if a == b or a not in node or b not in node or a in used or b in used:
            raise Violation("merge %d of %d rows joins %d and %d, which are not two current groups" % (i, n, a, b),
                            "linkage-groups")
        used |= {a, b}
        m = node[n + i] = node[a] | node[b]
        merges.append((m, d, s))
        if weights is None and s != len(m):
            raise Violation("merge %d has size %r, its rows are %s" % (i, s, sorted(m)), "linkage-size")
    cnode = {i: frozenset([g]) for i, g in enumerate(good)}
    for i, (a, b, d, s) in enumerate(clean.tolist()):
        m = cnode[nf + i] = cnode[int(a)] | cnode[int(b)]
        if merges[i][0] != m or merges[i][1] != d or merges[i][2] != s:
            raise Violation("merge %d of the complete rows is %s at %r (size %r), without the bad rows %s at %r (size %r)" % (
                i, sorted(merges[i][0]), merges[i][1], merges[i][2], sorted(m), d, s), "linkage-differs")
    for m, d, s in merges[len(clean):]:
        if not (math.isinf(d) and d > 0):
            raise Violation("a bad row joins at distance %r" % d, "linkage-bad-row")


def check_condensed(ct, clean, good, bad, n):
    nf = len(good)
    t = O.parse_ctree(ct, n)
    for p, l in t.points[t.root]:
        if p in bad and l != 0:
            raise Violation("bad row %d leaves at density %r" % (p, l), "ctree-bad-row")
    for c in t.points:
        for p, l in t.points[c]:
            if p in bad and c != t.root:
                raise Violation("bad row %d is inside cluster %d" % (p, c), "ctree-bad-row")
    gr = sorted((good.index(c), p - n + nf, l, s) for p, c, l, s in O.ctree_rows(ct) if c < n and c not in bad)
    wr = sorted((c, p, l, s) for p, c, l, s in O.ctree_rows(clean) if c < nf)
    gc = sorted((c - n + nf, p - n + nf, l, s) for p, c, l, s in O.ctree_rows(ct) if c >= n)
    wc = sorted((c, p, l, s) for p, c, l, s in O.ctree_rows(clean) if c >= nf)
    if gr != wr or gc != wc:
        raise Violation("condensed tree of the complete rows differs from the one without bad rows: %s, %s" % (
            gr + gc, wr + wc), "ctree-differs")


def check_cuts(est, clean, good, bad, n):
    ds = sorted(set(float(d) for d in np.asarray(clean.single_linkage_tree_.to_numpy())[:, 2] if math.isfinite(d)))
    for eps in ds[:3] + [x * 1.25 for x in ds[:3]] + ds[-1:] + ([ds[-1] * 2] if ds else []):
        if eps <= 0:
            continue
        got = [int(x) for x in est.dbscan_clustering(eps)]
        exp = spread([int(x) for x in clean.dbscan_clustering(eps)], bad, n, None)
        m, back = {}, {}
        for i in range(n):
            if i in bad:
                if got[i] >= 0 and got.count(got[i]) > 1:
                    raise Violation("cut at %r: bad row %d is in a group: %s" % (eps, i, got), "cut-bad-row")
            elif (got[i] < 0) != (exp[i] < 0) or m.setdefault(exp[i], got[i]) != got[i] or back.setdefault(got[i], exp[i]) != exp[i]:
                raise Violation("cut at %r: labels %s, expected grouping %s" % (eps, got, exp), "cut-differs")


def run(c, ctx):
    from mc import sut

    rows, bad, kind, (ms, mcs, k), extra = c
    n = len(rows) + len(bad)
    good = [i for i in range(n) if i not in bad]
    full = array(spoiled(rows, bad, kind))
    kw = dict(SETTINGS[k], min_samples=ms, min_cluster_size=mcs)
    fit_clean, fit_full = {}, {}
    args_clean, args_full = [array(rows)], [full]
    ws = None
    if extra == "weights":
        ws = [0.75 + (i * 3) % 4 * 0.25 for i in range(len(rows))]
        fit_clean["sample_weight"] = np.array(ws)
        fit_full["sample_weight"] = np.array(spread(ws, bad, n, 8.0))
        kw.update(algorithm="kruskal", knn_k=3)
    elif extra:
        y = labels_for(extra, len(rows))
        kw.update(semi_supervised=True, ss_algorithm="bc_simple" if extra == "labels-simple" else "bc",
                  cluster_selection_method="eom", cluster_selection_epsilon=0.0)
        args_clean.append(np.array(y))
        args_full.append(np.array(spread(y, bad, n, 1)))
    try:
        clean = sut.HDBSCAN(**kw).fit(*args_clean, **fit_clean)
    except KeyError:
        ctx.count("skipped_recorded_keyerror")        # C09/C10: one-cluster-keyerror, the same without bad rows
        return
    est = sut.HDBSCAN(**kw).fit(*args_full, **fit_full)
    lab, prob = [int(x) for x in est.labels_], [float(x) for x in est.probabilities_]
    want = spread([int(x) for x in clean.labels_], bad, n, -1)
    wantp = spread([float(x) for x in clean.probabilities_], bad, n, 0.0)
    if lab != want:
        raise Violation("labels %s, expected %s" % (lab, want), "labels")
    if prob != wantp:
        raise Violation("strengths %s, expected %s" % (prob, wantp), "strengths")
    L = np.array(est.single_linkage_tree_.to_numpy())
    check_linkage(L, np.array(clean.single_linkage_tree_.to_numpy()), good, bad, n, ws)
    check_condensed(np.array(est.condensed_tree_.to_numpy()), np.array(clean.condensed_tree_.to_numpy()), good, bad, n)
    if ws is None:
        check_cuts(est, clean, good, bad, n)
    mst = sorted((min(good[int(a)], good[int(b)]), max(good[int(a)], good[int(b)]), d) for a, b, d in
                 np.asarray(clean.minimum_spanning_tree_.to_numpy()).tolist())
    got = sorted((min(int(a), int(b)), max(int(a), int(b)), d) for a, b, d in
                 np.asarray(est.minimum_spanning_tree_.to_numpy()).tolist())
    if got != mst:
        raw = sorted((min(int(a), int(b)), max(int(a), int(b)), d) for a, b, d in
                     np.asarray(clean.minimum_spanning_tree_.to_numpy()).tolist())
        msg = "bad rows %s: spanning tree %s, in the numbers of the data %s" % (list(bad), got, mst)
        if got != raw:
            raise Violation(msg, "mst-rows")
        ctx.known("spanning-tree-row-numbers", msg)
    ctx.state(c, tuple(lab))
    ctx.trans(n)
    ctx.trace()


def labels_for(extra, n):
    if extra == "labels-all":
        return [i % 2 for i in range(n)]
    if extra == "labels-simple":
        return [0, 0] + [1] * (n - 2)
    return [-1 if i % 3 == 1 else i // 3 for i in range(n)]


def run_few(c, ctx):
    """At most two complete rows: all noise, valid hierarchies."""
    from mc import sut

    nf, bad, kind, ms, mcs = c
    n = nf + len(bad)
    good = [i for i in range(n) if i not in bad]
    rows = [(float(i), 0.0) for i in range(nf)]
    est = sut.HDBSCAN(min_samples=ms, min_cluster_size=mcs)
    try:
        est.fit(array(spoiled(rows, bad, kind)))
        if list(est.labels_) != [-1] * n or any(float(p) != 0 for p in est.probabilities_):
            raise Violation("labels %s, strengths %s" % (list(est.labels_), list(est.probabilities_)), "labels")
        L = np.array(est.single_linkage_tree_.to_numpy())
        clean = np.array([[0, 1, L[0, 2], 2.0]]) if nf == 2 else np.empty((0, 4))
        check_linkage(L, clean, good, bad, n, None)
        t = O.parse_ctree(np.array(est.condensed_tree_.to_numpy()), n)
        for p, l in t.points[t.root]:
            if p in bad and l != 0:
                raise Violation("bad row %d leaves at density %r" % (p, l), "ctree-bad-row")
    except (Violation, IndexError, ValueError, KeyError) as e:
        if nf == 0 and isinstance(e, ValueError):
            pass            # nothing to cluster: refusing is fine
        else:
            ctx.known("few-complete-rows", "%d complete rows, bad rows %s: %s: %s" % (nf, list(bad), type(e).__name__, e))
    ctx.state(c)
    ctx.trace()


def run_layers(c, ctx):
    from mc import sut

    rows, bad, kind, algo = c
    n = len(rows) + len(bad)
    kw = dict(min_samples=2, base_min_cluster_size=2, algorithm=algo)
    clean = sut.PLSCAN(**kw).fit(array(rows))
    try:
        est = sut.PLSCAN(**kw).fit(array(spoiled(rows, bad, kind)))
        msg = None
        if [list(l) for l in est.cluster_layers_] != [spread(list(l), bad, n, -1) for l in clean.cluster_layers_]:
            msg = "layers %s, expected %s" % ([list(map(int, l)) for l in est.cluster_layers_],
                                              [spread(list(map(int, l)), bad, n, -1) for l in clean.cluster_layers_])
        elif list(est.labels_) != spread(list(clean.labels_), bad, n, -1):
            msg = "labels %s" % list(est.labels_)
        elif list(est.membership_strengths_) != spread(list(clean.membership_strengths_), bad, n, 0.0):
            msg = "strengths %s" % list(est.membership_strengths_)
    except ValueError as e:
        msg = None if "finite" in str(e).lower() or "nan" in str(e).lower() else "ValueError: %s" % e
    if msg:
        ctx.known("layers-bad-rows", "%s, bad rows %s (%s): %s" % (rows, list(bad), kind, msg))
    ctx.state(c)
    ctx.trace()


def build(tier):
    T = tier == "thorough"

    def subsets(n, most):
        return [s for k in range(1, most + 1) for s in itertools.combinations(range(n), k)]

    def cases(datasets, most, kinds, params, extras):
        out = []
        for rows in datasets:
            for k in range(1, most + 1):
                for bad in itertools.combinations(range(len(rows) + k), k):
                    out.extend((rows, bad, kind, p, e) for kind in kinds for p in params for e in extras)
        return out

    two = lambda ps: gens.float_rows((a, b) for a, b in ps)
    D3 = [two(p) for p in ([(0, 0), (1, 0), (5, 0)], [(5, 0), (0, 0), (1, 0)], [(0, 0), (0, 0), (0, 0)])]
    D4 = [two(p) for p in ([(0, 0), (1, 0), (5, 0), (6, 2)], [(6, 2), (0, 0), (5, 0), (1, 0)], [(0, 0), (0, 0), (4, 4), (4, 4)])]
    D6 = [two(p) for p in ([(0, 0), (1, 0), (2, 0.5), (9, 0), (10, 0), (11, 0.5)],
                           [(9, 0), (0, 0), (10, 0), (1, 0), (11, 0.5), (2, 0.5)])]
    D8 = [two(p) for p in ([(0, 0), (1, 0), (4, 0), (5.5, 0), (20, 0), (21, 0), (24, 0), (25.5, 0)],
                           [(20, 0), (4, 0), (0, 0), (24, 0), (25.5, 0), (1, 0), (21, 0), (5.5, 0)])]
    one = [gens.float_rows((v,) for v in p) for p in ((0, 1, 3, 7), (7, 3, 0, 1), (0, 1, 10, 11, 30))]
    P = [(ms, mcs, k) for ms in (1, 2) for mcs in (2,) for k in range(len(SETTINGS))]
    A = cases(D3, 3, ("nan", "inf", "-inf", "all", "mixed"), P, (None,))
    A += cases(D4, 3, ("nan", "mixed"), P, (None,))
    A += cases(one, 2, ("nan", "inf"), P, (None,))
    B = cases(D6, 2, ("nan", "inf", "mixed"), [(ms, mcs, k) for ms in (1, 2, 3) for mcs in (2, 3) for k in range(len(SETTINGS))],
              (None,))
    Cw = cases(D4 + D6 + D8, 2, ("nan", "mixed"), [(1, 2, 0), (2, 2, 1), (2, 3, 0)], ("weights",))
    Cl = cases(D6 + D8, 2, ("nan", "mixed"), [(1, 2, 0), (2, 2, 2), (2, 3, 3)], ("labels", "labels-all", "labels-simple"))
    sized = [gens.float_rows(gens.family(k, n)) for n in (25, 60, 130) for k in ("blocks", "quadratic", "negative", "wide")]
    S = []
    for rows in sized:
        n = len(rows)
        for bad in ((0,), (n,), (n // 2,), (0, 1, 2), (n, n + 1), tuple(range(0, n, 5)), tuple(range(3, n, 2))):
            for p in ((2, 5, 0), (3, 5, 1), (5, 4, 3)):
                for e in (None, "weights", "labels"):
                    S.append((rows, tuple(b for b in bad if b < n + len(bad)), "mixed", p, e))
    if T:
        Cw += cases(D6 + D8, 3, ("inf",), [(1, 2, 0), (2, 2, 1)], ("weights",))
        Cl += cases(D8, 3, ("mixed",), [(1, 2, 0), (2, 2, 2)], ("labels", "labels-simple"))
    F = [(nf, bad, kind, ms, mcs) for nf in (0, 1, 2) for k in (1, 2, 3) for bad in itertools.combinations(range(nf + k), k)
         for kind in ("nan", "inf", "mixed") for ms in (1, 2) for mcs in (2, 3)]
    Y = [(rows, bad, kind, a) for rows in [gens.float_rows((v,) for v in (0, 1, 2, 10, 11, 12, 30, 31, 32)),
                                           two([(0, 0), (1, 0), (2, 0.5), (9, 0), (10, 0), (11, 0.5)])]
         for bad in ((0,), (3,), (len(rows),), (1, 4)) for kind in ("nan", "inf") for a in ("boruvka", "kruskal")]

    def listed(name, cs, fn, note, chunk=24):
        return Space(name, len(cs), lambda i: cs[i], fn, chunk=chunk, note=note, warm=(0, 1, 2, 3, 4, 5, -1))

    return [
        listed("small", A, run, "3 and 4 complete rows, bad rows at every place, every kind of bad entry"),
        listed("six", B, run, "6 complete rows, bad rows at every place"),
        listed("weights", Cw, run, "weighted rows"),
        listed("labels", Cl, run, "partially labelled rows"),
        listed("sizes", S, run, "structured data with many bad rows", chunk=6),
        listed("few", F, run_few, "no, one or two complete rows"),
        listed("layers", Y, run_layers, "layers", chunk=4),
    ]
