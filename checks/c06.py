"""C06: cannot-link constraints are never violated."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation, product_space
from mc import gens, oracle as O, recorded as R
from checks import c05
from checks.c05 import NO, matrix, pairs_of

ASSUMPTIONS = [
    "edges of equal distance may be taken in any order: a forest is accepted when no constrained pair is connected and "
    "every edge left out joins samples that edges up to its length connect, or groups that a constraint keeps apart",
    "the pairwise matrix is judged by the positions of its non-zero entries",
]
INF = float("inf")
FORMS = ("both", "upper", "lower", "mixed", "both-int", "int8", "float", "diagonal", "trusted", "negative",
         "negative-upper", "negative-lower", "small-upper", "uint8-upper", "zeros-upper")


def constraint_matrix(n, pairs, form):
    import scipy.sparse as sp

    val = {"negative": -1, "small": 2.0 ** -40}.get(form.split("-")[0], True)
    if form.endswith("upper"):
        ent = [(i, j, True) for i, j in pairs]
    elif form.endswith("lower"):
        ent = [(j, i, True) for i, j in pairs]
    elif form == "mixed":
        ent = [(i, j, True) if t % 2 else (j, i, True) for t, (i, j) in enumerate(pairs)]
    else:
        ent = [(i, j, True) for i, j in pairs] + [(j, i, True) for i, j in pairs]
    if form == "diagonal":
        ent += [(i, i, True) for i in range(n)]
    ent = [(i, j, val) for i, j, _ in ent]
    if form == "zeros-upper":      # stored zeros are no constraints
        ent += [(i, j, 0) for i in range(n) for j in range(n) if (i, j, True) not in ent]
    dt = {"negative": np.int64, "negative-upper": np.int8, "negative-lower": np.float64, "small-upper": np.float64,
          "uint8-upper": np.uint8, "zeros-upper": np.float64, "float": np.float64, "both-int": np.int64,
          "int8": np.int8}.get(form, np.bool_)
    m = sp.coo_matrix((np.array([e[2] for e in ent], dtype=dt),
                       (np.array([e[0] for e in ent], dtype=np.int32), np.array([e[1] for e in ent], dtype=np.int32))),
                      shape=(n, n))
    return m.tocsc() if form == "lower" else m.tocsr() if form != "mixed" else m


def check_constrained(edges, W, graph_pairs, conflicts, n, rtol=2e-6):
    """edges must be a forest found greedily under the constraints, joined by infinite edges into one tree."""
    es = O.check_tree_edges(edges, n)
    allowed = set(graph_pairs)
    fin = sorted((e for e in es if math.isfinite(e[2])), key=lambda e: e[2])
    for a, b, w in fin:
        if (min(a, b), max(a, b)) not in allowed:
            raise Violation("finite edge (%d, %d) is not an edge of the graph" % (a, b), "cl-edge")
        if not O.close(w, float(W[a][b]), rtol):
            raise Violation("edge (%d, %d) has weight %r, expected %r" % (a, b, w, float(W[a][b])), "cl-weight")
    final = O.components(n, [(a, b) for a, b, _ in fin])
    for i, j in conflicts:
        if final[i] == final[j]:
            raise Violation("samples %d and %d must not be linked but finite edges connect them: %s" % (
                i, j, fin), "cl-linked")
    taken = set((min(a, b), max(a, b)) for a, b, _ in fin)
    for a, b in graph_pairs:
        w = float(W[a][b])
        if (a, b) in taken or not math.isfinite(w):
            continue
        comp = O.components(n, [(x, y) for x, y, v in fin if v <= w * (1 + 1e-9)])
        ca, cb = comp[a], comp[b]
        if ca == cb:
            continue
        if not any((comp[i] == ca and comp[j] == cb) or (comp[i] == cb and comp[j] == ca) for i, j in conflicts):
            raise Violation("edge (%d, %d) of length %r was left out although no constraint keeps its sides apart" % (
                a, b, w), "cl-left-out")
    return es


def bits(n, k):
    return tuple(p for t, p in enumerate(pairs_of(n)) if k >> t & 1)


# ---------------------------------------------------------------- forests of precomputed graphs
def run_graph(c, ctx):
    from mc import sut

    n, ws, k, ms, forms = c
    pairs = bits(n, k)
    g = c05.graph(n, ws)
    core, W = g.core(ms)
    m = matrix(n, ws, "csr")
    first = None
    for form in forms:
        kw = dict(validate_cannot_link=False) if form == "trusted" else {}
        edges, _, cd = sut.compute_minimum_spanning_tree(
            m, min_samples=ms, metric="precomputed", algorithm="kruskal",
            cannot_link=constraint_matrix(n, pairs, form), **kw)
        edges = np.asarray(edges)
        if first is None:
            es = check_constrained(edges, W, g.pairs, pairs, n)
            first = edges
        elif not np.array_equal(first, edges):
            raise Violation("constraints given as %s lead to %s, as both directions to %s" % (
                form, edges.tolist(), first.tolist()), "cl-form")
    ctx.state(n, ws, k, ms, tuple(es))
    ctx.trans(len(forms) * len(es))
    ctx.trace(len(forms))


# ---------------------------------------------------------------- feature data
def run_feature(c, ctx):
    from mc import sut
    from mc.euclid import ref, array
    from checks.c04 import knn_pairs

    rows, ms, k, bitset = c
    n = len(rows)
    pairs = bits(n, bitset)
    r = ref(rows)
    W, _ = r.mst(ms)
    edges, _, core = sut.compute_minimum_spanning_tree(
        array(rows), min_samples=ms, algorithm="kruskal", knn_k=k, cannot_link=constraint_matrix(n, pairs, "both"))
    if k is None:
        graph = pairs_of(n)
    else:
        must, may = knn_pairs(r, max(k, ms))
        if must != may:
            ctx.count("skipped_disputed_neighbours")
            return
        graph = sorted(may)
    es = check_constrained(np.asarray(edges), W, graph, pairs, n)
    ctx.state(c, tuple(es))
    ctx.trans(len(es))
    ctx.trace()


# ---------------------------------------------------------------- groups
LABELS = ([0, 1, 2], [0, 63, 64], [64, 65, 127], [128, 63, 191], [1000, 0, 4095], [63, 62, 64])


def run_groups(c, ctx):
    from mc import sut

    n, ws, groups, ms, names = c
    lab = np.array([-1 if x < 0 else LABELS[names][x] for x in groups])
    pairs = tuple((i, j) for i, j in pairs_of(n) if groups[i] >= 0 and groups[i] == groups[j])
    g = c05.graph(n, ws)
    core, W = g.core(ms)
    m = matrix(n, ws, "csr")
    out = []
    for kw in (dict(cannot_link_groups=lab), dict(cannot_link_groups=lab.tolist()),
               dict(cannot_link_groups=lab.astype(np.float64)), dict(cannot_link=constraint_matrix(n, pairs, "both"))):
        edges, _, _ = sut.compute_minimum_spanning_tree(m, min_samples=ms, metric="precomputed", algorithm="kruskal", **kw)
        out.append(np.asarray(edges))
    es = check_constrained(out[0], W, g.pairs, pairs, n)
    for o in out[1:]:
        if not np.array_equal(o, out[0]):
            raise Violation("groups %s lead to %s, the same constraints in another form to %s" % (
                lab.tolist(), out[0].tolist(), o.tolist()), "cl-form")
    ctx.state(n, ws, groups, ms, names, tuple(es))
    ctx.trans(4 * len(es))
    ctx.trace(4)


def run_many_groups(c, ctx):
    """Every group boundary around machine words: n samples in a row, sample i and i + g share group i."""
    from mc import sut

    g, order = c
    n = 2 * g
    pos = np.arange(n, dtype=float) if order == "row" else np.concatenate([np.arange(g) * 2.0, np.arange(g) * 2.0 + 1])
    lab = np.concatenate([np.arange(g), np.arange(g)])
    X = pos[:, None]
    edges, _, _ = sut.compute_minimum_spanning_tree(X, min_samples=1, algorithm="kruskal", cannot_link_groups=lab)
    D = np.abs(pos[:, None] - pos[None, :])
    pairs = tuple((i, i + g) for i in range(g))
    es = O.check_tree_edges(edges, n)
    fin = [(a, b) for a, b, w in es if math.isfinite(w)]
    for a, b, w in es:
        if math.isfinite(w) and w != D[a, b]:
            raise Violation("edge (%d, %d) has weight %r, expected %r" % (a, b, w, D[a, b]), "cl-weight")
    comp = O.components(n, fin)
    for i, j in pairs:
        if comp[i] == comp[j]:
            raise Violation("%d groups: samples %d and %d share group %d and are linked" % (g, i, j, i), "cl-linked")
    # two neighbouring components must be kept apart by a constraint
    members = {}
    for i in range(n):
        members.setdefault(comp[i], set()).add(i % g)
    order_ = np.argsort(pos)
    for a, b in zip(order_[:-1], order_[1:]):
        ca, cb = comp[a], comp[b]
        if ca != cb and not (members[ca] & members[cb]):
            raise Violation("%d groups: samples %d and %d are kept apart by no constraint" % (g, a, b), "cl-left-out")
    ctx.state(c, tuple(fin))
    ctx.trans(len(es))
    ctx.trace()


# ---------------------------------------------------------------- clusterings
SETTINGS = c05.SETTINGS


def labels_of(n, rows, ws, ms, mcs, name, kw, cons, form):
    from mc import sut

    X = matrix(n, ws, "csr") if rows is None else np.array(rows, dtype=float)
    if rows is not None and X.ndim == 1:
        X = X[:, None]
    metric = "precomputed" if rows is None else "euclidean"
    k = None
    if isinstance(form, tuple):
        form, k = form
    base = dict(min_samples=ms, metric=metric, algorithm="kruskal", knn_k=k)
    if kw is None:
        if form == "groups":
            return None
        est = sut.PLSCAN(base_min_cluster_size=mcs, cannot_link=cons, **base)
        est.fit(X)
        return list(est.cluster_layers_) + [est.labels_]
    base["min_cluster_size"] = mcs
    base["cannot_link_groups" if form == "groups" else "cannot_link"] = cons
    if "cluster_selection_persistence" in kw:
        ct = sut.fast_hdbscan_fn(X, return_trees=True, **base)[3]
        if not R.has_split(O.ctree_rows(ct), n):
            return None
    if kw.get("semi_supervised"):
        truth = np.array([i % 2 if i % 3 else -1 for i in range(n)])
        return [sut.HDBSCAN(**base, **kw).fit(X, truth).labels_]
    return [sut.fast_hdbscan_fn(X, **base, **kw)[0], sut.HDBSCAN(**base, **kw).fit(X).labels_]


def run_clusters(c, ctx):
    n, rows, ws, pairs, (ms, mcs, k), form = c
    name, kw = SETTINGS[k]
    f = form[0] if isinstance(form, tuple) else form
    cons = np.array(pairs) if f == "groups" else constraint_matrix(n, pairs, f)
    if f == "groups":
        conflicts = [(i, j) for i, j in pairs_of(n) if pairs[i] >= 0 and pairs[i] == pairs[j]]
    else:
        conflicts = pairs
    flaw = None
    if "persistence" in name:
        flaw = "persistence-disconnected"
    elif name.startswith("semi"):
        flaw = "semi-supervised-disconnected"
    elif name == "layers":
        flaw = "layers-disconnected"
    try:
        found = labels_of(n, rows, ws, ms, mcs, name, kw, cons, form)
    except KeyError:
        if name in ("epsilon", "epsilon-single", "leaf-epsilon", "max", "semi", "semi-single"):
            ctx.count("refused_by_recorded_keyerror")  # C09 and C16
            return
        raise
    if found is None:
        ctx.count("left_out")
        return
    for lab in found:
        lab = [int(x) for x in lab]
        for i, j in conflicts:
            if lab[i] >= 0 and lab[i] == lab[j]:
                msg = "%s: samples %d and %d must not be linked, labels %s" % (name, i, j, lab)
                if flaw is None:
                    raise Violation(msg, "cl-label")
                ctx.known(flaw, msg)
    ctx.state(n, rows, ws, pairs, c[4], tuple(tuple(int(x) for x in lab) for lab in found))
    ctx.trans(len(found))
    ctx.trace()


# ---------------------------------------------------------------- other metrics, many columns
def run_other(c, ctx):
    from mc import sut

    rows, metric, cols, pairs, form, mcs = c
    n = len(rows)
    X = np.zeros((n, cols))
    X[:, 0] = rows
    if metric == "cosine":
        X = np.stack([np.cos(np.array(rows) / 40.0), np.sin(np.array(rows) / 40.0)], axis=1)
    base = dict(min_samples=1, min_cluster_size=mcs, metric=metric, algorithm="kruskal")
    if form == "groups":
        lab = np.full(n, -1)
        for g, (i, j) in enumerate(pairs):
            lab[i] = lab[j] = g
        base["cannot_link_groups"] = lab
    else:
        base["cannot_link"] = constraint_matrix(n, pairs, form)
    for kw in (dict(), dict(cluster_selection_method="leaf"), dict(allow_single_cluster=True)):
        got = [int(x) for x in sut.HDBSCAN(**base, **kw).fit(X).labels_]
        for i, j in pairs:
            if got[i] >= 0 and got[i] == got[j]:
                ctx.known("neighbour-index-ignores", "%s, %d columns: samples %d and %d must not be linked, labels %s" % (
                    metric, X.shape[1], i, j, got))
        ctx.state(c, tuple(got))
        ctx.trans()
        ctx.trace()


# ---------------------------------------------------------------- cancelling entries
def run_cancel(c, ctx):
    from mc import sut
    import scipy.sparse as sp

    v, w, dt, (i, j) = c
    n = 4
    X = np.array([0.0, 1.0, 2.5, 4.5])[:, None]
    cl = sp.csr_matrix((np.array([v, w], dtype=dt), ([i, j], [j, i])), shape=(n, n))
    edges, _, _ = sut.compute_minimum_spanning_tree(X, min_samples=1, algorithm="kruskal", cannot_link=cl)
    fin = [(int(a), int(b)) for a, b, d in np.asarray(edges) if math.isfinite(d)]
    comp = O.components(n, fin)
    if comp[i] == comp[j]:
        msg = "entries %r and %r (%s) at both directions: samples %d and %d are linked" % (v, w, dt, i, j)
        if (np.array([v], dtype=dt) + np.array([w], dtype=dt))[0] == 0:
            ctx.known("cancelling-entries", msg)
        else:
            raise Violation(msg, "cl-linked")
    ctx.state(c, tuple(fin))
    ctx.trace()


# ---------------------------------------------------------------- bad rows
def run_bad_rows(c, ctx):
    """Constraints on data with missing values: refused, or they refer to the rows given."""
    from mc import sut

    bad, (i, j), form, mcs = c
    vals = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0]
    n = len(vals)
    X = np.array(vals)[:, None]
    X = np.hstack([X, X])
    X[bad, 1] = np.nan
    base = dict(min_samples=1, min_cluster_size=mcs, algorithm="kruskal", allow_single_cluster=True)
    if form == "groups":
        g = np.full(n, -1)
        g[i] = g[j] = 0
        base["cannot_link_groups"] = g
    elif form == "trusted":
        base.update(cannot_link=constraint_matrix(n, [(i, j)], "both"), validate_cannot_link=False)
    else:
        base["cannot_link"] = constraint_matrix(n, [(i, j)], form)
    try:
        got = [int(x) for x in sut.HDBSCAN(**base).fit(X).labels_]
    except ValueError:
        ctx.count("refused")
        ctx.state(c)
        return
    if got[i] >= 0 and got[i] == got[j]:
        msg = "row %d has a missing value: samples %d and %d must not be linked, labels %s" % (bad, i, j, got)
        if form == "trusted":
            ctx.known("trusted-constraints-bad-rows", msg)
        else:
            raise Violation(msg, "cl-label")
    ctx.state(c, tuple(got))
    ctx.trace()


# ---------------------------------------------------------------- refusals
def run_refused(c, ctx):
    from mc import sut
    import scipy.sparse as sp

    what, api = c
    n = 4
    X = np.array([0.0, 1.0, 2.5, 4.5])[:, None]
    cl = constraint_matrix(n, [(0, 1)], "both")
    kw = dict(algorithm="kruskal")
    if what == "below":
        kw["cannot_link_groups"] = np.array([0, 0, -2, 1])
    elif what == "short":
        kw["cannot_link_groups"] = np.array([0, 0, 1])
    elif what == "long":
        kw["cannot_link_groups"] = np.array([0, 0, 1, 1, 1])
    elif what == "both":
        kw.update(cannot_link=cl, cannot_link_groups=np.array([0, 0, 1, 1]))
    elif what == "shape":
        kw["cannot_link"] = constraint_matrix(3, [(0, 1)], "both")
    elif what == "big":
        kw["cannot_link"] = constraint_matrix(5, [(0, 4)], "both")
    elif what == "dense":
        kw["cannot_link"] = cl.toarray()
    elif what == "boruvka":
        kw.update(algorithm="boruvka", cannot_link=cl)
    elif what == "boruvka-groups":
        kw.update(algorithm="boruvka", cannot_link_groups=np.array([0, 0, 1, 1]))
    if api == "layers" and "cannot_link_groups" in kw:
        ctx.count("not_offered")
        return
    try:
        if api == "layers":
            sut.PLSCAN(min_samples=2, base_min_cluster_size=2, **kw).fit(X)
        elif api == "fit":
            sut.HDBSCAN(min_cluster_size=2, **kw).fit(X)
        elif api == "graph":
            D = np.abs(X - X.T)
            sut.HDBSCAN(min_cluster_size=2, metric="precomputed", **kw).fit(sp.csr_matrix(D))
        else:
            sut.fast_hdbscan_fn(X, min_cluster_size=2, **kw)
    except ValueError:
        ctx.state(c)
        ctx.trace()
        return
    raise Violation("constraints (%s) were accepted" % what, "cl-accepted")


def group_vectors(n, values):
    """Group vectors up to renaming of the groups (plus -1)."""
    for v in itertools.product((-1,) + tuple(range(values)), repeat=n):
        used = []
        for x in v:
            if x >= 0 and x not in used:
                used.append(x)
        if used == sorted(used) == list(range(len(used))):
            yield v


def space(name, size, dec, run, note, chunk=32):
    # the neighbour index compiles its metric anew in every process: nothing to prepare
    return Space(name, size, dec, run, chunk=chunk, note=note, warm=() if run is run_other else (0, 1, 2, 3, -1))


def build(tier):
    T = tier == "thorough"
    orders = list(itertools.permutations((1.0, 2.0, 3.0, 4.0, 5.0, 6.0)))
    out = []
    s, d = product_space(orders, list(range(64)))
    out.append(space("n4", s, lambda i, d=d: (4,) + d(i) + (1, ("upper",)), run_graph,
                     "every order of the six distances of 4 samples, every constraint set"))
    s, d = product_space(list(itertools.product((NO, 1.0, 2.0), repeat=6)), list(range(64)), [1, 2])
    out.append(space("n4-ties", s, lambda i, d=d: (4,) + d(i) + (("both",),), run_graph,
                     "every graph on 4 samples with ties and missing edges, every constraint set"))
    s, d = product_space(orders[::31], list(range(64)), [1, 2])
    out.append(space("n4-forms", s, lambda i, d=d: (4,) + d(i) + (FORMS,), run_graph,
                     "every constraint set in every storage form"))
    five = [tuple(float(1 + (a * t + b) % 11) for t in range(10)) for a in (1, 3, 4, 7) for b in (0, 5)] + \
        [tuple(1.0 + abs(j - i) for i, j in pairs_of(5)), tuple(1.0 for _ in range(10)),
         tuple(float((i + 1) * (j - i)) for i, j in pairs_of(5))]
    s, d = product_space(five, list(range(1 << 10)), [1, 2])
    out.append(space("n5", s, lambda i, d=d: (5,) + d(i) + (("lower", "trusted"),), run_graph,
                     "5 samples, every constraint set"))
    six = [tuple(float(1 + (a * t + 3) % 17) for t in range(15)) for a in (1, 5, 7)]
    s, d = product_space(six, [sum(1 << t for t in cs) for k in ((1, 2, 3, 4) if T else (1, 2, 3))
                               for cs in itertools.combinations(range(15), k)])
    out.append(space("n6", s, lambda i, d=d: (6,) + d(i) + (1, ("upper", "lower")), run_graph,
                     "6 samples, few constraints"))
    lines = [(0, 1, 3, 6), (0, 4, 6, 7), (0, 2, 3, 7), (5, 0, 3, 9), (0, 10, 1, 11.5)]
    s, d = product_space(lines, [1, 2, 3], [None, 1, 2, 3], list(range(64)))
    out.append(space("feature-n4", s, lambda i, d=d: (lambda t: (tuple((x,) for x in t[0]), t[1], t[2], t[3]))(d(i)),
                     run_feature, "4 samples on a line, neighbour limits, every constraint set"))
    lines = [(0, 1, 3, 7, 12), (0, 7, 9, 10, 16), (8, 0, 3, 4.5, 15)]
    s, d = product_space(lines, [1, 2], [None, 1, 2, 4], list(range(1 << 10)))
    out.append(space("feature-n5", s, lambda i, d=d: (lambda t: (tuple((x,) for x in t[0]), t[1], t[2], t[3]))(d(i)),
                     run_feature, "5 samples on a line, neighbour limits, every constraint set"))
    def numbered(gaps, names):
        rows, at = [None] * len(names), 0.0
        for k, i in enumerate(names):
            rows[i] = (at,)
            at += gaps[k] if k < len(gaps) else 0.0
        return tuple(rows)

    five_rows = [numbered(g, o) for g in itertools.permutations((1.0, 2.0, 4.0, 8.0))
                 for o in itertools.permutations(range(5)) if o[0] < o[-1]]
    s, d = product_space(five_rows, [1 << t for t in range(10)] + ([3 << t for t in range(9)] if T else []))
    out.append(space("numbered-n5", s, lambda i, d=d: (lambda t: (t[0], 1, None, t[1]))(d(i)), run_feature,
                     "5 samples on a line in every merge order and numbering, one constraint"))
    six_rows = [numbered(g, o) for g in itertools.permutations((1.0, 2.0, 4.0, 8.0, 16.0))
                for o in list(itertools.permutations(range(6)))[::5 if T else 47]]
    s, d = product_space(six_rows, [1 << t for t in range(15)])
    out.append(space("numbered-n6", s, lambda i, d=d: (lambda t: (t[0], 1, None, t[1]))(d(i)), run_feature,
                     "6 samples on a line in every merge order, several numberings, one constraint"))
    gv = list(group_vectors(5, 3))
    s, d = product_space(five if T else five[::4], gv, [1, 2], list(range(len(LABELS))))
    out.append(space("groups", s, lambda i, d=d: (5,) + d(i), run_groups,
                     "every grouping of 5 samples, group numbers across machine words"))
    s, d = product_space(list(range(1, 200 if T else 140)), ["row", "pairs"])
    out.append(space("many-groups", s, d, run_many_groups, "group counts across machine words", chunk=8))
    P = [(ms, mcs, k) for ms in (1, 2) for mcs in (2, 3) for k in range(len(SETTINGS))]
    rows7 = [(0, 1, 2, 3, 4, 5, 6), (0, 1, 2, 6, 7, 8, 9), (0, 1, 3, 4, 8, 9, 10)]
    cons7 = [cs for k in ((1, 2, 3) if T else (1, 2)) for cs in itertools.combinations(pairs_of(7), k)]
    s, d = product_space(rows7 if T else rows7[1:2], cons7, P, ["both"])
    out.append(space("clusters", s, lambda i, d=d: (lambda t: (7, t[0], None, t[1], t[2], t[3]))(d(i)), run_clusters,
                     "clusterings of constrained samples on a line under every setting"))
    cons7 = [cs for cs in itertools.combinations(pairs_of(7), 1)] + [((0, 1), (3, 4)), ((2, 3), (5, 6)), ((0, 6), (1, 5))]
    s, d = product_space(rows7, cons7, P, [("upper", 2), ("both", 3), "lower"])
    out.append(space("clusters-limited", s, lambda i, d=d: (lambda t: (7, t[0], None, t[1], t[2], t[3]))(d(i)),
                     run_clusters, "clusterings of constrained samples with neighbour limits"))
    s, d = product_space(rows7 if T else rows7[2:], [v for v in group_vectors(7, 2) if v.count(-1) in ((2, 3, 4) if T else (3,))], P)
    out.append(space("clusters-groups", s, lambda i, d=d: (lambda t: (7, t[0], None, t[1], t[2], "groups"))(d(i)),
                     run_clusters, "clusterings of grouped samples"))
    blocks = []
    for sizes in itertools.product((3, 4, 7, 12), repeat=3):
        rows, first, at = [], [], 0.0
        for b, m in enumerate(sizes):
            first.append(len(rows))
            for i in range(m):
                rows.append(at)
                at += 1.0 + (i % 3) * 0.5 + b * 0.25
            at += 8.0
        blocks.append((tuple(rows), tuple(itertools.combinations(first, 2))))
    s, d = product_space(blocks, P)
    out.append(space("clusters-many", s, lambda i, d=d: (lambda t: (len(t[0][0]), t[0][0], None, t[0][1], t[1], "both"))(d(i)),
                     run_clusters, "clusterings of groups of samples kept apart"))
    g9 = [tuple(1.0 + (j - i - 1) * 0.25 + ((i * j) % 3) * 0.5 for i, j in pairs_of(9)),
          tuple(1.0 if i // 3 == j // 3 else 4.0 + i for i, j in pairs_of(9)),
          tuple(float(j - i) if j - i < 4 else NO for i, j in pairs_of(9))]
    cons9 = [((0, 8),), ((0, 4), (4, 8)), ((1, 7), (2, 6)), ((0, 1), (3, 4), (6, 7)), ((0, 3), (0, 6), (3, 6)),
             ((2, 5), (1, 8)), ((0, 2), (3, 5), (6, 8), (2, 7))]
    s, d = product_space(g9, cons9, P, ["both", "lower"])
    out.append(space("clusters-graph", s, lambda i, d=d: (lambda t: (9, None, t[0], t[1], t[2], t[3]))(d(i)),
                     run_clusters, "clusterings of constrained sparse graphs"))
    grp = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11]
    many = [tuple(grp[:a]) + tuple(x + 20 for x in grp[:b]) for a, b in ((6, 6), (8, 4))]
    s, d = product_space(["manhattan", "euclidean31", "cosine"], many,
                         [((0, 1),), ((0, 5),), ((1, 2), (6, 8)), ((0, 11),)], ["both", "upper", "groups"], [2, 3])
    out.append(space("other-metrics", s, lambda i, d=d: (lambda t: (
        t[1], "euclidean" if t[0].startswith("euclid") else t[0], 31 if t[0] == "euclidean31" else 2) + t[2:])(d(i)),
        run_other, "constraints with other metrics and many columns", chunk=s // 3))
    s, d = product_space([1, -1, 2, 127, -128, 128], [1, -1, 2, 127, -128, 128], ["float64", "int64", "int8", "uint8"],
                         [(0, 1), (1, 2), (0, 3)])
    ok = [i for i in range(s) if d(i)[2] in ("float64", "int64") or
          all(np.iinfo(d(i)[2]).min <= x <= np.iinfo(d(i)[2]).max for x in d(i)[:2])]
    out.append(space("entries", len(ok), lambda i, d=d: d(ok[i]), run_cancel, "values of the constraint matrix"))
    s, d = product_space([0, 1, 3, 6], [(1, 2), (2, 3), (0, 1), (1, 4), (2, 5)], ["both", "groups", "trusted"], [2, 3])
    okb = [i for i in range(s) if d(i)[0] not in d(i)[1]]
    out.append(space("bad-rows", len(okb), lambda i, d=d: d(okb[i]), run_bad_rows, "constraints and missing values", chunk=4))
    s, d = product_space(["below", "short", "long", "both", "shape", "big", "dense", "boruvka", "boruvka-groups"],
                         ["function", "fit", "graph", "layers"])
    out.append(space("refused", s, d, run_refused, "constraints without a meaning", chunk=2))
    return out
