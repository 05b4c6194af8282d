"""C14: sub-clusters and branches refine the clusters they come from."""
import itertools
import math
import os

import numpy as np

from mc.core import Space, Violation
from mc import oracle as O, recorded as R
from mc.euclid import array

ASSUMPTIONS = [
    "the spanning tree of the fitted clusterer is judged by C01 and taken as it is here",
    "the groups inside a cluster are those of the density clustering of the reported lens spanning tree; that step is "
    "judged by C07-C10",
    "given cluster labels are 0, 1, ... without gaps",
    "votes closer than 1e-9 may go either way",
]
INF = float("inf")
NAN = float("nan")
_fits = {}


def fitted(rows, ms, algo="kruskal", mcs=3, **fit):
    from mc import sut

    key = (rows, ms, algo, mcs, tuple(sorted(fit.items())))
    if key not in _fits:
        if len(_fits) > 200:
            _fits.clear()
        kw, args = {}, {}
        if "apart" in fit:
            import scipy.sparse as sp

            n = len(rows)
            m = sp.lil_matrix((n, n))
            for a, b in fit["apart"]:
                m[a, b] = m[b, a] = 1
            kw["cannot_link"] = m.tocsr()
        _fits[key] = sut.HDBSCAN(min_samples=ms, min_cluster_size=mcs, algorithm=algo, **kw).fit(array(rows))
    return _fits[key]


class Graph:
    """Neighbour-plus-spanning-tree graphs of the clusters."""

    def __init__(self, est, rows, ms, labels):
        fin = [i for i, r in enumerate(rows) if all(math.isfinite(x) for x in r)]
        self.near, self.core = {}, {}
        d = lambda a, b: math.dist(rows[a], rows[b])
        for i in fin:
            o = sorted((j for j in fin if j != i), key=lambda j: d(i, j))
            if len(o) > ms and d(i, o[ms - 1]) == d(i, o[ms]):
                raise RuntimeError("data with tied neighbours")
            self.near[i] = o[:ms]
            self.core[i] = d(i, o[ms - 1]) if len(o) >= ms else INF
        self.d = d
        mst = np.array(est._min_spanning_tree if hasattr(est, "_min_spanning_tree") else
                       est.minimum_spanning_tree_.to_numpy())
        self.mst = []
        for a, b, w in mst.tolist():
            a, b = fin[int(a)], fin[int(b)]
            if math.isfinite(w):
                self.mst.append((a, b))
        self.mst_all = [(fin[int(a)], fin[int(b)], w) for a, b, w in mst.tolist()]
        self.clusters = []
        self.unlinked = []   # clusters with a sample that lists no neighbour of its own
        for c in range(max(labels) + 1):
            pts = [i for i in range(len(rows)) if labels[i] == c]
            s = set(pts)
            e, out = set(), set()
            for i in pts:
                for j in self.near[i]:
                    if j in s:
                        e.add((min(i, j), max(i, j)))
                        out.add(i)
            for a, b, w in self.mst_all:
                if a in s and b in s:
                    e.add((min(a, b), max(a, b)))
                    out.add(a)
            self.clusters.append((pts, e))
            if len(out) < len(pts):
                self.unlinked.append(c)


def components(pts, edges):
    cur = {p: p for p in pts}

    def find(x):
        while cur[x] != x:
            x = cur[x]
        return x

    for a, b in edges:
        cur[find(a)] = find(b)
    return [find(p) for p in pts]


def forest_weights(pts, edges, lens):
    cur = {p: p for p in pts}

    def find(x):
        while cur[x] != x:
            x = cur[x]
        return x

    out = []
    for w, a, b in sorted((max(lens[a], lens[b]), a, b) for a, b in edges):
        if find(a) != find(b):
            cur[find(a)] = find(b)
            out.append(w)
    return out


def check_cluster(pts, edges, lens, tree, sub, prob, kw, ws, listed, unlinked, ctx):
    """The groups of one cluster.  tree: reported spanning tree in positions of pts; listed: its graph as listed."""
    comp = components(pts, edges)
    try:
        check_lens_tree(pts, edges, lens, tree)
    except Violation as v:
        found, want = R.one_way_boruvka(listed)
        if sorted((min(a, b), max(a, b), w) for a, b, w in tree.tolist()) != sorted(want):
            raise
        ctx.known("unlinked-sample" if unlinked else "one-way-edges", v.msg)
        comp = found
    if len(set(comp)) > 1:
        O.check_same_grouping(sub, [sorted(set(comp)).index(c) for c in comp], "unconnected cluster", "component-groups")
        if any(p != 1 for p in prob):
            raise Violation("strengths %s in an unconnected cluster" % prob, "component-strengths")
        ctx.count("unconnected")
        return len(set(comp))
    if len(pts) == 1:
        return 2        # one group, or one sample outside any group
    from mc import sut

    more = {} if ws is None else dict(sample_weights=np.array([ws[p] for p in pts], dtype=np.float32))
    labels, strengths, _, _, _ = sut.clusters_from_spanning_tree(tree, **dict(kw, **more))
    if [int(x) for x in labels] != sub or [float(x) for x in strengths] != prob:
        raise Violation("groups %s %s, clustering of the lens tree gives %s %s" % (
            sub, prob, labels.tolist(), strengths.tolist()), "groups")
    return 1


def check_lens_tree(pts, edges, lens, tree):
    for a, b, w in tree.tolist():
        if a != int(a) or b != int(b) or not (0 <= a < len(pts) and 0 <= b < len(pts)):
            raise Violation("lens tree: edge (%r, %r) of a cluster with %d samples" % (a, b, len(pts)), "lens-endpoint")
        x, y = pts[int(a)], pts[int(b)]
        if (min(x, y), max(x, y)) not in edges:
            raise Violation("lens tree: (%d, %d) is not an edge of the cluster's graph" % (x, y), "lens-edge")
        if w != max(lens[x], lens[y]):
            raise Violation("lens tree: edge (%d, %d) has weight %r, lens values are %r and %r" % (
                x, y, w, lens[x], lens[y]), "lens-weight")
    got = sorted(tree[:, 2].tolist())
    want = forest_weights(pts, edges, lens)
    if got != want:
        raise Violation("lens tree has weights %s, minimal are %s" % (got, want), "lens-minimal")


def check_partition(labels, keys, what, key):
    """labels: -1 exactly where keys is None, otherwise one number per key, numbers 0, 1, ..."""
    m, back = {}, {}
    for i, (l, k) in enumerate(zip(labels, keys)):
        if (l == -1) != (k is None):
            raise Violation("%s: sample %d has label %d: %s, groups %s" % (what, i, l, labels, keys), key + "-noise")
        if k is not None and (m.setdefault(k, l) != l or back.setdefault(l, k) != k):
            raise Violation("%s: labels %s, groups %s" % (what, labels, keys), key)
    if sorted(back) != list(range(len(back))):
        raise Violation("%s: labels %s are not consecutive" % (what, sorted(back)), key + "-numbers")


def propagate(pts, edges, lens, sub):
    """Weighted majority votes in the order of samples.  None if a vote is too close to call."""
    pos = {p: i for i, p in enumerate(pts)}
    sub = list(sub)
    nb = [[] for _ in pts]
    for a, b in edges:
        w = max(lens[a], lens[b])
        v = INF if w == 0 else 1.0 / w
        nb[pos[a]].append((pos[b], v))
        nb[pos[b]].append((pos[a], v))
    start = list(sub)
    for _ in range(len(pts) + 1):
        todo = [i for i in range(len(pts)) if sub[i] == -1]
        if not todo:
            break
        for i in todo:
            votes = {}
            for j, v in nb[i]:
                if sub[j] != -1:
                    votes[sub[j]] = votes.get(sub[j], 0.0) + v
            if votes:
                best = sorted(votes.values(), reverse=True)
                if len(best) > 1 and not best[0] > best[1] * (1 + 1e-6):
                    return None
                sub[i] = max(votes, key=votes.get)
    return sub


def check_propagated(labels, subs, g, lens, sub0, cl, n, branch, ctx):
    """labels, subs: result.  branch: None or (threshold, connected flags)."""
    keys = [None] * n
    for c, (pts, edges) in enumerate(g.clusters):
        before = [sub0[p] for p in pts]
        after = [subs[p] for p in pts]
        groups = sorted(set(before) - {-1})
        for p, x, y in zip(pts, before, after):
            if groups and y not in groups:
                raise Violation("propagation: sample %d of cluster %d gets group %d of %s" % (p, c, y, groups), "propagate-group")
            if x != -1 and y != x:
                raise Violation("propagation: sample %d moves from group %d to %d" % (p, x, y), "propagate-moved")
        if groups:
            want = propagate(pts, edges, lens, before)
            if want is None:
                ctx.count("close_votes")
            elif want != after:
                raise Violation("propagation: groups %s, majority votes give %s (from %s)" % (after, want, before), "propagate-vote")
        one = not groups or (branch is not None and len(groups) <= branch[0] and branch[1][c])
        for p, y in zip(pts, after):
            keys[p] = (c, None if one else y)
    check_partition(labels, keys, "propagated labels", "propagate")


def ints(a):
    return [int(x) for x in a]


def floats(a):
    return [float(x) for x in a]


def run(c, ctx):
    from fast_hdbscan.sub_clusters import SubClusterDetector
    from fast_hdbscan.branches import BranchDetector

    rows, ms, fit, labels, lens, (mcs, method, single, eps), how = c
    n = len(rows)
    est = fitted(rows, ms, **dict(fit))
    cl = list(labels) if labels is not None else ints(est.labels_)
    if max(cl) < 0:
        return
    fin = [all(math.isfinite(x) for x in r) for r in rows]
    sizes = [cl.count(k) for k in range(max(cl) + 1)]
    if min(sizes) < 2 and os.environ.get("NUMBA_DISABLE_JIT") != "1":
        ctx.count("left_to_singles_space")
        return
    apart = any(x[2] == INF for x in np.asarray(est.single_linkage_tree_.to_numpy()).tolist()) and all(fin)
    try:
        judge(c, est, cl, fin, SubClusterDetector, BranchDetector, ctx)
    except (Violation, IndexError, ValueError, KeyError) as e:
        if apart:
            ctx.known("zero-density-samples", "%s: %s" % (type(e).__name__, e))
        elif min(sizes) < 2 and isinstance(e, IndexError):
            ctx.known("one-sample-cluster", "%s: %s" % (type(e).__name__, e))
        else:
            raise
    ctx.state(c)
    ctx.trace()


def judge(c, est, cl, fin, SubClusterDetector, BranchDetector, ctx):
    rows, ms, fit, labels, lens, (mcs, method, single, eps), how = c
    n = len(rows)
    g = Graph(est, rows, ms, cl)
    kw = dict(min_cluster_size=mcs, cluster_selection_method=method, allow_single_cluster=single,
              cluster_selection_epsilon=eps)
    ws = None
    args = {}
    if labels is not None:
        args["labels"] = np.array(labels)
        prob = [1.0] * n
        if how == "strengths":
            prob = [0.0 if l < 0 else (0.25, 0.5, 1.0)[i % 3] for i, l in enumerate(labels)]
            args["probabilities"] = np.array(prob, dtype=np.float32)
    else:
        prob = floats(est.probabilities_)
    if how == "weights":
        ws = [0.5 + (i * 3) % 4 * 0.25 for i in range(n)]
        args["sample_weight"] = np.array(ws)
    branch = lens == "branch"
    if branch:
        det = BranchDetector(max_cluster_size=INF, label_sides_as_branches=how == "sides",
                             propagate_labels=how == "propagate", **kw)
        det.fit(est, **args)
        got = floats(det.lens_values_)
        for pts, _ in g.clusters:
            mass = sum(prob[p] for p in pts)
            mid = [sum(prob[p] * rows[p][k] for p in pts) / mass for k in range(len(rows[0]))]
            for p in pts:
                d = math.dist(rows[p], mid)
                want = INF if d == 0 else 1 / d
                if d > 1e-9 and not math.isclose(got[p], want, rel_tol=1e-5):
                    raise Violation("centrality of sample %d is %r, expected %r" % (p, got[p], want), "centrality")
        lens = got
        if floats(det.centralities_) != got or ints(det.branch_labels_) != ints(det.sub_cluster_labels_):
            raise Violation("branch results differ from the sub-cluster results", "branch-names")
    elif how == "callback":
        vals = np.array(lens)
        det = SubClusterDetector(max_cluster_size=INF, **kw).fit(
            est, lens_callback=lambda data, p, nb, core, mst, pts: vals[pts], **args)
    elif how == "propagate":
        det = SubClusterDetector(max_cluster_size=INF, lens_values=np.array(lens), propagate_labels=True, **kw).fit(est, **args)
    else:
        det = SubClusterDetector(max_cluster_size=INF, lens_values=np.array(lens), **kw).fit(est, **args)
    lens = list(lens)
    lab, pr = ints(det.labels_), floats(det.probabilities_)
    sub, sp = ints(det.sub_cluster_labels_), floats(det.sub_cluster_probabilities_)
    if not (len(lab) == len(pr) == len(sub) == len(sp) == n):
        raise Violation("results of length %s for %d samples" % ([len(lab), len(pr), len(sub), len(sp)], n), "lengths")
    pl = [ints(p) for p in det.cluster_points_]
    if [sorted(p) for p in pl] != [p for p, _ in g.clusters]:
        raise Violation("samples per cluster %s, expected %s" % (pl, [p for p, _ in g.clusters]), "points")
    for i in range(n):
        if cl[i] >= 0 and float(det.lens_values_[i]) != lens[i]:
            raise Violation("lens value of sample %d is %r, given %r" % (i, det.lens_values_[i], lens[i]), "lens")
    if ints(det.cluster_labels_) != cl:
        raise Violation("cluster labels %s, given %s" % (list(det.cluster_labels_), cl), "cluster-labels")
    # graphs
    nodes, edges = det.approximation_graph_.to_numpy()
    seen = set()
    for r in edges:
        a, b = int(r["parent"]), int(r["child"])
        e = (min(a, b), max(a, b))
        if cl[a] != cl[b] or cl[a] < 0 or e not in g.clusters[cl[a]][1]:
            raise Violation("graph: (%d, %d) is not an edge between neighbours of one cluster" % (a, b), "graph-edge")
        seen.add(e)
        if float(r[2]) != max(lens[a], lens[b]):
            raise Violation("graph: edge (%d, %d) has lens value %r" % (a, b, float(r[2])), "graph-lens")
        if ms > 1 and not fit and not math.isclose(float(r[3]), max(g.core[a], g.core[b], g.d(a, b)), rel_tol=1e-5):
            raise Violation("graph: edge (%d, %d) has distance %r, mutual reachability is %r" % (
                a, b, float(r[3]), max(g.core[a], g.core[b], g.d(a, b))), "graph-distance")
    listed = []
    for k, p in enumerate(pl):
        at = {x: i for i, x in enumerate(p)}
        listed.append([[] for _ in p])
        for r in edges:
            if int(r["parent"]) in at:
                listed[-1][at[int(r["parent"])]].append((at[int(r["child"])], float(r[2])))
    miss = set().union(*[e for _, e in g.clusters]) - seen
    if miss:
        raise Violation("graph: edges %s are missing" % sorted(miss), "graph-missing")
    # groups per cluster
    trees = [np.array(t.to_numpy()) for t in det.spanning_trees_]
    connected = []
    done = how == "propagate"
    if done:
        base = (BranchDetector(max_cluster_size=INF, **kw) if branch else
                SubClusterDetector(max_cluster_size=INF, lens_values=np.array(lens), **kw)).fit(est, **args)
        sub0, pr0, sp0 = ints(base.sub_cluster_labels_), floats(base.probabilities_), floats(base.sub_cluster_probabilities_)
    else:
        sub0, pr0, sp0 = sub, pr, sp
    for k, (pts, es) in enumerate(g.clusters):
        connected.append(check_cluster(pts, es, lens, trees[k], [sub0[p] for p in pts], [sp0[p] for p in pts],
                                       dict(kw, max_cluster_size=INF), ws, listed[k], k in g.unlinked, ctx) == 1)
        ctx.trans(len(es))
    # aggregation
    limit = (1 if how == "sides" else 2) if branch else None
    keys, want = [None] * n, [prob[i] if cl[i] < 0 else None for i in range(n)]
    for k, (pts, _) in enumerate(g.clusters):
        few = branch and len(set(sub0[p] for p in pts) - {-1}) <= limit and connected[k]
        for p in pts:
            keys[p] = (k, None if few else sub0[p])
            want[p] = prob[p] if few else (prob[p] + sp0[p]) / 2
    if not done:
        check_partition(lab, keys, "labels", "labels")
        for i in range(n):
            if not math.isclose(pr[i], want[i], rel_tol=1e-5, abs_tol=1e-7) or not 0 <= pr[i] <= 1:
                raise Violation("strength of sample %d is %r, expected %r" % (i, pr[i], want[i]), "strengths")
        if how in ("plain", "sides") and ms:
            judge_propagated(lambda: det.propagated_labels(), g, lens, sub0, cl, n,
                             None if not branch else (limit, connected), ctx)
    else:
        judge_propagated(lambda: (lab, sub), g, lens, sub0, cl, n, None if not branch else (limit, connected), ctx)


def zero_votes(g, lens, sub0):
    return any(max(lens[a], lens[b]) == 0 and -1 in (sub0[a], sub0[b]) for pts, es in g.clusters
               if len(set(sub0[p] for p in pts)) > 1 for a, b in es)


def judge_propagated(call, g, lens, sub0, cl, n, branch, ctx):
    none = any(all(sub0[p] == -1 for p in pts) for pts, _ in g.clusters)
    try:
        labels, subs = call()
        check_propagated(ints(labels), ints(subs), g, lens, sub0, cl, n, branch, ctx)
    except ZeroDivisionError as e:
        if not zero_votes(g, lens, sub0):
            raise
        ctx.known("zero-lens-votes", str(e))
    except Violation as v:
        if not (none and branch is None and (v.key or "").startswith("propagate") and v.key not in (
                "propagate-vote", "propagate-moved", "propagate-group")):
            raise
        ctx.known("propagation-without-groups", v.msg)


def classify(space, case, key, msg):
    # propagate_labels=True fails inside the fit
    if key == "raise:ZeroDivisionError" and case[6] == "propagate" and isinstance(case[4], tuple) and 0 in case[4]:
        return "zero-lens-votes"
    return None


def run_function(c, ctx):
    from fast_hdbscan import find_branch_sub_clusters
    from fast_hdbscan.branches import BranchDetector

    rows, ms, sides = c
    est = fitted(rows, ms)
    if max(est.labels_) < 0:
        return
    try:
        res = find_branch_sub_clusters(est, label_sides_as_branches=sides)
    except TypeError as e:
        return ctx.known("find-branch-sub-clusters", "TypeError: %s" % e)
    det = BranchDetector(label_sides_as_branches=sides).fit(est)
    for i, a in enumerate(("labels_", "probabilities_", "cluster_labels_", "cluster_probabilities_",
                           "sub_cluster_labels_", "sub_cluster_probabilities_")):
        if floats(res[i]) != floats(getattr(det, a)):
            raise Violation("%s of the function and of the detector differ" % a, "function")
    ctx.state(c)
    ctx.trace()


def run_defaults(c, ctx):
    """A detector that is given no parameters uses those of the clusterer."""
    from mc import sut
    from fast_hdbscan.sub_clusters import SubClusterDetector
    from fast_hdbscan.branches import BranchDetector

    rows, ls, lens, (mcs, mx, single, method) = c
    kw = dict(min_cluster_size=mcs, max_cluster_size=mx, allow_single_cluster=single, cluster_selection_method=method)
    try:
        est = sut.HDBSCAN(min_samples=2, **kw).fit(np.array(rows, dtype=float))
    except KeyError:
        if mx == INF:
            raise
        return ctx.count("refused_by_recorded_keyerror")  # C09
    if lens == "branch":
        dets = [BranchDetector(), BranchDetector(**kw)]
    else:
        dets = [SubClusterDetector(lens_values=np.array(lens, dtype=float), **more) for more in (
            dict(allow_single_cluster=None, cluster_selection_method=None), kw)]
    try:
        b = dets[1].fit(est, labels=np.array(ls))
    except KeyError:
        if mx == INF:
            raise
        return ctx.count("refused_by_recorded_keyerror")  # C09
    a = dets[0].fit(est, labels=np.array(ls))
    for name in ("labels_", "probabilities_", "sub_cluster_labels_", "sub_cluster_probabilities_"):
        if floats(getattr(a, name)) != floats(getattr(b, name)):
            raise Violation("%s is %s, with the clusterer's %s given explicitly %s" % (
                name, floats(getattr(a, name)), kw, floats(getattr(b, name))), "defaults")
    ctx.state(c, tuple(floats(a.labels_)))
    ctx.trans(2)
    ctx.trace(2)


def run_thresholds(c, ctx):
    """Thresholds of the detector act on the lens tree of each cluster."""
    from mc import sut
    from fast_hdbscan.sub_clusters import SubClusterDetector
    from fast_hdbscan.branches import BranchDetector

    rows, ls, lens, mcs, more = c
    n = len(rows)
    est = fitted(rows, 2)
    kw = dict(min_cluster_size=mcs, max_cluster_size=INF)
    make = (lambda **k: BranchDetector(allow_single_cluster=False, cluster_selection_method="eom", **k)) \
        if lens == "branch" else (lambda **k: SubClusterDetector(lens_values=np.array(lens, dtype=float), **k))
    det = make(**kw).fit(est, labels=np.array(ls))
    trees = [np.array(t.to_numpy()) for t in det.spanning_trees_]
    for tree, pts in zip(trees, det.cluster_points_):
        if len(tree) < len(pts) - 1:
            return ctx.count("unconnected")
        ct = sut.clusters_from_spanning_tree(tree, **kw)[3]
        if not R.has_split(O.ctree_rows(ct), len(pts)):
            return ctx.count("left_to_no_split_space")  # C09
    more = dict(more)
    got = make(**kw, **more).fit(est, labels=np.array(ls))
    sub, sp = ints(got.sub_cluster_labels_), floats(got.sub_cluster_probabilities_)
    for tree, pts in zip(trees, det.cluster_points_):
        labels, strengths, _, _, _ = sut.clusters_from_spanning_tree(tree, **kw, **more)
        if [sub[p] for p in pts] != ints(labels) or [sp[p] for p in pts] != floats(strengths):
            raise Violation("%s: groups %s %s, clustering of the lens tree gives %s %s" % (
                more, [sub[p] for p in pts], [sp[p] for p in pts], ints(labels), floats(strengths)), "groups")
    ctx.state(c, tuple(sub))
    ctx.trans(len(trees))
    ctx.trace()


LINE = {
    5: ((0.0, 1.0, 3.0, 7.0, 12.0), (12.0, 0.0, 7.0, 1.0, 3.0)),
    6: ((0.0, 1.0, 3.0, 7.0, 12.0, 20.0), (7.0, 0.0, 20.0, 1.0, 12.0, 3.0), (0.0, 1.0, 3.0, 40.0, 42.0, 47.0)),
    10: ((0.0, 1.0, 3.0, 7.0, 12.0, 20.0, 31.0, 33.0, 37.0, 44.0), (31.0, 0.0, 12.0, 44.0, 3.0, 33.0, 1.0, 20.0, 37.0, 7.0)),
    8: ((0.0, 1.0, 3.0, 7.0, 40.0, 41.5, 44.0, 52.0), (40.0, 0.0, 7.0, 41.5, 1.0, 52.0, 44.0, 3.0)),
}


def star(arms, length, shift=0.0):
    """Arms of slightly different pace around a centre."""
    out = [(shift, 0.0)]
    for a in range(arms):
        t = 2 * math.pi * a / arms + 0.1
        for k in range(1, length + 1):
            r = k * (1 + 0.03 * a) + 0.07 * k * k * (a + 1) / arms
            out.append((round(shift + r * math.cos(t), 3), round(r * math.sin(t), 3)))
    return out


def build(tier):
    T = tier == "thorough"
    line = lambda p: tuple((v,) for v in p)
    PL = (2, "eom", False, 0.0)
    PARAMS = [PL, (2, "leaf", False, 0.0), (3, "eom", False, 0.0), (2, "eom", True, 0.0), (2, "leaf", False, 2.5)]

    def valid(ls):
        return max(ls) >= 0 and set(range(max(ls) + 1)) <= set(ls)

    A = [(line(p), ms, (), (0,) * len(p), tuple(float(x) for x in l), pr, how) for k in (5, 6) for p in LINE[k][:2] for ms in (1, 2)
         for l in itertools.permutations(range(1, k + 1)) for pr in (PARAMS if T else PARAMS[:3]) for how in ("plain",)]
    lens6 = [(1, 2, 3, 4, 5, 6), (6, 1, 5, 2, 4, 3), (2, 1, 6, 5, 1, 2), (1, 1, 1, 1, 1, 1), (1, 8, 1, 8, 1, 8), (0, 0, 3, 3, 0, 0),
             (4, 2, 8, 1, 2, 4)]
    B = [(line(p), ms, (), ls, tuple(float(x) for x in l), pr, how)
         for p in LINE[6] for ms in (1, 2) for ls in itertools.product((-1, 0, 1), repeat=6) if valid(ls)
         for l in lens6 for pr in (PARAMS[:2] if T else PARAMS[:1]) for how in ("plain", "strengths")]
    C = [(line(p), ms, (), (0,) * 6, tuple(float(x) for x in l), pr, "plain") for p in LINE[6][:2] for ms in (1, 2)
         for l in itertools.product((0, 1, 2) if not T else (0, 1, 2, 3), repeat=6) for pr in PARAMS]
    lens8 = [tuple(float(x) for x in l) for l in
             [(1, 2, 3, 4, 5, 6, 7, 8), (1, 5, 2, 6, 3, 7, 4, 8), (2, 2, 9, 2, 2, 9, 2, 2), (1, 9, 1, 9, 1, 9, 1, 9),
              (9, 1, 1, 1, 9, 1, 1, 1), (3, 1, 4, 1, 5, 9, 2, 6), (0, 0, 1, 1, 0, 0, 1, 1)]]
    D = [(line(p), ms, (), ls, l, pr, how) for p in LINE[8] for ms in (1, 2, 3)
         for ls in (None, (0,) * 8, (0, 0, 0, 0, 1, 1, 1, 1), (1, 1, 0, 0, 0, 0, 1, 1), (0, 0, 1, 1, 2, 2, 3, 3), (-1, 0, 0, 0, 0, 0, -1, 0),
                    (2, 1, 0, 2, 1, 0, 2, 1))
         for l in lens8 for pr in PARAMS for how in ("plain", "strengths", "callback", "propagate", "weights")
         if not (how == "strengths" and ls is None)]
    lens10 = [(1, 1, 1, 5, 1, 1, 1, 9, 0, 0), (0, 0, 1, 5, 1, 0, 1, 9, 0, 0), (1, 1, 1, 9, 0, 0, 9, 1, 1, 1), (0, 0, 0, 9, 0, 0, 9, 0, 0, 0), (1, 2, 1, 7, 3, 3, 8, 1, 2, 1), (4, 1, 1, 1, 9, 1, 1, 1, 4, 0)]
    H = []
    for p in LINE[10]:
        order = sorted(range(10), key=lambda i: p[i])
        for l in lens10:
            v = [0.0] * 10
            for k, i in enumerate(order):
                v[i] = float(l[k])
            H += [(line(p), ms, (), (0,) * 10, tuple(v), pr, how) for ms in (1, 2) for pr in PARAMS for how in ("plain", "propagate")]
    stars = []
    for arms in (1, 2, 3, 4, 5):
        for length in (3, 4, 5):
            s = star(arms, length)
            stars.append((tuple(s), None))
            stars.append((tuple(s[::-1]), None))
            two = s + star(3, 4, 100.0)
            stars.append((tuple(two), None))
            stars.append((tuple(two), tuple([0] * len(s) + [1] * (len(two) - len(s)))))
    E = [(s, ms, (), ls, "branch", pr, how) for s, ls in stars for ms in (2, 3, 4) for pr in PARAMS
         for how in ("plain", "sides", "propagate", "weights")]
    bad = []
    for p in LINE[8]:
        r = [(v, 0.0) for v in p]
        for places in ((0,), (4,), (8,), (0, 1), (2, 7), (0, 4, 9)):
            x = list(r)
            for q in places:
                x.insert(q, (NAN, 1.0) if q % 2 else (INF, INF))
            bad.append(tuple(x))
    F = [(r, ms, (), None, l, pr, how) for r in bad for ms in (1, 2, 3) for pr in PARAMS[:3] for how in ("plain", "propagate", "weights")
         for l in [tuple(float((i * 5) % 7 + 1) for i in range(len(r))), tuple(float(i + 1) for i in range(len(r))), "branch"]]
    G = [(line(p), ms, (("apart", ap),), ls, l, PL, how) for p in LINE[8] for ms in (1, 2)
         for ap in (((0, 5),), ((0, 4), (1, 5)), tuple((a, b) for a in range(4) for b in range(4, 8)))
         for ls in (None, (0, 0, 0, 0, 1, 1, 1, 1)) for l in lens8[:4] for how in ("plain", "propagate")]
    S = [(line(LINE[6][0]), ms, (), ls, tuple(float(x) for x in l), PL, "plain") for ms in (1, 2)
         for ls in itertools.product((-1, 0, 1), repeat=6) if valid(ls) and min(ls.count(k) for k in range(max(ls) + 1)) == 1
         for l in lens6[:1]]
    V = [(line(p), ls, l, kw) for p in LINE[10] for ls in ((0,) * 10, (-1,) + (0,) * 9)
         for l in lens10 + ["branch"]
         for kw in itertools.product((2, 3, 4), (INF, 2, 3, 4, 6), (False, True), ("eom", "leaf"))]
    W = [(line(p), ls, l, mcs, more) for p in LINE[10] for ls in ((0,) * 10, (-1,) + (0,) * 9)
         for l in lens10 + ["branch"] for mcs in (2, 3)
         for more in [(("cluster_selection_persistence", x),) for x in (0.03125, 0.0625, 0.125, 0.25, 0.5, 1.0)]
         + [(("cluster_selection_persistence", 0.125), ("cluster_selection_epsilon", 2.5))]]
    R = [(s, ms, sides) for s, ls in stars if ls is None for ms in (2, 3) for sides in (False, True)]

    def listed(name, cs, fn, note, chunk=24, mode="jit"):
        return Space(name, len(cs), lambda i: cs[i], fn, chunk=chunk, note=note, mode=mode)

    return [
        listed("orders", A, run, "every order of lens values on 5 and 6 samples"),
        listed("labelings", B, run, "every assignment of 6 samples to noise and up to two clusters"),
        listed("ties", C, run, "every lens of 6 samples with few values"),
        listed("groups", D + H, run, "several clusters, strengths, weights, callbacks, propagation"),
        listed("branches", E, run, "stars with one to five arms"),
        listed("bad-rows", F, run, "rows with missing values"),
        listed("apart", G, run, "clusterers with cannot-link constraints"),
        listed("singles", S, run, "clusters of one sample", mode="interp", chunk=8),
        listed("defaults", V, run_defaults, "parameters taken from the clusterer"),
        listed("thresholds", W, run_thresholds, "persistence thresholds of the detectors"),
        listed("function", R, run_function, "the function form", chunk=4),
    ]
