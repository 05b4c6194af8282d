"""Independent references.  Point sets are Python ints used as bit masks; nothing here imports the package.

Each function judges one stage of the pipeline relative to the actual output of the stage before it and raises
`Violation` on disagreement.  Where ties allow several correct results, every one of them is accepted.
"""
import math

import numpy as np

from .core import Violation

INF = float("inf")
RTOL = 2e-6


def close(a, b, rtol=RTOL):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= rtol * max(abs(a), abs(b))


def popcount(m):
    return bin(m).count("1")


def bits(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1


class DSU:
    def __init__(self, n):
        self.p = list(range(n))

    def find(self, x):
        while self.p[x] != x:
            self.p[x] = self.p[self.p[x]]
            x = self.p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.p[b] = a
        return True


def components(n, pairs):
    d = DSU(n)
    for a, b in pairs:
        d.union(a, b)
    return [d.find(i) for i in range(n)]


def partition_of(labels):
    """Canonical partition: label of i = smallest index with the same label."""
    first = {}
    return tuple(first.setdefault(l, i) for i, l in enumerate(labels))


# ---------------------------------------------------------------- distances

def pair_distances(X):
    X = np.asarray(X, dtype=np.float64)
    d = X[:, None, :] - X[None, :, :]
    return np.sqrt((d * d).sum(-1))


def core_from_distances(D, min_samples):
    n = D.shape[0]
    if min_samples <= 1:
        return np.zeros(n)
    out = np.empty(n)
    for i in range(n):
        o = np.sort(np.delete(D[i], i))
        out[i] = o[min_samples - 1] if min_samples - 1 < n - 1 else INF
    return out


def mrd_matrix(D, core):
    return np.maximum(D, np.maximum(core[:, None], core[None, :]))


def mst_weight_list(W, pairs=None):
    """Sorted weights of a minimum spanning forest (Kruskal); finite edges only when pairs are given."""
    n = len(W)
    if pairs is None:
        if n > 12:
            return prim_weight_list(np.asarray(W))
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    W = np.asarray(W)
    es = sorted((float(W[i, j]), i, j) for i, j in pairs)
    d = DSU(n)
    out = []
    for w, i, j in es:
        if d.union(i, j):
            out.append(w)
    return out


def prim_weight_list(W):
    n = len(W)
    left = np.ones(n, dtype=bool)
    left[0] = False
    best = W[0].astype(np.float64).copy()
    best[0] = INF
    out = []
    for _ in range(n - 1):
        cand = np.where(left)[0]
        v = cand[np.argmin(best[cand])]
        out.append(float(best[v]))
        left[v] = False
        np.minimum(best, W[v], out=best)
    return sorted(out)


def edge_array(edges, n):
    e = np.asarray(edges)
    if e.ndim != 2 or e.shape[0] != n - 1 or e.shape[1] != 3:
        raise Violation("spanning tree has shape %s for %d samples" % (e.shape, n), "mst-shape")
    return e


def check_tree_edges(edges, n):
    """n-1 edges, valid distinct endpoints, connected.  Returns list of (a, b, w)."""
    e = edge_array(edges, n)
    out = []
    d = DSU(n)
    for a, b, w in e.tolist():
        if a != int(a) or b != int(b) or not (0 <= a < n) or not (0 <= b < n):
            raise Violation("edge (%s, %s, %s): endpoint is not a sample (n=%d)" % (a, b, w, n), "mst-endpoint")
        if not d.union(int(a), int(b)):
            raise Violation("edges do not form a tree: (%s, %s) closes a cycle" % (a, b), "mst-cycle")
        if math.isnan(w):
            raise Violation("edge weight is NaN", "mst-nan")
        out.append((int(a), int(b), w))
    return out


def check_mst(edges, W, n, rtol=RTOL, exp=None):
    """Exact minimum spanning tree of the dense weight matrix W (nested lists or array)."""
    es = check_tree_edges(edges, n)
    for a, b, w in es:
        if not close(w, float(W[a][b]), rtol):
            raise Violation("edge (%d, %d) has weight %r, mutual reachability distance is %r" % (a, b, w, float(W[a][b])),
                            "mst-weight")
    got = sorted(w for _, _, w in es)
    if exp is None:
        exp = mst_weight_list(W)
    for g, x in zip(got, exp):
        if not close(g, x, rtol):
            raise Violation("edge weights %s, a minimum spanning tree has %s" % (got, exp), "mst-not-minimal")
    return es


def check_forest(edges, W, pairs, n, rtol=RTOL):
    """Minimum spanning forest of the graph `pairs` weighted by W, completed to a tree by infinite edges."""
    es = check_tree_edges(edges, n)
    finite_pairs = [(i, j) for i, j in pairs if math.isfinite(W[i, j])]
    allowed = set((min(p), max(p)) for p in finite_pairs)
    fin = [(a, b, w) for a, b, w in es if math.isfinite(w)]
    for a, b, w in fin:
        if (min(a, b), max(a, b)) not in allowed:
            raise Violation("finite edge (%d, %d, %r) joins samples that the graph does not join" % (a, b, w),
                            "forest-edge")
        if not close(w, float(W[a, b]), rtol):
            raise Violation("edge (%d, %d) has weight %r, mutual reachability distance is %r" % (a, b, w, float(W[a, b])),
                            "forest-weight")
    got = sorted(w for _, _, w in fin)
    exp = mst_weight_list(W, finite_pairs)
    if len(got) != len(exp):
        raise Violation("%d finite edges, the graph has a spanning forest of %d edges" % (len(got), len(exp)),
                        "forest-count")
    for g, x in zip(got, exp):
        if not close(g, x, rtol):
            raise Violation("finite edge weights %s, a minimum spanning forest has %s" % (got, exp),
                            "forest-not-minimal")
    return es


# ---------------------------------------------------------------- single linkage

def check_linkage(L, edges, n, weights=None):
    """The merges describe the spanning tree.  Returns masks per node id."""
    L = np.asarray(L)
    if L.shape != (n - 1, 4):
        raise Violation("single linkage tree has shape %s for %d samples" % (L.shape, n), "linkage-shape")
    rows = L.tolist()
    es = sorted(((w, int(a), int(b)) for a, b, w in np.asarray(edges).tolist()), key=lambda t: t[0])
    node = {i: 1 << i for i in range(n)}
    used = set()
    mass = {i: (1.0 if weights is None else float(weights[i])) for i in range(n)}
    prev = -INF
    dsu = DSU(n)
    ptr = 0
    for i, (a, b, d, size) in enumerate(rows):
        if d < prev or math.isnan(d):
            raise Violation("merge distances decrease: %r after %r" % (d, prev), "linkage-order")
        if not close(d, es[i][0], 1e-9):
            raise Violation("merge %d at distance %r, sorted spanning tree weights have %r" % (i, d, es[i][0]),
                            "linkage-distance")
        a, b = int(a), int(b)
        if a == b or a not in node or b not in node or a in used or b in used:
            raise Violation("merge %d joins %d and %d, which are not two current groups" % (i, a, b), "linkage-groups")
        used.add(a)
        used.add(b)
        m = node[a] | node[b]
        node[n + i] = m
        mass[n + i] = mass[a] + mass[b]
        if not close(float(size), mass[n + i], 1e-5):
            raise Violation("merge %d has size %r, its samples amount to %r" % (i, size, mass[n + i]), "linkage-size")
        prev = d
        # at the end of a run of equal distances the groups are the components of the edges so far
        if i == n - 2 or rows[i + 1][2] != d:
            while ptr < len(es) and es[ptr][0] <= d:
                dsu.union(es[ptr][1], es[ptr][2])
                ptr += 1
            groups = {}
            for p in range(n):
                r = dsu.find(p)
                groups[r] = groups.get(r, 0) | (1 << p)
            cur = set(node[k] for k in node if k not in used)
            if cur != set(groups.values()):
                raise Violation("groups after merging at distance %r are %s, spanning tree edges connect %s" % (
                    d, sorted(cur), sorted(groups.values())), "linkage-partition")
    return node


def cut_partition(edges, n, cut, min_size):
    """Expected labels of a cut up to renaming: list of group id or -1."""
    comp = components(n, [(int(a), int(b)) for a, b, w in np.asarray(edges).tolist() if w < cut])
    cnt = {}
    for c in comp:
        cnt[c] = cnt.get(c, 0) + 1
    return [c if cnt[c] >= min_size else -1 for c in comp]


def check_same_grouping(got, exp, what, key):
    """Same partition of the non-noise samples, same noise, labels consecutive from zero."""
    got = [int(x) for x in got]
    if len(got) != len(exp):
        raise Violation("%s: %d labels for %d samples" % (what, len(got), len(exp)), key)
    fw, bw = {}, {}
    for i, (g, e) in enumerate(zip(got, exp)):
        if (g == -1) != (e == -1) or (g != -1 and (fw.setdefault(g, e) != e or bw.setdefault(e, g) != g)):
            raise Violation("%s: labels %s, expected grouping %s" % (what, got, list(exp)), key)
    used = sorted(set(got) - {-1})
    if used != list(range(len(used))):
        raise Violation("%s: labels in use are %s, not consecutive from zero" % (what, used), key + "-gap")


# ---------------------------------------------------------------- condensed tree

class CTree:
    """Canonical condensed tree.  clusters: id -> Cluster; ids are arbitrary, root is `root`."""

    def __init__(self):
        self.root = None
        self.birth = {}     # id -> density at birth (0 for the root)
        self.parent = {}    # id -> parent id or None
        self.children = {}  # id -> list of ids
        self.points = {}    # id -> list of (point, density)
        self.size = {}      # id -> mass
        self.mask = {}      # id -> bit mask of all samples below

    def add(self, cid, parent, birth, size):
        self.birth[cid] = birth
        self.parent[cid] = parent
        self.children[cid] = []
        self.points[cid] = []
        self.size[cid] = size
        if parent is not None:
            self.children[parent].append(cid)

    def finish(self):
        def rec(c):
            m = 0
            for p, _ in self.points[c]:
                m |= 1 << p
            for k in self.children[c]:
                m |= rec(k)
            self.mask[c] = m
            return m

        rec(self.root)
        return self

    def canonical(self):
        pts = {}
        for c in self.points:
            for p, l in self.points[c]:
                pts[p] = (self.mask[c], l)
        cl = {self.mask[c]: (self.mask[self.parent[c]] if self.parent[c] is not None else None, self.birth[c])
              for c in self.birth}
        return pts, cl

    def descendants(self, c):
        out = []
        stack = list(self.children[c])
        while stack:
            x = stack.pop()
            out.append(x)
            stack.extend(self.children[x])
        return out

    def ancestors(self, c):
        out = []
        while self.parent[c] is not None:
            c = self.parent[c]
            out.append(c)
        return out


def density(d):
    if d == 0:
        return INF
    if math.isinf(d):
        return 0.0
    return float(np.float32(1.0 / d))


def condense_reference(L, n, mcs, weights=None, lam=density):
    """Condensed tree of the linkage L by its definition.  A lone sample is never a cluster."""
    rows = np.asarray(L).tolist()
    mass = {i: (1.0 if weights is None else float(weights[i])) for i in range(n)}
    pts = {i: [i] for i in range(n)}
    kids = {}
    for i, (a, b, d, s) in enumerate(rows):
        a, b = int(a), int(b)
        kids[n + i] = (a, b, d)
        mass[n + i] = mass[a] + mass[b]
        pts[n + i] = pts[a] + pts[b]
    t = CTree()
    t.root = "r"
    t.add("r", None, 0.0, sum(mass[i] for i in range(n)))
    if n == 1:
        return t.finish()
    stack = [(n + len(rows) - 1, "r")]
    nid = 0
    while stack:
        node, c = stack.pop()
        a, b, d = kids[node]
        l = lam(d)
        big = [x for x in (a, b) if x >= n and mass[x] >= mcs]
        if len(big) == 2:
            for x in (a, b):
                nid += 1
                t.add(nid, c, l, mass[x])
                stack.append((x, nid))
        else:
            for x in (a, b):
                if x in big:
                    stack.append((x, c))
                else:
                    for p in pts[x]:
                        t.points[c].append((p, l))
    return t.finish()


def ctree_rows(tree):
    """(parent, child, lambda, size) rows of a named tuple or structured array."""
    if isinstance(tree, np.ndarray):
        return [(int(r["parent"]), int(r["child"]), float(r["lambda_val"]), float(r["child_size"])) for r in tree]
    return [(int(a), int(b), float(c), float(d)) for a, b, c, d in
            zip(tree.parent.tolist(), tree.child.tolist(), tree.lambda_val.tolist(), tree.child_size.tolist())]


def parse_ctree(tree, n, what="condensed tree"):
    """Structural validity of the condensed tree of the implementation.  Returns CTree with its own ids."""
    rows = ctree_rows(tree)
    t = CTree()
    t.root = n
    seen = set()
    ids = set([n])
    for p, c, l, s in rows:
        if c >= n:
            ids.add(c)
        if p < n:
            raise Violation("%s: parent %d is a sample" % (what, p), "ctree-parent")
    info = {}
    for p, c, l, s in rows:
        if p not in ids:
            raise Violation("%s: parent %d is not a cluster of the tree" % (what, p), "ctree-parent")
        if c < 0:
            raise Violation("%s: child %d" % (what, c), "ctree-child")
        if c in seen:
            raise Violation("%s: %s %d leaves twice" % (what, "sample" if c < n else "cluster", c), "ctree-twice")
        seen.add(c)
        if math.isnan(l) or l < 0:
            raise Violation("%s: density %r" % (what, l), "ctree-lambda")
        info[c] = (p, l, s)
    for p in range(n):
        if p not in seen:
            raise Violation("%s: sample %d never leaves" % (what, p), "ctree-missing")
    if n in seen:
        raise Violation("%s: the root is a child" % what, "ctree-root")
    if sorted(ids) != list(range(n, n + len(ids))):
        raise Violation("%s: cluster numbers %s are not consecutive from %d" % (what, sorted(ids), n), "ctree-ids")
    t.add(n, None, 0.0, None)
    todo = sorted(c for c in info if c >= n)
    for c in todo:
        p, l, s = info[c]
        if p >= c:
            raise Violation("%s: cluster %d has parent %d" % (what, c, p), "ctree-order")
        t.add(c, p, l, s)
    for c, (p, l, s) in info.items():
        if c < n:
            t.points[p].append((c, l))
            if s != 1:
                raise Violation("%s: sample %d has size %r" % (what, c, s), "ctree-point-size")
    return t.finish()


def check_ctree_semantics(t, weights=None, what="condensed tree"):
    """Sizes and density order (independent of the linkage)."""
    for c in t.birth:
        if t.parent[c] is not None:
            m = sum(1.0 if weights is None else float(weights[p]) for p in bits(t.mask[c]))
            if not close(m, t.size[c], 1e-5):
                raise Violation("%s: cluster %d has size %r, samples below amount to %r" % (what, c, t.size[c], m),
                                "ctree-size")
        for p, l in t.points[c]:
            if l < t.birth[c]:
                raise Violation("%s: sample %d leaves at density %r, its cluster is born at %r" % (
                    what, p, l, t.birth[c]), "ctree-density")
        for k in t.children[c]:
            if t.birth[k] < t.birth[c]:
                raise Violation("%s: cluster %d born at %r inside one born at %r" % (what, k, t.birth[k], t.birth[c]),
                                "ctree-density")
        if t.children[c]:
            if len(t.children[c]) != 2:
                raise Violation("%s: cluster %d has %d children" % (what, c, len(t.children[c])), "ctree-arity")
            split = t.birth[t.children[c][0]]
            if t.birth[t.children[c][1]] != split:
                raise Violation("%s: children of %d born at different densities" % (what, c), "ctree-split")


def check_ctree_equal(t, ref, what="condensed tree"):
    gp, gc = t.canonical()
    ep, ec = ref.canonical()
    if set(gc) != set(ec):
        raise Violation("%s: clusters %s, expected %s" % (
            what, [list(bits(m)) for m in sorted(gc)], [list(bits(m)) for m in sorted(ec)]), "ctree-clusters")
    for m in gc:
        if gc[m][0] != ec[m][0]:
            raise Violation("%s: cluster %s hangs below the wrong cluster" % (what, list(bits(m))), "ctree-nesting")
        if not close(gc[m][1], ec[m][1], 1e-5):
            raise Violation("%s: cluster %s born at density %r, expected %r" % (what, list(bits(m)), gc[m][1], ec[m][1]),
                            "ctree-birth")
    for p in ep:
        if gp[p][0] != ep[p][0] or not close(gp[p][1], ep[p][1], 1e-5):
            raise Violation("%s: sample %d leaves %s at %r, expected %s at %r" % (
                what, p, list(bits(gp[p][0])), gp[p][1], list(bits(ep[p][0])), ep[p][1]), "ctree-departure")


def simplify_reference(t, threshold, choice=0):
    """Remove the splits in which one side's density range above the split is below the threshold (bottom up).

    When a split is removed both sides dissolve into the parent.  If the more persistent side still has inner
    structure, or if the split joins components at infinite distance, the samples of the other side leave at the
    split density; otherwise every sample keeps its own density.  Returns (tree, ties): where both sides of a
    split at infinite distance are equally persistent either may give way; bit i of `choice` decides the i-th.
    """
    order = []
    stack = [t.root]
    while stack:
        c = stack.pop()
        order.append(c)
        stack.extend(t.children[c])
    children = {c: list(t.children[c]) for c in t.birth}
    points = {c: list(t.points[c]) for c in t.birth}
    top = {}
    ties = 0
    for c in reversed(order):
        ls = [l for _, l in t.points[c]] + [top[k] for k in t.children[c]]
        if t.children[c]:
            ls.append(t.birth[t.children[c][0]])
        top[c] = max(ls) if ls else t.birth[c]
    for c in reversed(order):
        if not t.children[c]:
            continue
        a, b = t.children[c]
        split = t.birth[a]
        lo = min(top[a], top[b])
        if math.isfinite(split) and float(np.float32(lo) - np.float32(split)) >= threshold:
            continue
        win, lose = (b, a) if top[a] <= top[b] else (a, b)
        if top[a] == top[b]:
            if split == 0 and not children[a] and not children[b]:
                if choice >> ties & 1:
                    win, lose = lose, win
                ties += 1
            elif children[lose]:
                win, lose = lose, win
        assert not children[lose]
        if children[win] == [] and split > 0:
            points[c] = points[c] + points[a] + points[b]
        else:
            points[c] = points[c] + [(p, min(l, split)) for p, l in points[lose]] + points[win]
        children[c] = children[win]
    r = CTree()
    r.root = t.root
    stack = [(t.root, None)]
    while stack:
        c, p = stack.pop()
        r.add(c, p, t.birth[c], t.size[c])
        r.points[c] = points[c]
        for k in children[c]:
            stack.append((k, c))
    return r.finish(), ties


def check_simplified(t, base, threshold, what="simplified tree"):
    ref, ties = simplify_reference(base, threshold)
    for choice in range(1 << min(ties, 6)):
        if choice:
            ref, _ = simplify_reference(base, threshold, choice)
        try:
            check_ctree_equal(t, ref, what)
            return
        except Violation as v:
            bad = v
    raise bad


# ---------------------------------------------------------------- cluster selection

def stabilities(t, n_points_mass=None):
    """Excess of mass per cluster; None if not finite (birth or departures at infinite density)."""
    out = {}
    for c in t.birth:
        s = 0.0
        for p, l in t.points[c]:
            s += l - t.birth[c]
        for k in t.children[c]:
            s += t.size[k] * (t.birth[k] - t.birth[c])
        if not math.isfinite(s):
            return None
        out[c] = s
    return out


def eom_reference(t, max_size, allow_single, root_size):
    """Selected clusters (ids) by excess of mass, parent kept on ties."""
    if not t.children[t.root]:
        return []
    st = stabilities(t)
    if st is None:
        return None
    best, pick = {}, {}

    def rec(c):
        tot, sel = 0.0, []
        for k in t.children[c]:
            rec(k)
            tot += best[k]
            sel += pick[k]
        cur = max(st[c], 0.0)
        size = root_size if c == t.root else t.size[c]
        allowed = size <= max_size and (c != t.root or allow_single)
        if not allowed or tot > cur:
            best[c], pick[c] = tot, sel
        else:
            best[c], pick[c] = cur, [c]

    rec(t.root)
    return pick[t.root]


def eom_is_tight(t, max_size, allow_single, root_size):
    """True if some keep/replace decision is so close that rounding may decide it differently."""
    st = stabilities(t)
    if st is None:
        return True
    best = {}
    tight = [False]

    def rec(c):
        tot = 0.0
        for k in t.children[c]:
            rec(k)
            tot += best[k]
        cur = max(st[c], 0.0)
        size = root_size if c == t.root else t.size[c]
        allowed = size <= max_size and (c != t.root or allow_single)
        if t.children[c] and allowed and abs(tot - cur) <= 1e-5 * max(abs(tot), abs(cur)) and tot != cur:
            tight[0] = True
        best[c] = tot if (not allowed or tot > cur) else cur

    rec(t.root)
    return tight[0]


def leaf_reference(t):
    if not t.children[t.root]:
        return []
    return [c for c in t.birth if not t.children[c]]


def epsilon_reference(t, selected, eps):
    """Each selected cluster born below distance eps is replaced by its nearest ancestor born at or above it."""
    if len(selected) <= 1 or eps <= 0:
        return selected
    out = []
    for c in selected:
        x = c

        def born(c):
            return INF if t.birth[c] == 0 else 1.0 / t.birth[c]

        while x != t.root and born(x) < eps:
            x = t.parent[x]
        if x not in out:
            out.append(x)
    return out


# ---------------------------------------------------------------- labels and strengths

def labels_reference(t, selected, eps, n):
    """Expected grouping (cluster id or -1 per sample) for the selected clusters."""
    exp = [-1] * n
    if not selected:
        return exp
    # clusters whose own entries are all at density zero have no members
    sel = set(c for c in selected if any(l > 0 for _, l in t.points[c]) or any(t.birth[k] > 0 for k in t.children[c]))
    if not sel:
        return exp
    if sel == {t.root}:
        rows = [l for _, l in t.points[t.root]] + [t.birth[k] for k in t.children[t.root]]
        top = max(rows)
        limit = 1.0 / eps if eps > 0 else top
        for c in t.points:
            for p, l in t.points[c]:
                if l > 0 and l >= limit:
                    exp[p] = t.root
        return exp
    for c in t.birth:
        x = c
        while x is not None and x not in sel:
            x = t.parent[x]
        if x is None or x == t.root:
            continue
        for p, l in t.points[c]:
            if l > 0:
                exp[p] = x
    return exp


def check_strengths(t, exp, strengths, what="strengths"):
    """strength = departure density / largest direct departure density of the cluster, capped at one."""
    s = [float(x) for x in strengths]
    if len(s) != len(exp):
        raise Violation("%s: %d values for %d samples" % (what, len(s), len(exp)), "strength-shape")
    dep = {}
    for c in t.points:
        for p, l in t.points[c]:
            dep[p] = l
    top = {}
    for c in set(exp):
        if c != -1:
            top[c] = max([l for _, l in t.points[c]] + [0.0])
    for p, c in enumerate(exp):
        if not (0.0 <= s[p] <= 1.0):
            raise Violation("%s: value %r" % (what, s[p]), "strength-range")
        if c == -1:
            if s[p] != 0:
                raise Violation("%s: noise sample %d has strength %r" % (what, p, s[p]), "strength-noise")
            continue
        if top[c] == 0 or math.isinf(dep[p]):
            e = 1.0
        else:
            e = 0.0 if math.isinf(top[c]) else min(dep[p], top[c]) / top[c]
        if abs(s[p] - e) > 1e-5:
            raise Violation("%s: sample %d has strength %r, expected %r" % (what, p, s[p], e), "strength-value")


def check_some_selection(t, labels, eps, n, max_size=INF, root_allowed=True, what="labels"):
    """Every label is one cluster of the tree.  Returns the possible assignments of samples to clusters."""
    groups = {}
    for i, l in enumerate(labels):
        if l >= 0:
            groups[int(l)] = groups.get(int(l), 0) | (1 << i)
    used = sorted(groups)
    if used != list(range(len(used))):
        raise Violation("%s: labels in use are %s, not consecutive from zero" % (what, used), "labels-gap")
    masks = {}
    for c in t.birth:
        exp = labels_reference(t, [c], eps, n)
        m = sum(1 << i for i, e in enumerate(exp) if e != -1)
        masks.setdefault(m, []).append(c)
    options = []
    for l in used:
        cs = [c for c in masks.get(groups[l], [])
              if (c != t.root or (root_allowed and len(used) == 1)) and (c == t.root or t.size[c] <= max_size)]
        if not cs:
            raise Violation("%s: samples %s labelled %d are no cluster of the hierarchy that may be selected" % (
                what, list(bits(groups[l])), l), "labels-cluster")
        options.append(cs)
    if len(options) == 1:
        return [[c if l >= 0 else -1 for l in labels] for c in options[0]]
    sel = {l: cs[0] for l, cs in zip(used, options)}
    return [[sel[int(l)] if l >= 0 else -1 for l in labels]]
