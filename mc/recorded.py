"""What the recorded findings (known_findings.txt) look like from outside.

A check that meets a disagreement asks here whether it is one of those, reproduced to the last detail; any other
disagreement is a violation.  None of this is consulted while the implementation agrees with the references.
"""
import numpy as np

from . import oracle as O

INF = float("inf")


def has_split(rows, n):
    return any(c >= n for _, c, _, _ in rows)


def splits_at_zero(rows, n):
    return any(c >= n and l == 0 for _, c, l, _ in rows)


def simplify(rows, n, threshold):
    """Persistence simplification with its recorded flaws: samples of a branch that was merged earlier keep their
    densities when the branch they went to is merged, and two sides at infinite distance become one leaf."""
    order = [r for r in rows if r[1] >= n]
    nodes = max(c for _, c, _, _ in order) + 1
    leaf = {c: True for c in range(n, nodes)}
    top = {c: 0.0 for c in range(n, nodes)}
    for p, _, _, _ in order:
        leaf[p] = False
    for p, _, l, _ in rows:
        top[p] = l
    goes = {c: c for c in range(n, nodes)}
    dens = {}
    for i in range(len(order) - 1, 0, -2):
        p, b, death, _ = order[i]
        a = order[i - 1][1]
        births = (top[a], top[b])
        top[p] = max(top[p], max(births))
        diff = float(np.float32(min(births)) - np.float32(death))
        if diff >= threshold:
            continue
        win, lose = (b, a) if births[0] <= births[1] else (a, b)
        if leaf[win]:
            leaf[p] = True
        else:
            dens[lose] = death
        goes[a] = goes[b] = p
    for c in range(n, nodes):
        goes[c] = goes[goes[c]]
    skipped = {c: goes[c] != c for c in range(n, nodes)}
    name, k = {}, n
    for c in range(n, nodes):
        if not skipped[c]:
            name[c] = k
            k += 1
    out = []
    for p, c, l, s in rows:
        if c >= n and skipped[c]:
            continue
        out.append((name[goes[p]], name[c] if c >= n else c, dens.get(p, l), s))
    return out


def same_rows(a, b):
    return len(a) == len(b) and all(
        x[0] == y[0] and x[1] == y[1] and O.close(x[2], y[2], 1e-6) and O.close(x[3], y[3], 1e-6)
        for x, y in zip(sorted(a), sorted(b)))


def epsilon(rows, n, selected, eps):
    """Epsilon search with its recorded flaw: the descendants of a cluster include those of the next inner cluster
    when the cluster itself is a leaf, so that unrelated selected clusters count as dealt with."""
    tree = [r for r in rows if r[1] >= n]
    parent = {c: p for p, c, _, _ in tree}
    birth = {c: (1.0 / l if l > 0 else INF) for _, c, l, _ in tree}
    kids = {}
    for p, c, _, _ in tree:
        kids.setdefault(p, []).append(c)
    inner = sorted(kids)

    def branch(s):
        res, todo = set(), {s}
        while todo:
            res |= todo
            nxt = set()
            for x in todo:
                later = [p for p in inner if p >= x]
                if later:
                    nxt.update(kids[later[0]])
            todo = nxt
        return res

    out, done = [], set()
    for c in selected:
        if birth[c] < eps:
            if c not in done:
                x = parent[c]
                while x != n and birth[x] < eps:
                    x = parent[x]
                out.append(x)
                done |= branch(x)
        else:
            out.append(c)
    return out


def renumber(labels, t):
    """(labels without the numbers taken by clusters that have no members, whether there were such numbers)"""
    lab = [int(x) for x in labels]
    used = sorted(set(lab) - {-1})
    if used == list(range(len(used))) or len(used) + len(memberless(t)) <= max(used):
        return lab, False
    return [used.index(x) if x >= 0 else -1 for x in lab], True


def memberless(t):
    """Clusters of the tree all of whose entries are at density zero."""
    return [c for c in t.birth if all(l == 0 for _, l in t.points[c]) and all(t.birth[k] == 0 for k in t.children[c])]


def condense_weighted(L, n, mcs, ws):
    """Condensing weighted samples with its recorded flaw: a sample that is heavy enough on its own counts as a side
    that goes on, and is then never reported."""
    f = np.float32
    rows = [(int(a), int(b), d, s) for a, b, d, s in np.asarray(L).tolist()]
    root = 2 * len(rows)
    order, level = [], [root]
    while level:
        order += level
        nxt = []
        for x in level:
            if x >= n:
                nxt += [rows[x - n][0], rows[x - n][1]]
        level = nxt
    below = {}

    def under(x):
        if x not in below:
            below[x] = [x] if x < n else [x] + under(rows[x - n][0]) + under(rows[x - n][1])
        return below[x]

    name = {root: n}
    gone = set()
    out = []
    k = n + 1
    for x in order:
        if x in gone or x < n:
            continue
        p = name[x]
        a, b, d, _ = rows[x - n]
        l = O.density(d)
        ca = f(rows[a - n][3]) if a >= n else f(ws[a])
        cb = f(rows[b - n][3]) if b >= n else f(ws[b])

        def drop(y):
            for z in under(y):
                if z < n:
                    out.append((p, z, l, 1.0))
                else:
                    gone.add(z)

        if a < n and cb >= mcs:
            name[b] = p
            out.append((p, a, l, 1.0))
        elif ca < mcs and cb >= mcs:
            name[b] = p
            drop(a)
        elif ca >= mcs and cb < mcs:
            name[a] = p
            drop(b)
        elif ca < mcs and cb < mcs:
            drop(a)
            drop(b)
        else:
            for y, cy in ((a, ca), (b, cb)):
                name[y] = k
                out.append((p, k, l, float(cy)))
                k += 1
    return out


def one_way_boruvka(rows):
    """Recorded: the spanning tree of a cluster's graph follows edges only in the direction in which they are listed,
    and a sample without entries takes over the first entry of the next one.
    rows: per sample list of (neighbour, weight) in the order listed.  Returns (components, edges)."""
    n = len(rows)
    indptr, idx, dist = [0], [], []
    for r in rows:
        for b, w in r:
            idx.append(b)
            dist.append(w)
        indptr.append(len(idx))
    up, rank = list(range(n)), [0] * n

    def find(x):
        while up[x] != x:
            x = up[x]
        return x

    def union(x, y):
        x, y = find(x), find(y)
        if x != y:
            if rank[x] < rank[y]:
                x, y = y, x
            up[y] = x
            if rank[x] == rank[y]:
                rank[x] += 1

    comp = list(range(n))
    count, edges = n, []
    while count > 1:
        best = {}
        for p, c in enumerate(comp):
            s = indptr[p]
            if s == len(idx) or idx[s] == -1:
                continue
            if c not in best or dist[s] < best[c][2]:
                best[c] = (p, idx[s], dist[s])
        new = 0
        for a, b, w in best.values():
            if find(a) != find(b):
                edges.append((min(a, b), max(a, b), w))
                union(a, b)
                new += 1
        if new == 0:
            break
        comp = [find(p) for p in range(n)]
        for p in range(n):
            s, e = indptr[p], indptr[p + 1]
            keep = []
            for i in range(s, e):
                if idx[i] == -1:
                    break
                if comp[idx[i]] != comp[p]:
                    keep.append((idx[i], dist[i]))
            for k in range(e - s):
                idx[s + k], dist[s + k] = keep[k] if k < len(keep) else (-1, float("inf"))
        count -= new
    return comp, edges
