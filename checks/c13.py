"""C13: layers are leaf clusterings of one hierarchy and nest into a tree."""
import itertools
import math

import numpy as np

from mc.core import Space, Violation
from mc import gens, hier, oracle as O
from mc.euclid import array

ASSUMPTIONS = [
    "all distances are distinct, so the hierarchy is unique",
    "a hierarchy without any split may put samples of the base layer into one cluster or none",
    "the numbers reported as total persistence are taken as they are; layers are judged relative to them",
]


def linkage(edges):
    n = len(edges) + 1
    cur = {i: i for i in range(n)}
    size = {i: 1 for i in range(n)}

    def find(x):
        while cur[x] != x:
            x = cur[x]
        return x

    L = []
    for k, (a, b, w) in enumerate(sorted(edges, key=lambda e: e[2])):
        a, b = find(a), find(b)
        m = n + k
        cur[m] = m
        cur[a] = cur[b] = m
        size[m] = size[a] + size[b]
        L.append((a, b, w, size[m]))
    return np.array(L, dtype=float).reshape(-1, 4)


class Hierarchy:
    def __init__(self, edges):
        self.n = len(edges) + 1
        self.L = linkage(edges)
        self.memo = {}

    def tree(self, size):
        if size not in self.memo:
            self.memo[size] = O.condense_reference(self.L, self.n, size)
        return self.memo[size]

    def leaf_masks(self, size):
        """The leaf clusters at a minimum size; None if there is no split."""
        t = self.tree(size)
        if not t.children[t.root]:
            return None
        return frozenset(t.mask[c] for c in O.leaf_reference(t))

    def births(self, base):
        """Sizes at which clusters of the base tree become leaves."""
        t = self.tree(base)
        b = {}

        def rec(c):
            for k in t.children[c]:
                rec(k)
            b[c] = max([base] + [b[k] for k in t.children[c]] + ([min(t.size[k] for k in t.children[c])] if t.children[c] else []))

        rec(t.root)
        return sorted(set(b.values()))


def groups(labels):
    m = {}
    for i, x in enumerate(labels):
        if int(x) >= 0:
            m[int(x)] = m.get(int(x), 0) | 1 << i
    return m


def peaks_of(x):
    out, i, last = [], 1, len(x) - 1
    while i < last:
        if x[i - 1] < x[i]:
            j = i + 1
            while j < last and x[j] == x[i]:
                j += 1
            if x[j] < x[i]:
                out.append((i + j - 1) // 2)
                i = j
        i += 1
    return out


def jaccard(a, b):
    return len(a & b) / len(a | b)


def check_tree(tree, layers):
    """tree: (layer, cluster) -> children.  layers: list of {label: mask}."""
    L = len(layers)
    seen = {}
    for (pl, pc), kids in tree.items():
        pl, pc = int(pl), int(pc)
        if pl != L and (pl > L or pc not in layers[pl]) or (pl == L and pc != 0):
            raise Violation("cluster tree: parent (%d, %d) is no cluster of a layer" % (pl, pc), "tree-parent")
        for cl, cc in kids:
            cl, cc = int(cl), int(cc)
            if (cl, cc) in seen:
                raise Violation("cluster tree: cluster (%d, %d) is listed twice" % (cl, cc), "tree-twice")
            seen[cl, cc] = (pl, pc)
            if not 0 <= cl < L or cc not in layers[cl]:
                raise Violation("cluster tree: child (%d, %d) is no cluster of a layer" % (cl, cc), "tree-child")
            if cl >= pl:
                raise Violation("cluster tree: (%d, %d) lies under (%d, %d) of a finer layer" % (cl, cc, pl, pc), "tree-order")
            if pl < L and layers[cl][cc] & ~layers[pl][pc]:
                raise Violation("cluster tree: (%d, %d) is not inside its parent (%d, %d)" % (cl, cc, pl, pc), "tree-inside")
            for q in range(cl + 1, pl):
                if any(layers[cl][cc] & ~m == 0 for m in layers[q].values()):
                    raise Violation("cluster tree: (%d, %d) lies under layer %d although layer %d contains it" % (
                        cl, cc, pl, q), "tree-nearest")
    for l in range(L):
        for c in layers[l]:
            if (l, c) not in seen:
                raise Violation("cluster tree: cluster (%d, %d) is missing" % (l, c), "tree-missing")


def check_strengths(layer, strengths, h, masks):
    """Zero for noise, in the unit interval, one for some sample of each cluster."""
    for c, m in masks.items():
        ps = [i for i in range(h.n) if m >> i & 1]
        for i in ps:
            if not 0.0 <= strengths[i] <= 1.0:
                raise Violation("strength %r" % strengths[i], "strength-range")
        if max(strengths[i] for i in ps) != 1.0:
            raise Violation("no sample of cluster %d has strength one" % c, "strength-max")
    for i in range(h.n):
        if int(layer[i]) < 0 and strengths[i] != 0:
            raise Violation("noise sample %d has strength %r" % (i, strengths[i]), "strength-noise")


def check_departures(h, size, masks, strengths):
    """Within a cluster of a layer: less for samples that leave the cluster earlier, one for those that stay longest."""
    t = h.tree(size)
    at = {t.mask[c]: c for c in t.mask}
    for m in masks:
        if m not in at:
            continue
        ps = sorted(t.points[at[m]], key=lambda x: -x[1])
        for (i, x), (j, y) in zip(ps, ps[1:]):
            if strengths[i] < strengths[j] or (x == y) != (strengths[i] == strengths[j]):
                raise Violation("sample %d leaves its cluster at density %r, sample %d at %r, but their strengths are %r, %r" % (
                    i, x, j, y, strengths[i], strengths[j]), "strength-order")
        late = [i for i in range(h.n) if m >> i & 1 and i not in [p for p, _ in ps]] + [p for p, _ in ps[:1]]
        for i in late:
            if strengths[i] != 1.0:
                raise Violation("sample %d stays longest but has strength %r" % (i, strengths[i]), "strength-max")


def judge(est, h, base, base_n, threshold, max_layers, ctx):
    n = h.n
    layers = [[int(x) for x in l] for l in est.cluster_layers_]
    strengths = [[float(x) for x in l] for l in est.membership_strength_layers_]
    scores = [float(x) for x in est.layer_persistence_scores_]
    if not (len(layers) == len(strengths) == len(scores)) or any(len(l) != n for l in layers + strengths):
        raise Violation("layers, strengths and scores do not match the data", "lengths")
    if not 1 <= len(layers) <= max(max_layers, 1):
        raise Violation("%d layers, at most %d are allowed" % (len(layers), max_layers), "max-layers")
    g = [groups(l) for l in layers]
    for i, x in enumerate(g):
        if sorted(x) != list(range(len(x))):
            raise Violation("layer %d uses the labels %s" % (i, sorted(x)), "layer-labels")
        check_strengths(layers[i], strengths[i], h, x)
    counts = [len(x) for x in g]
    if counts != sorted(counts, reverse=True):
        raise Violation("numbers of clusters per layer %s" % counts, "layer-order")
    for a, b in itertools.combinations(range(len(g)), 2):
        for x in g[a].values():
            for y in g[b].values():
                if x & y and x & ~y and y & ~x:
                    raise Violation("clusters of layers %d and %d overlap" % (a, b), "nesting")
    check_tree(est.cluster_tree_, g)
    best = max(scores)
    ok = [i for i in range(len(layers)) if scores[i] == best] if len(layers) > 1 else [0]
    lab, st = [int(x) for x in est.labels_], [float(x) for x in est.membership_strengths_]
    if not any(lab == layers[i] and st == strengths[i] for i in ok):
        raise Violation("labels %s are not those of the layer with the highest score" % lab, "best-layer")

    # base layer
    sets = [frozenset(x.values()) for x in g]
    if base_n is not None:
        hi = max(n // 2, 2)
        count = lambda s: len(h.leaf_masks(s) or (1,))
        want = min(abs(count(s) - base_n) for s in range(2, hi + 1))
        bases = [s for s in range(2, hi + 1) if abs(count(s) - base_n) == want]
    else:
        bases = [base]
    tried = []
    for b in bases:
        lm = h.leaf_masks(b)
        cand = [i for i in range(len(layers)) if (sets[i] == lm if lm is not None else len(sets[i]) <= 1)]
        if not cand:
            tried.append("no layer is the leaf clustering at size %d" % b)
            continue
        size = b
        if base_n is not None:
            size = min(O.popcount(m) for m in lm) if lm is not None else b
        msg = judge_layers(est, h, size, base_n, sets, scores, cand, threshold, max_layers, lm, ctx)
        if msg is None:
            return
        tried.append(msg)
    raise Violation("; ".join(sorted(set(tried))) + ": clusters per layer %s" % counts, "layers")


def judge_layers(est, h, base, base_n, sets, scores, cand, threshold, max_layers, lm, ctx):
    """None if the layers other than the base layer are the diverse peaks of the reported total persistence."""
    sizes, total = [float(x) for x in est.min_cluster_sizes_], [float(x) for x in est.total_persistence_]
    if len(sizes) != len(total):
        return "sizes and total persistence have different lengths"
    if lm is None:
        return None if len(sets) == 1 and not sizes else "layers of a hierarchy without splits"
    if sizes != [float(x) for x in h.births(base)]:
        return "sizes %s, expected %s" % (sizes, h.births(base))
    pk = peaks_of(total)
    if len(set(total[p] for p in pk)) < len(pk):
        ctx.count("tied_peaks")
        return None
    chosen, msets = [], []
    for p in sorted(pk, key=lambda p: -total[p]):
        if len(chosen) >= max_layers - 1:
            break
        m = h.leaf_masks(int(sizes[p]) + 1)
        if all(jaccard(m, x) <= threshold for x in msets):
            chosen.append((m, total[p]))
            msets.append(m)
    got = sorted((sorted(s), sc) for s, sc in zip(sets, scores))
    chosen.append((lm, 0.0))
    exp = sorted([(sorted(m), s) for m, s in chosen])
    if got != exp:
        return "layers %s, expected %s" % ([(len(a), b) for a, b in got], [(len(a), b) for a, b in exp])
    if base_n is None:
        for masks, strengths in zip(sets, est.membership_strength_layers_):
            check_departures(h, base, masks, [float(x) for x in strengths])
    ctx.count("extra_layers", len(chosen) - 1)
    if len(pk) > 1:
        ctx.count("several_peaks")
    return None


def graph(edges):
    import scipy.sparse as sp

    n = len(edges) + 1
    a, b, w = zip(*edges)
    return sp.csr_matrix((list(w) * 2, (list(a) + list(b), list(b) + list(a))), shape=(n, n))


def run(c, ctx):
    from mc import sut

    edges, how, (base, base_n, threshold, max_layers) = c
    kw = dict(min_samples=1, base_min_cluster_size=base, base_n_clusters=base_n, layer_similarity_threshold=threshold,
              max_layers=max_layers)
    h = Hierarchy(edges)
    if how == "graph":
        est = sut.PLSCAN(metric="precomputed", **kw).fit(graph(edges))
    else:
        pos, x = {}, 0.0
        for i, (a, b, w) in enumerate(edges):
            if i == 0:
                pos[a] = x
            x += w
            pos[b] = x
        rows = array([(pos[i],) for i in range(h.n)])
        est = sut.PLSCAN(algorithm=how, **kw).fit(rows)
    judge(est, h, base, base_n, threshold, max_layers, ctx)
    ctx.state(c, tuple(map(tuple, (l.tolist() for l in est.cluster_layers_))))
    ctx.trans(len(est.cluster_layers_))
    ctx.trace()


def orders(edges, limit=240):
    """The edges in every order that ascending weights allow, made distinct; None if there are too many orders."""
    es = sorted(edges, key=lambda e: e[2])
    parts = [list(g) for _, g in itertools.groupby(es, key=lambda e: e[2])]
    if math.prod(math.factorial(len(g)) for g in parts) > limit:
        return None
    return [[(a, b, float(k)) for k, (a, b, _) in enumerate(itertools.chain(*c))]
            for c in itertools.product(*[list(itertools.permutations(g)) for g in parts])]


def check_base(labels, edges, base, ctx):
    """The labels are the leaf clustering of a hierarchy of the spanning tree, whatever the order of equal weights."""
    os = orders(edges)
    if os is None:
        ctx.count("too_many_orders")
        return
    got = groups(labels)
    exp = set()
    for o in os:
        exp.add(Hierarchy(o).leaf_masks(base))
    if frozenset(got.values()) not in exp and not (None in exp and len(got) <= 1):
        raise Violation("base layer %s, leaf clusterings of the tree: %s" % (
            sorted(got.values()), [sorted(x) for x in exp if x is not None]), "base-layer")
    ctx.count("orders", len(os))


def run_parameters(c, ctx):
    """Every parameter of the spanning tree reaches it: the base layer is that of the tree built with the same ones."""
    from mc import sut

    rows, ms, base, kw = c
    X = array(rows)
    kw = dict(kw)
    edges, _, _ = sut.compute_minimum_spanning_tree(X, min_samples=ms, **kw)
    edges = [(int(a), int(b), float(w)) for a, b, w in np.asarray(edges)]
    if sum(math.isinf(w) for _, _, w in edges) == 0:
        est = sut.PLSCAN(min_samples=ms, base_min_cluster_size=base, max_layers=1, **kw).fit(X)
        if len(est.cluster_layers_) != 1:
            raise Violation("%d layers, at most one is allowed" % len(est.cluster_layers_), "max-layers")
        check_base([int(x) for x in est.labels_], edges, base, ctx)
        ctx.state(rows, ms, base, tuple(sorted(kw.items())), tuple(est.labels_.tolist()))
        ctx.trans()
    else:
        ctx.count("disconnected")
    ctx.trace()


def chain(sizes, order, step=1.0 / 64, spread=1.0):
    """Groups of the given sizes in a row; gaps inside a group small and distinct, between groups by `order`."""
    gaps, k = [], 0
    for i, s in enumerate(sizes):
        for _ in range(s - 1):
            gaps.append(0.25 + k * step / 4)
            k += 1
        if i < len(order):
            gaps.append(2.0 + order[i] * spread)
    return hier.path_tree(gaps)


def halving(m):
    """Merge order of the gaps between m (a power of two) groups: pairs, then pairs of pairs, and so on."""
    out, k, step = [0] * (m - 1), 0, 1
    while step < m:
        for i in range(step - 1, m - 1, 2 * step):
            out[i] = k
            k += 1
        step *= 2
    return out


def build(tier):
    T = tier == "thorough"

    def chains(m, sizes, every=1, **kw):
        combos = itertools.product(itertools.product(sizes, repeat=m), itertools.permutations(range(m - 1)))
        return [chain(ss, o, **kw) for ss, o in itertools.islice(combos, 0, None, every)]

    paths = sum([hier.path_permutations(n) for n in range(3, 8)], [])
    p8 = hier.path_permutations(8)
    c4 = chains(4, (2, 3, 5))
    c5 = chains(5, (2, 4), spread=0.125) + chains(5, (2, 3, 7), 1 if T else 3)
    c6 = chains(6, (2, 5), 1 if T else 2, spread=0.03125)
    c6x = chains(6, (2, 3, 8), 1 if T else 11, spread=0.125)
    c7 = chains(7, (2, 4), 5 if T else 23, spread=0.25) + chains(7, (3,), 1 if T else 2)
    c8 = chains(8, (2,), 1 if T else 3, spread=0.0625) + chains(8, (2, 6), 101 if T else 1009, spread=0.125)
    D = (2, None, 0.2, 10)
    P = [D, (2, None, 0.0, 10), (2, None, 1.0, 10), (3, None, 0.5, 3), (2, None, 0.9, 2)]
    N = [(2, k, 0.5, 10) for k in (1, 2, 3, 4, 5, 8)]
    sp = []

    def add(name, trees, hows, params, note):
        m = len(hows) * len(params)
        sp.append(Space(name, len(trees) * m,
                        lambda i: (trees[i // m], hows[i % m // len(params)], params[i % len(params)]), run,
                        chunk=32, note=note, warm=(0, -1)))

    add("paths", paths, ("graph", "boruvka", "kruskal"), [D, (3, None, 0.5, 3), (2, None, 1.0, 1)],
        "every merge order of up to seven samples")
    add("paths-eight", p8[::1 if T else 4], ("graph",), [D], "merge orders of eight samples")
    add("groups", c4 + c5 + c6, ("graph",), P, "four to six groups of different sizes in every merge order")
    add("groups-features", c4 + c5[::4], ("boruvka", "kruskal"), P[:3], "the same from coordinates")
    add("deep", c6x + c7 + c8, ("graph",), P[:2] + P[3:4], "six to eight groups")
    bal = [chain(ss, halving(8), spread=x) for sz in ((3, 4), (3, 5)) for x in (0.125, 1.0)
           for ss in itertools.product(sz, repeat=8)]
    bal += [chain(ss, halving(8), spread=0.125) for ss in itertools.islice(
        itertools.product((2, 3, 5), repeat=8), 0, None, 1 if T else 11)]
    bal16 = [chain(a + b, halving(16), spread=0.0625) for a in itertools.product((3, 4), repeat=8)
             for b in ((3,) * 8, (4,) * 8, (3, 4) * 4, a)][:: 1 if T else 4]
    add("several-peaks", bal + bal16, ("graph",), [(2, None, t, k) for t in (1.0, 0.3) for k in (1, 2, 3, 10)] + [
        (2, None, 0.0, 10), (3, None, 1.0, 2)], "eight and sixteen groups merged in pairs: several local maxima")
    add("count", c4 + c5[::2] + c6[::4] + p8[::16] + paths[-720:], ("graph",), N, "requested numbers of base clusters")
    gaps = list(itertools.product((1.0, 2.0, 4.5) if T else (1.0, 3.0), repeat=6))
    lines = [tuple((sum(g[:i]),) for i in range(7)) for g in gaps]
    planes = [tuple((float(i * i * (k + 2) % 23), float(i * (k + 5) % 19)) for i in range(9)) for k in range(12)]
    kws = [(("algorithm", "boruvka"), ("reproducible", False)), (("algorithm", "boruvka"), ("reproducible", True)),
           (("algorithm", "kruskal"),), (("algorithm", "kruskal"), ("knn_k", 2)), (("algorithm", "kruskal"), ("knn_k", 4))]
    cs = list(itertools.product(lines + planes, (1, 2, 3, 4), (2, 3), kws))
    sp.append(Space("parameters", len(cs), lambda i: cs[i], run_parameters, chunk=40,
                    note="min_samples, algorithm, neighbour limit and reproducible flag reach the tree", warm=(0, 2, 3)))
    return sp
