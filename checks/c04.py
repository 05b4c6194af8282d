"""C04: Kruskal and Boruvka agree on feature data; a neighbour limit means the nearest-neighbour graph."""
import math

import numpy as np

from mc.core import Space, Violation
from mc import entry, gens, oracle as O
from mc.euclid import ref, array
from checks.c03 import check_core

ASSUMPTIONS = [
    "where several samples are equally far, any choice among them is accepted as the nearest ones "
    "(the result must lie between the graph of undisputed and the graph of possible neighbours)",
]
INF = float("inf")


def knn_pairs(r, k):
    """(undisputed pairs, possible pairs) of the graph linking each sample to its k nearest others."""
    n = r.n
    must, may = set(), set()
    for i in range(n):
        kk = min(k, n - 1)
        lim = float(r.others[i][kk - 1])
        full = kk == n - 1 or float(r.others[i][kk]) > lim
        for j in range(n):
            if j == i:
                continue
            d = float(r.D[i][j])
            if d <= lim * (1 + 1e-9):
                p = (i, j) if i < j else (j, i)
                may.add(p)
                if full or d < lim * (1 - 1e-9):
                    must.add(p)
    return must, may


def refine_check(n, finer, coarser, what):
    """Every pair joined in `finer` (labels) is joined in `coarser`."""
    m = {}
    for a, b in zip(finer, coarser):
        if m.setdefault(a, b) != b:
            raise Violation(what, "forest-components")


def check_between(es, W, must, may, n, rtol=2e-6):
    fin = [e for e in es if math.isfinite(e[2])]
    for a, b, w in fin:
        if (min(a, b), max(a, b)) not in may:
            raise Violation("finite edge (%d, %d): neither sample is a nearest neighbour of the other" % (a, b),
                            "forest-edge")
        if not O.close(w, float(W[a][b]), rtol):
            raise Violation("edge (%d, %d) has weight %r, mutual reachability distance is %r" % (
                a, b, w, float(W[a][b])), "forest-weight")
    mustw = sorted((float(W[a][b]), a, b) for a, b in must if math.isfinite(W[a][b]))
    mayw = sorted((float(W[a][b]), a, b) for a, b in may if math.isfinite(W[a][b]))
    finw = sorted((float(W[a][b]), a, b) for a, b, w in fin)
    levels = sorted(set(w for w, _, _ in mustw) | set(w for w, _, _ in finw))
    dm, dy, df = O.DSU(n), O.DSU(n), O.DSU(n)
    pm = py = pf = 0
    for t in levels:
        t = t * (1 + 1e-9)
        while pm < len(mustw) and mustw[pm][0] <= t:
            dm.union(*mustw[pm][1:])
            pm += 1
        while py < len(mayw) and mayw[py][0] <= t:
            dy.union(*mayw[py][1:])
            py += 1
        while pf < len(finw) and finw[pf][0] <= t:
            df.union(*finw[pf][1:])
            pf += 1
        fl = [df.find(i) for i in range(n)]
        refine_check(n, [dm.find(i) for i in range(n)], fl,
                     "samples connected in the neighbour graph at %r are not connected by the edges found" % t)
        refine_check(n, fl, [dy.find(i) for i in range(n)],
                     "edges connect samples at %r that the neighbour graph does not" % t)


def run(c, ctx):
    from mc import sut

    rows, ms, k, leaf = c
    n = len(rows)
    r = ref(rows)
    with sut.leaf_size(leaf):
        edges, _, core = sut.compute_minimum_spanning_tree(array(rows), min_samples=ms, algorithm="kruskal", knn_k=k)
        if k is None:
            eb, _, cb = sut.compute_minimum_spanning_tree(array(rows), min_samples=ms)
    W, exp = r.mst(ms)
    check_core(r, core, ms)
    if k is None:
        es = O.check_mst(edges, W, n, exp=exp)
        check_core(r, cb, ms)
        a = sorted(np.asarray(eb)[:, 2].tolist())
        b = sorted(np.asarray(edges)[:, 2].tolist())
        if len(a) != len(b) or not all(O.close(x, y, 4e-6) for x, y in zip(a, b)):
            raise Violation("edge weights %s (Kruskal) and %s (Boruvka)" % (b, a), "kruskal-boruvka")
        ctx.trace()
    else:
        es = O.check_tree_edges(edges, n)
        must, may = knn_pairs(r, max(k, ms))
        check_between(es, W, must, may, n)
    ctx.state(rows, ms, k, tuple(es))
    ctx.trans(len(es))
    ctx.trace()


def run_entry(c, ctx):
    """The estimator and the function pass the algorithm and the neighbour limit on."""
    from mc import sut

    rows, ms, mcs, k, kind, form, leaf = c
    n = len(rows)
    r = ref(rows)
    m = mcs if ms is None else ms
    with sut.leaf_size(leaf):
        L = entry.linkage(entry.as_form(rows, form), kind, min_samples=ms, min_cluster_size=mcs, algorithm="kruskal", knn_k=k)
    W, exp = r.mst(m)
    if k is None:
        entry.check_levels(L, W, exp, n)
    else:
        must, may = knn_pairs(r, max(k, m))
        if must == may:
            fin = [p for p in must if math.isfinite(W[p[0]][p[1]])]
            exp = O.mst_weight_list(W, fin)
            entry.check_levels(L, W, exp + [INF] * (n - 1 - len(exp)), n, pairs=fin)
        else:
            ctx.count("disputed")
    ctx.state(rows, ms, mcs, k, L.tobytes())
    ctx.trans(n - 1)
    ctx.trace()


def classify(space, case, key, msg):
    # recorded: data stored column by column are refused by the compiled tree builder
    if space == "forms" and case[5] == "fortran" and len(case[0][0]) > 1 and key == "raise:TypeError":
        return "column-order"
    return None


def entry_space(name, data, params_of, note, chunk=64):
    size, decode = gens.with_params(data, params_of)
    return Space(name, size, decode, run_entry, chunk=chunk, note=note)


def space(name, data, params_of, note, chunk=64):
    size, decode = gens.with_params(data, params_of)
    return Space(name, size, decode, run, chunk=chunk, note=note, warm=(0, 1, 2, 3, 4, 5, -1))


def build(tier):
    T = tier == "thorough"

    def small(n):
        for ms in range(1, n + 2):
            yield (ms, None, 40)
            for k in range(1, n + 1):
                yield (ms, k, 1)

    def sized(n):
        for ms in (1, 2, 5, n - 1, n):
            if ms >= 1:
                yield (ms, None, 40)
        for ms, k in ((1, 1), (1, 2), (2, 1), (2, 5), (4, 3), (3, 9)):
            yield (ms, k, 40)
        yield (2, 3, 3)

    sizes = list(range(2, 200)) if T else list(range(2, 60, 1)) + [79, 80, 81, 82, 83, 120, 121, 159, 160, 161, 162]
    return [
        space("line", gens.line_data([((0, 1, 2, 3), n) for n in range(2, 5)] + [((0, 1, 3), 5)]
                                     + ([((0, 1, 2, 3), 5)] if T else [])), small,
              "all sequences of points on an integer line"),
        space("plane", gens.grid_multisets((3, 3), range(3, 7 if T else 6)), small, "all multisets of a 3x3 grid"),
        space("cube", gens.grid_multisets((2, 2, 2), range(3, 7 if T else 6)), small, "multisets of corners of a cube"),
        space("scales", gens.scaled(gens.line_data([((0, 1, 3), 4)]) + gens.grid_multisets((3, 3), [3])), small,
              "very small and very large coordinates"),
        space("sizes", gens.family_data(sizes), sized, "structured data of every size", chunk=24),
        space("columns", gens.column_data(range(1, 31), [6, 43]), lambda n: [(2, None, 40), (1, 3, 40), (3, 2, 5)],
              "every number of columns up to 30"),
        entry_space("entry", gens.line_data([((0, 1, 3), n) for n in (3, 4, 5)]) + gens.grid_multisets((3, 3), [4]),
                    lambda n: [(ms, mcs, k, kind, "float64", 1) for ms in (None, 1, 2, n - 1)
                               for mcs in ((2, n - 1) if ms is None else (2,)) for k in (None, 1, 2) for kind in entry.KINDS],
                    "the estimator, fit-and-predict and the function"),
        entry_space("forms", gens.family_data([3, 5, 8, 41, 50], ["line-shuffled", "quadratic", "cube", "growing", "wide"]),
                    lambda n: [(ms, 2, k, kind, form, 40) for ms in (1, 2) for k in (None, 2)
                               for kind in ("class", "function") for form in entry.FORMS],
                    "number types, memory layouts and lists", chunk=40),
    ]
