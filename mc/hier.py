"""Spanning trees as inputs: finite families, and the pipeline behind the spanning tree."""
import itertools

import numpy as np

from .core import Violation
from . import gens, oracle as O

INF = float("inf")


def path_tree(gaps, perm=None):
    """Edges of the path 0-1-...-m with the given gaps; samples renamed by perm."""
    n = len(gaps) + 1
    p = perm or range(n)
    return tuple((p[i], p[i + 1], float(g)) for i, g in enumerate(gaps))


def perms_of(n):
    """A few fixed renamings (the order of rows decides ties and child order)."""
    ident = list(range(n))
    rev = ident[::-1]
    stride = sorted(ident, key=lambda i: ((i * 3 + 1) % n if n % 3 else (i * 5 + 1) % n, i))
    inter = ident[::2] + ident[1::2]
    return [ident, rev, stride, inter]


def path_permutations(n):
    """Every merge order of n samples in a row: distinct gaps (powers of two) in every order."""
    vals = [2.0 ** (i - 1) for i in range(n - 1)]
    return [path_tree(g) for g in itertools.permutations(vals)]


def path_gaps(n, values):
    return [path_tree(g) for g in itertools.product(values, repeat=n - 1)]


def all_trees(n, values):
    return [tuple((a, b, float(w)) for (a, b), w in zip(t, ws))
            for t in gens.labelled_trees(n) for ws in itertools.product(values, repeat=n - 1)]


def group_chain(m, size, inner, outer_values, renames=(0,)):
    """m groups of `size` samples in a row: inner gaps from `inner` per group, every order of distinct outer gaps."""
    out = []
    for ins in itertools.product(inner, repeat=m):
        for outs in itertools.permutations(outer_values[:m - 1]):
            gaps = []
            for k in range(m):
                gaps += [ins[k]] * (size - 1)
                if k < m - 1:
                    gaps.append(outs[k])
            n = len(gaps) + 1
            for r in renames:
                out.append(path_tree(gaps, perms_of(n)[r]))
    return out


def scaled(trees, exps=gens.SCALES):
    return [tuple((a, b, w * 2.0 ** e) for a, b, w in t) for e in exps for t in trees]


def array_of(edges):
    return np.array([list(e) for e in edges], dtype=np.float64).reshape(len(edges), 3)


def run_tree(edges, **kw):
    """(labels, strengths, linkage, condensed tree, sorted spanning tree) of the implementation."""
    from . import sut

    return sut.clusters_from_spanning_tree(array_of(edges), **kw)


def bare_tree(edges, mcs):
    """Rows of the condensed tree before any persistence simplification."""
    return O.ctree_rows(run_tree(edges, min_cluster_size=mcs, cluster_selection_method="leaf")[3])


def tree_space(name, trees, params_of, run, note, chunk=32, warm=(0, -1), mode="jit"):
    from .core import Space

    import bisect

    cache, offs, total = {}, [], 0
    for t in trees:
        n = len(t) + 1
        if n not in cache:
            cache[n] = list(params_of(n))
        offs.append(total)
        total += len(cache[n])

    def decode(i):
        k = bisect.bisect_right(offs, i) - 1
        t = trees[k]
        return (t, cache[len(t) + 1][i - offs[k]])

    return Space(name, total, decode, run, chunk=chunk, note=note, warm=warm, mode=mode)


def same_edges(a, b):
    f = lambda es: sorted((min(x, y), max(x, y), w) for x, y, w in
                          ((int(r[0]), int(r[1]), float(r[2])) for r in es))
    if f(a) != f(b):
        raise Violation("the spanning tree returned is not the one given", "mst-changed")
