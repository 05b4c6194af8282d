"""The same data handed in through different entry points and in different array forms."""
import numpy as np

from . import oracle as O
from .core import Violation

FORMS = ("float64", "fortran", "float32", "int64", "int32", "int16", "list", "strided", "readonly", "reversed-view")
KINDS = ("class", "class-predict", "function")


def as_form(rows, form):
    X = np.array(rows, dtype=np.float64)
    if form == "float64":
        return X
    if form == "fortran":
        return np.asfortranarray(X)
    if form in ("float32", "int64", "int32", "int16"):
        return X.astype(form)
    if form == "list":
        return [list(r) for r in rows]
    if form == "strided":
        big = np.full((2 * X.shape[0], 3 * X.shape[1]), 77.0)
        big[::2, ::3] = X
        return big[::2, ::3]
    if form == "readonly":
        X.setflags(write=False)
        return X
    if form == "reversed-view":
        return np.ascontiguousarray(X[::-1])[::-1]
    raise KeyError(form)


def linkage(X, kind, **kw):
    """Merge list of a fit through one of the public entry points."""
    from . import sut

    if kind == "function":
        return np.array(sut.fast_hdbscan_fn(X, return_trees=True, **kw)[2], dtype=np.float64)
    est = sut.HDBSCAN(**kw)
    if kind == "class":
        est.fit(X)
    else:
        est.fit_predict(X)
    return np.array(est.single_linkage_tree_.to_numpy(), dtype=np.float64)


def check_levels(L, W, exp, n, rtol=O.RTOL, pairs=None):
    """The merges and the graph weighted by W connect the same samples at every distance; the merge distances are
    the weights `exp` of a minimum spanning tree (ascending)."""
    if L.shape != (n - 1, 4):
        raise Violation("the hierarchy has %s entries for %d samples" % (L.shape, n), "entry-shape")
    got = [float(x) for x in L[:, 2]]
    for g, x in zip(got, exp):
        if not O.close(g, x, rtol):
            raise Violation("merge distances %s, a minimum spanning tree has %s" % (got, list(exp)), "entry-distances")
    if pairs is None:
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    es = sorted((float(W[i][j]), i, j) for i, j in pairs)
    dg, dl, p = O.DSU(n), O.DSU(n), 0
    first = list(range(n))
    for k in range(n - 1):
        a, b = int(L[k, 0]), int(L[k, 1])
        if not (0 <= a < len(first) and 0 <= b < len(first)):
            raise Violation("merge %d joins groups %d and %d" % (k, a, b), "entry-index")
        dl.union(first[a], first[b])
        first.append(first[a])
        if exp[k] == O.INF or k < n - 2 and O.close(got[k], got[k + 1], 4 * rtol):
            continue
        t = exp[k] * (1 + 1e-9)
        while p < len(es) and es[p][0] <= t:
            dg.union(es[p][1], es[p][2])
            p += 1
        x = O.partition_of([dl.find(i) for i in range(n)])
        y = O.partition_of([dg.find(i) for i in range(n)])
        if x != y:
            raise Violation("groups %s at distance %r, the distances give %s" % (x, got[k], y), "entry-groups")
