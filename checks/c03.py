"""C03: neighbour lists and core distances are exact."""
import numpy as np

from mc.core import Space, Violation
from mc import gens
from mc.euclid import ref, array

ASSUMPTIONS = [
    "coordinates are small integers or dyadic fractions: squared distances are exact in float32",
]
INF = float("inf")


def check_neighbors(r, nb, n, k):
    """Position by position the reported neighbours are the nearest other samples (duplicates may replace self)."""
    nb = np.asarray(nb)
    if nb.ndim != 2 or nb.shape[0] != n:
        raise Violation("neighbour table has shape %s" % (nb.shape,), "nb-shape")
    if nb.shape[1] < min(k, n - 1):
        raise Violation("%d neighbours per sample, expected %d" % (nb.shape[1], min(k, n - 1)), "nb-shape")
    for i, row in enumerate(nb.tolist()):
        seen = set()
        for j, v in enumerate(row):
            if v == -1 and j >= n - 1:
                continue
            if not (0 <= v < n):
                raise Violation("sample %d: neighbour %d is %d (n=%d)" % (i, j, v, n), "nb-range")
            if v in seen:
                raise Violation("sample %d: neighbour %d listed twice: %s" % (i, v, row), "nb-twice")
            seen.add(v)
            if j >= n - 1:
                raise Violation("sample %d: more neighbours than other samples: %s" % (i, row), "nb-count")
            d, e = float(r.D[i][v]), float(r.others[i][j])
            if abs(d - e) > 1e-6 * e:
                raise Violation("sample %d: neighbour %d is at distance %r, the %d. nearest is at %r" % (
                    i, v, d, j + 1, e), "nb-distance")


def check_core(r, core, ms):
    exp = r.core(ms)
    core = np.asarray(core, dtype=np.float64).tolist()
    if len(core) != r.n:
        raise Violation("%d core distances for %d samples" % (len(core), r.n), "core-shape")
    for i, (c, e) in enumerate(zip(core, exp)):
        if c != e and not abs(c - e) <= 2e-6 * e:
            raise Violation("core distance of sample %d is %r, expected %r" % (i, c, e), "core-value")


def run(c, ctx):
    from mc import sut

    rows, ms, leaf, algo, k = c
    with sut.leaf_size(leaf):
        _, nb, core = sut.compute_minimum_spanning_tree(array(rows), min_samples=ms, algorithm=algo, knn_k=k)
    r = ref(rows)
    n = len(rows)
    check_core(r, core, ms)
    check_neighbors(r, nb, n, ms)
    ctx.state(rows, ms, np.asarray(nb).tobytes())
    ctx.trans(np.asarray(nb).size)
    ctx.trace()


def space(name, data, params_of, note, chunk=64):
    size, decode = gens.with_params(data, params_of)
    return Space(name, size, decode, run, chunk=chunk, note=note)


def build(tier):
    T = tier == "thorough"
    B, K = "boruvka", "kruskal"

    def small(n):
        for ms in range(1, n + 2):
            for leaf in (40, 1, 2):
                yield (ms, leaf, B, None)
            yield (ms, 40, K, None)
            if ms < n:
                yield (ms, 1, K, max(1, n // 2))

    def order(n):
        for ms in range(1, n + 1):
            yield (ms, 1, B, None)

    def sized(n):
        for ms in sorted(set(x for x in (1, 2, 4, 7, 15, 31, n - 2, n - 1, n, n + 3) if x >= 1)):
            yield (ms, 40, B, None)
            if ms <= 15:
                yield (ms, 3, B, None)
        yield (4, 40, K, None)
        yield (3, 5, K, 6)

    sizes = list(range(2, 430)) if T else list(range(2, 125)) + [158, 159, 160, 161, 162, 319, 320, 321, 322]
    return [
        space("line", gens.line_data([((0, 1, 2, 3), n) for n in range(2, 6)] + [((0, 1, 3), 7 if T else 6)]), small,
              "all sequences of points on an integer line"),
        space("plane", gens.grid_multisets((3, 3), range(3, 8 if T else 7)), small, "all multisets of a 3x3 grid"),
        space("plane-order", gens.grid_sequences((2, 3), [4, 5] if T else [5]), order, "all row orders on a 2x3 grid"),
        space("cube", gens.grid_multisets((2, 2, 2), range(3, 8)), order, "multisets of corners of a cube"),
        space("binary", gens.line_data([((0, 1), 15 if T else 12)]), lambda n: [(3, 1, B, None), (n - 2, 1, B, None)],
              "all 0/1 sequences"),
        space("scales", gens.scaled(gens.line_data([((0, 1, 3), 4)]) + gens.grid_multisets((3, 3), [4])), small,
              "very small and very large coordinates"),
        space("sizes", gens.family_data(sizes), sized, "structured data of every size across leaf boundaries",
              chunk=28),
    ]
