"""Finite families of inputs.  Every function returns plain Python data; order of rows is part of the case."""
import itertools


def sequences(values, n):
    return list(itertools.product(values, repeat=n))


def multisets(values, n):
    return list(itertools.combinations_with_replacement(values, n))


def grid(*sides):
    return list(itertools.product(*[range(s) for s in sides]))


def labelled_trees(n):
    """All labelled trees on n vertices (Pruefer codes) as edge lists."""
    if n == 1:
        return [[]]
    if n == 2:
        return [[(0, 1)]]
    out = []
    for code in itertools.product(range(n), repeat=n - 2):
        deg = [1] * n
        for c in code:
            deg[c] += 1
        edges = []
        for c in code:
            for v in range(n):
                if deg[v] == 1:
                    edges.append((v, c))
                    deg[v] -= 1
                    deg[c] -= 1
                    break
        u, v = [x for x in range(n) if deg[x] == 1]
        edges.append((u, v))
        out.append(edges)
    return out


# ---- structured data of arbitrary size: deterministic point families

def family(kind, n):
    """List of n rows."""
    if kind == "line":
        return [(i,) for i in range(n)]
    if kind == "line-shuffled":
        return [((i * 37 + 11) % (n if n % 37 else n + 1),) for i in range(n)]
    if kind == "pairs":
        return [(10 * (i // 2) + i % 2,) for i in range(n)]
    if kind == "same":
        return [(3, 3)] * n
    if kind == "two-values":
        return [((i * i // 3) % 2, 0) for i in range(n)]
    if kind == "blocks":
        return [((i % 7) * 100 + (i // 7) % 5, (i * 3) % 4) for i in range(n)]
    if kind == "quadratic":
        return [((i * i) % 61, (i * i * i) % 53) for i in range(n)]
    if kind == "growing":
        return [(i * i,) for i in range(n)]
    if kind == "cube":
        return [((i >> 0) & 3, (i >> 2) & 3, (i >> 4) & 3) for i in range(n)]
    if kind == "wide":
        return [tuple(((i * (j + 3) + j * j) % (5 + j)) for j in range(12)) for i in range(n)]
    if kind == "columns30":
        return [tuple(((i + j) * (i + 2 * j)) % 5 for j in range(30)) for i in range(n)]
    if kind == "halves":
        return [(0 if i < n // 2 else 1, i % 2) for i in range(n)]
    if kind == "heavy-ties":
        return [((i * 5) % 3, (i * 7) % 4) for i in range(n)]
    if kind == "tiny-gaps":
        return [(i // 4 * 8 + (i % 4) * 0.125,) for i in range(n)]
    if kind == "negative":
        return [(-(i * 13 % 29), i * 17 % 31 - 15) for i in range(n)]
    if kind == "far-pair":
        return [((i * 7) % (n // 2 + 1) + (0 if i % 2 else 4 * n), i % 3) for i in range(n)]
    if kind == "two-rings":
        return [(((i * i) % 101) + (1000 if i % 3 else 0), (i * 17) % 103) for i in range(n)]
    raise KeyError(kind)


FAMILIES = ["line", "line-shuffled", "pairs", "same", "two-values", "blocks", "quadratic", "growing", "cube", "wide",
            "columns30", "halves", "heavy-ties", "tiny-gaps", "negative"]


def float_rows(rows):
    return tuple(tuple(float(x) for x in r) for r in rows)


def line_data(spec):
    """[(values, n), ...] -> every sequence of n positions."""
    return [float_rows((v,) for v in s) for values, n in spec for s in sequences(values, n)]


def grid_multisets(sides, ns):
    g = float_rows(grid(*sides))
    return [s for n in ns for s in multisets(g, n)]


def grid_sequences(sides, ns):
    g = float_rows(grid(*sides))
    return [s for n in ns for s in sequences(g, n)]


def column_data(columns, sizes):
    """Structured rows for every number of columns: in one form each column counts, in the other only the last."""
    out = []
    for d in columns:
        for n in sizes:
            out.append(float_rows(tuple((i * (j + 2) + j * j + i * i) % (3 + j % 4) for j in range(d)) for i in range(n)))
            out.append(float_rows(tuple(0 if j < d - 1 else (i * i) % (n + 3) for j in range(d)) for i in range(n)))
    return out


SCALES = (-40, -20, 20, 40)      # powers of two: results must scale exactly


def scaled(datasets, exps=SCALES):
    return [tuple(tuple(x * 2.0 ** e for x in r) for r in rows) for e in exps for rows in datasets]


def with_params(datasets, params_of):
    """(size, decode): index -> (rows, *params); parameters vary fastest so that references are reused."""
    import bisect

    offs, total, cache = [], 0, {}
    for n in (datasets.lengths() if hasattr(datasets, "lengths") else map(len, datasets)):
        if n not in cache:
            cache[n] = list(params_of(n))
        offs.append(total)
        total += len(cache[n])

    def decode(i):
        k = bisect.bisect_right(offs, i) - 1
        rows = datasets[k]
        return (rows,) + tuple(cache[len(rows)][i - offs[k]])

    return total, decode


def family_data(sizes, kinds=None):
    """Lazy list of structured data sets."""
    return _Lazy([(k, n) for n in sizes for k in (kinds or FAMILIES)])


class _Lazy:
    def __init__(self, items):
        self.items = items
        self.cache = {}

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        if i >= len(self.items):
            raise IndexError(i)
        if i not in self.cache:
            if len(self.cache) > 4:
                self.cache.clear()
            kind, n = self.items[i]
            self.cache[i] = float_rows(family(kind, n))
        return self.cache[i]

    def lengths(self):
        return [n for _, n in self.items]
