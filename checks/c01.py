"""C01: the Euclidean Boruvka spanning tree is an exact minimum spanning tree."""
from mc.core import Space
from mc import entry, gens, oracle as O
from mc.euclid import ref, array

ASSUMPTIONS = [
    "coordinates are small integers or dyadic fractions: squared distances are exact in float32",
    "worker threads of the compiled code: one (interleavings are explored by C02)",
]


def run_tree(rows, ms, repro, leaf, threads, ctx):
    from mc import sut

    X = array(rows)
    with sut.leaf_size(leaf), sut.thread_count(threads):
        edges, _, core = sut.compute_minimum_spanning_tree(X, min_samples=ms, reproducible=repro)
    n = len(rows)
    W, exp = ref(rows).mst(ms)
    es = O.check_mst(edges, W, n, exp=exp)
    ctx.state(rows, ms, tuple(es))
    ctx.trans(len(es))
    ctx.trace()


def run_entry(rows, ms, mcs, repro, kind, form, leaf, ctx):
    from mc import sut

    n = len(rows)
    with sut.leaf_size(leaf):
        L = entry.linkage(entry.as_form(rows, form), kind, min_samples=ms, min_cluster_size=mcs, reproducible=repro)
    W, exp = ref(rows).mst(mcs if ms is None else ms)
    entry.check_levels(L, W, exp, n)
    ctx.state(rows, ms, mcs, L.tobytes())
    ctx.trans(n - 1)
    ctx.trace()


def classify(space, case, key, msg):
    # recorded: with min_samples >= number of samples the tree has edges to a sample that does not exist
    if case[1] is not None and case[1] >= len(case[0]) and key in ("mst-endpoint", "mst-cycle", "mst-weight", "mst-shape"):
        return "min-samples-ge-n"
    # recorded: data stored column by column are refused by the compiled tree builder
    if space == "forms" and case[5] == "fortran" and len(case[0][0]) > 1 and key == "raise:TypeError":
        return "column-order"
    return None


def case_space(name, datasets, variants, ms_of, note, chunk=64):
    size, decode = gens.with_params(datasets, lambda n: [(ms,) + v for ms in ms_of(n) for v in variants])
    return Space(name, size, decode, lambda c, ctx: run_tree(*c, ctx), chunk=chunk, note=note)


def entry_space(name, datasets, params_of, note, chunk=64):
    size, decode = gens.with_params(datasets, params_of)
    return Space(name, size, decode, lambda c, ctx: run_entry(*c, ctx), chunk=chunk, note=note)


V_ALL = [(False, 40, None), (False, 1, None), (True, 1, 1), (True, 2, 2)]
LARGE = ["line-shuffled", "far-pair", "two-rings", "quadratic"]
V_SMALL = [(False, 1, None), (True, 1, 3)]


def build(tier):
    thorough = tier == "thorough"
    all_ms = lambda n: list(range(1, n + 2))
    line = gens.line_data([((0, 1, 2, 3), n) for n in range(2, 6)] + [((0, 1, 3), 6)])
    if thorough:
        line += gens.line_data([((0, 1, 2, 3), 6), ((0, 1, 3), 8)])
    bits = 16 if thorough else 12
    sizes = list(range(2, 420)) if thorough else list(range(2, 131)) + [159, 160, 161, 162, 319, 320, 321, 322]
    spaces = [
        case_space("line", line, V_ALL, all_ms, "all sequences of 2-6 points on an integer line"),
        case_space("plane", gens.grid_multisets((3, 3), range(3, 7)), V_ALL, all_ms,
                   "all multisets of 3-6 points of a 3x3 grid"),
        case_space("plane-order", gens.grid_sequences((2, 3), [5 if thorough else 4]), V_SMALL, all_ms,
                   "all row orders on a 2x3 grid"),
        case_space("cube", gens.grid_multisets((2, 2, 2), range(3, 9 if thorough else 7)), V_SMALL, all_ms,
                   "multisets of corners of a cube"),
        case_space("binary", gens.line_data([((0, 1), bits)]), [(False, 1, None), (True, 1, 2)], lambda n: [1, 2, 5],
                   "all 0/1 sequences of length %d" % bits),
        case_space("scales", gens.scaled(gens.line_data([((0, 1, 3), 4)]) + gens.grid_multisets((3, 3), [4])), V_SMALL,
                   lambda n: [1, 2, 3], "very small and very large coordinates"),
        case_space("sizes", gens.family_data(sizes),
                   [(False, 40, None), (True, 40, 1), (True, 40, 8), (False, 5, None)],
                   lambda n: sorted(set([1, 2, 3, 5, 10, max(1, n - 1), n])), chunk=28,
                   note="structured data of every size across leaf and block boundaries"),
        case_space("plane7", gens.grid_multisets((3, 3), [7]), V_ALL if thorough else [(False, 1, None)],
                   all_ms if thorough else (lambda n: [1, 2, 3, 4]), "all multisets of 7 points of a 3x3 grid"),
    ]
    spaces += [
        case_space("large", gens.family_data([1000, 2047, 2049] + ([4100] if thorough else []), LARGE),
                   [(False, 40, None), (True, 40, 1), (True, 40, 2), (True, 40, 8)],
                   lambda n: [1, 2, 10], chunk=3, note="structured data with large components in the last rounds"),
        case_space("columns", gens.column_data(range(1, 31), [5, 45]), [(False, 40, None), (True, 3, 2)],
                   lambda n: [1, 2, 3], note="every number of columns up to 30"),
        entry_space("entry", gens.line_data([((0, 1, 3), n) for n in (3, 4, 5)]) + gens.grid_multisets((3, 3), [4]),
                    lambda n: [(ms, mcs, rep, kind, "float64", 1) for ms in (None, 1, 2, n - 1)
                               for mcs in ((2, n - 1) if ms is None else (2,)) for rep in (False, True)
                               for kind in entry.KINDS],
                    "the estimator, fit-and-predict and the function give the hierarchy of the minimum spanning tree"),
        entry_space("forms", gens.family_data([3, 5, 8, 41, 50, 90], ["line-shuffled", "quadratic", "cube", "negative",
                                                                      "heavy-ties", "wide"]),
                    lambda n: [(ms, 2, rep, kind, form, 40) for ms in (1, 2) for rep in (False, True)
                               for kind in ("class", "function") for form in entry.FORMS],
                    "number types, memory layouts and lists", chunk=40),
    ]
    if thorough:
        spaces.append(case_space("plane4", gens.grid_multisets((4, 4), (5, 6)), V_ALL, all_ms,
                                 "all multisets of 5, 6 points of a 4x4 grid"))
    return spaces
