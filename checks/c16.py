"""C16: semi-supervised selection maximises agreement with the given labels."""
import itertools
import math
from fractions import Fraction

import numpy as np

from mc.core import Space, Violation, product_space
from mc import gens, hier, oracle as O, recorded as R
from mc.euclid import array

ASSUMPTIONS = [
    "densities are powers of two or small integers, so stabilities are exact in single precision",
    "scores that are equal or closer than 1e-5 by different sums may be decided either way by rounding; ties of "
    "clusters with the same labelled samples, and of clusters without any, are real ties",
    "a hierarchy without any split may give no cluster or, if a single cluster is allowed, that one",
]
NEAR = 1e-5


class Agreement:
    """Scores over the condensed tree of the implementation, in exact arithmetic."""

    def __init__(self, t, y, virtual):
        self.t, self.y, self.virtual = t, y, virtual
        self.total = sum(1 for v in y if v > -1)
        self.count = {}
        for v in y:
            if v > -1:
                self.count[v] = self.count.get(v, 0) + 1
        self.stab = O.stabilities(t)

    def content(self, mask):
        c = {}
        for i, v in enumerate(self.y):
            if v > -1 and mask >> i & 1:
                c[v] = c.get(v, 0) + 1
        return tuple(sorted(c.items()))

    def score(self, content):
        m = sum(k for _, k in content)
        return sum((Fraction(2 * k * k, self.total * (m + self.count[v])) for v, k in content), Fraction(0))

    def options(self, c):
        """Every (score, stability, selection, labelled contents) that rounding can make the best below c."""
        t = self.t
        subs = [self.options(k) for k in t.children[c]]
        if self.virtual and t.children[c]:
            for p, _ in t.points[c]:
                if self.y[p] > -1:
                    ct = self.content(1 << p)
                    subs.append([(self.score(ct), 0.0, frozenset(), (ct,))])
        combos = set()
        for pick in itertools.product(*subs):
            combos.add((sum((p[0] for p in pick), Fraction(0)), None if self.stab is None else sum(p[1] for p in pick),
                        frozenset().union(*[p[2] for p in pick]), tuple(sorted(x for p in pick for x in p[3]))))
        mine = self.content(t.mask[c])
        own = (self.score(mine), None if self.stab is None else self.stab[c], frozenset([c]), (mine,) if mine else ())
        out = set()
        for s in combos:
            out |= self.better(s, own)
        return sorted(out, key=lambda o: sorted(o[2]))

    def better(self, below, own):
        a, b = below[0], own[0]
        if a == b and (a == 0 or below[3] == own[3]):
            x, y = below[1], own[1]
            if x is None or (x != y and abs(x - y) <= NEAR * max(abs(x), abs(y))):
                return {below, own}
            return {below} if x > y else {own}
        if abs(a - b) <= NEAR * max(a, b):
            return {below, own}
        return {below} if a > b else {own}

    def selections(self, single):
        t = self.t
        if not t.children[t.root]:
            return [frozenset()] + ([frozenset([t.root])] if single else [])
        if single:
            return sorted({o[2] for o in self.options(t.root)}, key=sorted)
        res = {frozenset()}
        for k in t.children[t.root]:
            res = {r | o[2] for r in res for o in self.options(k)}
        return sorted(res, key=sorted)


def judge(labels, ct, n, y, virtual, single, ctx):
    t = O.parse_ctree(ct, n)
    sels = Agreement(t, y, virtual).selections(single)
    if len(sels) > 1:
        ctx.count("decided_by_rounding")
    lab = R.renumber(labels, t)[0]
    for i, s in enumerate(sels):
        try:
            O.check_same_grouping(lab, O.labels_reference(t, sorted(s), 0.0, n), "labels %s: selection %s" % (
                list(y), sorted(O.popcount(t.mask[k]) for k in s)), "selection")
            return t
        except Violation:
            if i == len(sels) - 1:
                raise


def run(c, ctx):
    (edges, y), (mcs, algo, single) = c
    n = len(edges) + 1
    kw = dict(min_cluster_size=mcs, semi_supervised=True, ss_algorithm=algo, allow_single_cluster=single)
    labels, _, _, ct, _ = hier.run_tree(edges, data_labels=np.array(y, dtype=np.int64), **kw)
    t = judge(labels, ct, n, y, algo == "bc", single, ctx)
    ctx.trans(len(t.birth))
    ctx.state(edges, y, mcs, algo, single)
    ctx.trace()


FORMS = {
    "plain": lambda y: np.array(y, dtype=np.int64),
    "int32": lambda y: np.array(y, dtype=np.int32),
    "int8": lambda y: np.array(y, dtype=np.int8),
    "float32": lambda y: np.array(y, dtype=np.float32),
    "float": lambda y: np.array(y, dtype=np.float64),
    "nan": lambda y: np.array([math.nan if v < 0 else v for v in y]),
    "inf": lambda y: np.array([math.inf if v < 0 else v for v in y]),
    "list": lambda y: list(y),
    "negative": lambda y: np.array([-7 if v < 0 else v for v in y]),
    "renamed": lambda y: np.array([v if v < 0 else (40, 7, 0, 3)[v] for v in y]),
    "swapped": lambda y: np.array([v if v < 0 else 3 - v for v in y]),
}


def run_fit(c, ctx):
    from mc import sut

    rows, y, form, algo, single, ms = c
    n = len(rows)
    kw = dict(semi_supervised=True, ss_algorithm=algo, allow_single_cluster=single, min_samples=ms, min_cluster_size=2)
    est = sut.HDBSCAN(**kw)
    try:
        est.fit(array(rows), FORMS[form](y))
    except ValueError as e:
        if form not in ("nan", "inf"):
            raise
        ctx.count("refused_labels")     # labels that are not finite may be refused or count as unlabelled
    else:
        judge(est.labels_, np.array(est.condensed_tree_.to_numpy()), n, y, algo == "bc", single, ctx)
    ctx.state(c)
    ctx.trace()


def classify(space, case, key, msg):
    if space == "estimator" and key == "raise:TypingError" and case[2] in ("int32", "int8", "float32", "float"):
        return "label-dtype"
    return None


def labelled(trees, labelings):
    return [(t, y) for t in trees for y in labelings(len(t) + 1)]


def all_labels(classes):
    return lambda n: list(itertools.product(range(-1, classes), repeat=n))


def group_labels(size, patterns, perm=0):
    def f(n):
        out = []
        for ps in itertools.product(patterns, repeat=n // size):
            flat = [v for p in ps for v in p]
            y = [0] * n
            for i, j in enumerate(hier.perms_of(n)[perm]):
                y[j] = flat[i]
            out.append(tuple(y))
        return out

    return f


def build(tier):
    T = tier == "thorough"
    ALL = [(2, a, s) for a in ("bc", "bc_simple") for s in (False, True)]
    paths = sum([hier.path_permutations(n) for n in range(2, 6)], [])
    p6 = hier.path_permutations(6)
    p7 = hier.path_permutations(7)
    ch4 = hier.group_chain(4, 2, (1.0,), (2, 4, 8), renames=(0,))
    ch4x = hier.group_chain(4, 2, (0.25, 0.5, 1.0), (2, 4, 8), renames=(0, 2))
    ch3 = hier.group_chain(3, 3, (0.5, 1.0), (2, 4), renames=(0,))
    ch5 = hier.group_chain(5, 2, (1.0,), (2, 4, 8, 16), renames=(0,))
    ch6 = hier.group_chain(6, 2, (1.0,), (2, 4, 8, 16, 32), renames=(0,))
    pairs = ((-1, -1), (0, -1), (1, 1), (0, 1))
    sp = []

    def add(name, cases, params, note, chunk=64):
        m = len(params)
        sp.append(Space(name, len(cases) * m, lambda i: (cases[i // m], params[i % m]), run, chunk=chunk, note=note))

    add("small", labelled(paths, all_labels(3)) + labelled(p6, all_labels(2)), ALL,
        "every merge order of up to 5 samples with 3 classes, of 6 samples with 2, every partial labelling")
    seven = lambda n: [y for y in itertools.product((-1, 0, 1), repeat=n) if sum(v >= 0 for v in y) in (2, 3, 4)][::1 if T else 5]
    add("seven", labelled(p7[::1 if T else 6], seven), ALL[::1 if T else 2],
        "7 samples in a row with two to four labelled ones")
    add("four-groups", labelled(ch4, all_labels(2)), ALL, "four pairs, every merge order, every labelling by 2 classes")
    add("three-groups", labelled(ch3, group_labels(3, list(itertools.product((-1, 0, 1), repeat=3))[::1 if T else 2])),
        [(3, "bc", False), (2, "bc_simple", True), (3, "bc_simple", False), (2, "bc", True)],
        "three groups of three")
    add("densities", labelled(ch4x, lambda n: [y for y in itertools.product((-1, 0), repeat=n) if sum(y) + n <= 2]), ALL,
        "few labels: most decisions by stability")
    third = hier.group_chain(4, 2, (1 / 3, 0.25), (0.5, 1, 2), renames=(0, 2))
    add("equal-stability", labelled(third, lambda n: [y for y in itertools.product((-1, 0), repeat=n) if sum(y) + n <= 2]), ALL,
        "clusters exactly as stable as the two they split into")
    add("five-groups", labelled(ch5, group_labels(2, pairs if T else pairs[:3] + ((0, 0),))), ALL[::1 if T else 3],
        "five pairs, labels per pair")
    add("classes", labelled(ch4 + ch5[:4] + ch6[:4], lambda n: [
        tuple(((i * k) // d + s) % m if (i * q) % 3 else -1 for i in range(n))
        for k in (1, 2, 3) for d in (1, 2, 3) for s in (0, 1) for m in (2, 3, 4, 5) for q in (1, 2, 3)]), ALL,
        "up to five classes")
    add("six-groups", labelled(ch6[:: 1 if T else 4], lambda n: [y for y in group_labels(2, ((-1, -1), (0, 0), (1, 1)))(n)]), ALL[:2],
        "six pairs, pure or unlabelled")
    data = [gens.float_rows((v,) for v in p) for p in ((0, 1, 4, 6, 16, 17, 24, 26), (24, 0, 16, 1, 6, 17, 4, 26),
                                                       (0, 1, 4, 6, 16, 17, 24, 26, 50))]
    F = []
    for rows in data:
        n = len(rows)
        ys = [y for y in itertools.product((-1, 0, 1), repeat=n) if sum(v >= 0 for v in y) == 3][::3]
        ys += [tuple(i % m if (i + s) % 2 else -1 for i in range(n)) for m in (2, 3, 4) for s in (0, 1)]
        for y in ys:
            for f in FORMS:
                for a, s, ms in (("bc", False, 1), ("bc_simple", True, 2), ("bc", True, 2), ("bc_simple", False, 1)):
                    F.append((rows, y, f, a, s, ms))
    sp.append(Space("estimator", len(F), lambda i: F[i], run_fit, chunk=48, note="fits with labels in every form"))
    return sp
