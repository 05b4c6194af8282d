"""C09: cluster selection follows the documented rules."""
import math

import numpy as np

from mc.core import Space, Violation
from mc import hier, oracle as O, recorded as R

ASSUMPTIONS = [
    "distances are powers of two, so stabilities are exact in single precision and ties are real ties",
    "where a density is infinite the optimum is undefined: then every selection of allowed, disjoint clusters passes",
    "a selection epsilon is applied only when more than one cluster is selected",
]
INF = float("inf")


def judge_simplified(t, base, pers, ct, bare, n, ctx):
    try:
        O.check_simplified(t, base, pers)
        O.check_ctree_semantics(t)
    except Violation as v:
        if not R.same_rows(O.ctree_rows(ct), R.simplify(bare, n, pers)):
            raise
        ctx.known("persistence-disconnected" if R.splits_at_zero(bare, n) else "persistence-nested", v.msg)


def recorded_selections(t, rows, sel, params, n):
    """(finding, selection) of the recorded flaws that can play a part here."""
    mcs, method, max_size, single, eps, pers = params
    sels = [(None, sel)]
    if method == "eom" and single and n - 1 <= max_size < n:
        s = O.eom_reference(t, max_size, single, n - 1)
        if s is not None:
            sels.append(("max-size-of-root", s))
    out = []
    for f, s in sels:
        if f:
            out.append((f, O.epsilon_reference(t, s, eps)))
        if eps > 0 and len(s) > 1:
            out.append((f or "epsilon-unrelated", R.epsilon(rows, n, sorted(s), eps)))
    return out


def judge_selection(v, labels, t, rows, sel, params, n, ctx):
    for f, s in recorded_selections(t, rows, sel, params, n):
        try:
            O.check_same_grouping(labels, O.labels_reference(t, s, params[4], n), "selection", "selection")
        except Violation:
            continue
        return ctx.known(f, v.msg)
    lab, gaps = R.renumber(labels, t)
    if gaps:
        exp = O.labels_reference(t, O.epsilon_reference(t, sel, params[4]), params[4], n)
        O.check_same_grouping(lab, exp, "selection", "selection")
        return  # numbers of clusters without members are C10's subject
    raise v


def judge_keyerror(e, edges, params, ctx):
    """The only recorded KeyError: one cluster other than the whole data set is selected."""
    mcs, method, max_size, single, eps, pers = params
    n = len(edges) + 1
    _, _, L, ct, _ = hier.run_tree(edges, min_cluster_size=mcs, cluster_selection_method="leaf",
                                   cluster_selection_persistence=pers)
    t = O.parse_ctree(ct, n)
    rows = O.ctree_rows(ct)
    sel = O.leaf_reference(t) if method == "leaf" else O.eom_reference(t, max_size, single, n)
    if sel is None:
        raise e
    cands = [O.epsilon_reference(t, sel, eps)] + [s for _, s in recorded_selections(t, rows, sel, params, n)]
    if any(len(s) == 1 and s[0] != t.root for s in cands):
        return ctx.known("one-cluster-keyerror", "KeyError: %s" % e)
    raise e


def run_no_split(c, ctx):
    """Persistence thresholds on hierarchies without any split leave them as they are (interpreted: the recorded
    flaw reads outside an array)."""
    edges, (mcs, pers) = c
    n = len(edges) + 1
    labels, strengths, L, ct, mst = hier.run_tree(edges, min_cluster_size=mcs)
    t = O.parse_ctree(ct, n)
    if t.children[t.root]:
        return
    labels, strengths, L, ct, mst = hier.run_tree(edges, min_cluster_size=mcs, cluster_selection_persistence=pers)
    O.check_ctree_equal(O.parse_ctree(ct, n), O.condense_reference(L, n, mcs))
    if any(int(x) != -1 for x in labels):
        raise Violation("labels %s without any cluster" % list(labels), "selection")
    ctx.state(edges, mcs, pers)
    ctx.trace()


def classify(space, case, key, msg):
    if space == "no-split" and key == "raise:IndexError":
        return "persistence-no-split"
    return None


def run(c, ctx):
    edges, (mcs, method, max_size, single, eps, pers) = c
    n = len(edges) + 1
    kw = dict(min_cluster_size=mcs, cluster_selection_method=method, max_cluster_size=max_size,
              allow_single_cluster=single, cluster_selection_epsilon=eps, cluster_selection_persistence=pers)
    bare = hier.bare_tree(edges, mcs) if pers > 0 else None
    if bare is not None and not R.has_split(bare, n):
        ctx.count("left_to_no_split_space")
        return
    try:
        labels, strengths, L, ct, mst = hier.run_tree(edges, **kw)
    except KeyError as e:
        return judge_keyerror(e, edges, c[1], ctx)
    t = O.parse_ctree(ct, n)
    base = O.condense_reference(L, n, mcs)
    if pers > 0:
        judge_simplified(t, base, pers, ct, bare, n, ctx)
    else:
        O.check_ctree_semantics(t)
        O.check_ctree_equal(t, base)
    sel = O.leaf_reference(t) if method == "leaf" else O.eom_reference(t, max_size, single, n)
    if sel is None or (method == "eom" and O.eom_is_tight(t, max_size, single, n)):
        if sel is None and eps == 0:
            O.check_some_selection(t, R.renumber(labels, t)[0], eps, n, max_size, single)
            ctx.count("optimum_undefined")
        else:
            ctx.count("skipped_tight")
    else:
        chosen = O.epsilon_reference(t, sel, eps)
        exp = O.labels_reference(t, chosen, eps, n)
        try:
            O.check_same_grouping(labels, exp, "selection %s" % (
                sorted(O.popcount(t.mask[s]) for s in chosen),), "selection")
        except Violation as v:
            judge_selection(v, labels, t, O.ctree_rows(ct), sel, c[1], n, ctx)
    ctx.state(edges, mcs, method, max_size, single, eps, pers, tuple(int(x) for x in labels))
    ctx.trans(len(t.birth))
    ctx.trace()


def grid(mcs=(2,), methods=("eom", "leaf"), max_sizes=(INF,), singles=(False, True), eps=(0.0,), pers=(0.0,)):
    def params(n):
        out = []
        for m in mcs:
            for me in methods:
                for mx in (max_sizes(n) if callable(max_sizes) else max_sizes):
                    for s in singles:
                        if me == "leaf" and (s or mx != INF):
                            continue
                        for e in eps:
                            for p in pers:
                                out.append((m, me, float(mx), s, e, p))
        return out

    return params


PERS = (0.03125, 0.0625, 0.125, 0.25, 0.3, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, INF)
EPS = (0.25, 0.5, 1.0, 2.0, 3.0, 4.0, 8.0, 16.0, 100.0)


def build(tier):
    T = tier == "thorough"
    ch4 = hier.group_chain(4, 2, (0.25, 0.5, 1.0), (2, 4, 8), renames=(0,))
    ch5 = hier.group_chain(5, 2, (0.5, 1.0), (2, 4, 8, 16), renames=(0,))
    ch5x = hier.group_chain(5, 2, (0.25, 0.5, 1.0), (2, 4, 8, 16), renames=(0,))
    ch6 = hier.group_chain(6, 2, (1.0,), (2, 4, 8, 16, 32), renames=(0, 3))
    mix = hier.group_chain(4, 2, (0.5, 1.0), (2, 2, 4), renames=(0, 2)) + \
        hier.group_chain(5, 2, (1.0,), (1, 2, 2, 4), renames=(0,)) + \
        hier.group_chain(3, 3, (0.5, 1.0), (2, 4), renames=(0, 1, 2, 3))
    inf = hier.group_chain(4, 2, (0.5, 1.0), (2, 4, INF), renames=(0, 1)) + \
        hier.group_chain(4, 2, (0.5, 1.0), (2, INF, INF)) + hier.group_chain(5, 2, (0.5, 1.0), (2, 4, 8, INF))
    two = sum([hier.group_chain(2, s, (0.25, 0.5, 1.0), (o,)) for s in (2, 3, 4) for o in (1.0, 2.0, 4.0)], [])
    paths = sum([hier.path_permutations(n) for n in range(2, 8)], [])
    ties = sum([hier.path_gaps(n, (1, 2, 4)) for n in range(2, 7)], [])
    deg = sum([hier.path_gaps(n, (0, 1, 2, INF)) for n in range(2, 7)], [])
    sizes_of = lambda n: [INF] + list(range(2, n + 1))
    return [
        hier.tree_space("eom-leaf", paths + ties + ch4 + (ch5x if T else ch5) + ch6 + mix + inf, grid(mcs=(2, 3)), run,
                        "every selection method on every small hierarchy"),
        hier.tree_space("scales", hier.scaled(paths[-120:] + ch4 + mix), grid(), run,
                        "very small and very large distances"),
        hier.tree_space("max-size", two + ch4 + ch6 + mix + inf + paths[-720:] + (ch5x if T else ch5),
                        grid(methods=("eom",), max_sizes=sizes_of), run, "every maximum cluster size"),
        hier.tree_space("epsilon", ch4 + mix + inf + ties + (ch5x if T else ch5), grid(eps=EPS), run,
                        "selection epsilons at, between and beyond all merge distances"),
        hier.tree_space("epsilon-deep", ch6, grid(eps=(2.0, 4.0, 8.0, 16.0, 32.0, 33.0), singles=(False,)), run,
                        "selection epsilons on deep hierarchies"),
        hier.tree_space("persistence", ch4 + mix + inf + ties[-243:] + (ch5x if T else ch5),
                        grid(pers=PERS, singles=(False,)), run, "persistence thresholds"),
        hier.tree_space("persistence-deep", ch6 + paths[-720:],
                        grid(pers=(0.015625, 0.125, 0.25, 0.5, 0.9), singles=(False,), methods=("leaf",)), run,
                        "persistence thresholds on deep hierarchies"),
        hier.tree_space("combined", ch4[::1 if T else 5] + mix + inf,
                        grid(eps=(1.0, 2.0, 5.0), pers=(0.25, 0.5), max_sizes=(INF, 3, 4)), run,
                        "epsilon, persistence and maximum size together"),
        hier.tree_space("no-split", sum([hier.path_gaps(n, (0, 1, 2, INF)) for n in range(2, 5)], []),
                        lambda n: [(mcs, p) for mcs in (2, 3) for p in (0.25, 1.0)], run_no_split,
                        "hierarchies without splits", mode="interp"),
        hier.tree_space("degenerate", deg, grid(mcs=(2, 3), eps=(0.0, 1.5), pers=(0.0, 0.5)), run,
                        "zero and infinite distances"),
    ]
