"""Exploration of all interleavings of parallel loops, on the code of /repo itself.

The package is imported with numba's compiler switched off and with every subscript, array call and parallel loop
replaced by a call into this module.  When a loop `for i in prange(...)` is reached, every iteration becomes a task.

 1. The tasks are executed one after the other while the memory they touch is recorded.  If no location that one task
    changes is touched by another task, the tasks are independent and every interleaving ends in the same memory.
 2. Otherwise the conflicting locations form the shared memory of a transition system.  What a task does next is a
    function of the values it has read so far from these locations (everything else it touches is its own), and is
    found by executing the task with these values.  All interleavings of the reads and writes of shared locations are
    enumerated with visited states merged; every distinct final memory is an outcome.  Locations that turn out to
    conflict only under some interleaving are added and the search starts again.
 3. The program continues after the loop with every outcome in turn.

Reads and writes of single elements are atomic and happen in program order.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

import numpy as np

from .core import REPO, Violation

LOOPS = "__verif_loop"
STEP_LIMIT = 20000


# ---- instrumentation of the sources ----------------------------------------------------------------------------------
def is_prange(call):
    f = call.func if isinstance(call, ast.Call) else None
    return (isinstance(f, ast.Attribute) and f.attr == "prange") or (isinstance(f, ast.Name) and f.id == "prange")


READERS = {"enumerate", "zip", "sum", "min", "max", "list", "set", "sorted", "tuple", "any", "all", "reversed"}


class Rewriter(ast.NodeTransformer):
    """Subscripts, array calls and iterations over arrays."""

    def __init__(self):
        self.k = 0

    def name(self, f):
        return ast.Name(f, ast.Load())

    def call(self, f, *args):
        return ast.Call(self.name(f), list(args), [])

    def index(self, node):
        """The index of a subscript as an expression."""
        if isinstance(node, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(self.name("slice"), [node.lower or none, node.upper or none, node.step or none], [])
        if isinstance(node, ast.Tuple):
            return ast.Tuple([self.index(e) for e in node.elts], ast.Load())
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return self.call("__verif_ld", node.value, self.index(node.slice))
        return node

    def store(self, target, value):
        """Statements that assign an expression (already rewritten) to a target."""
        if isinstance(target, ast.Subscript):
            return [ast.Expr(self.call("__verif_st", target.value, self.index(target.slice), value))]
        if isinstance(target, (ast.Tuple, ast.List)) and any(isinstance(t, (ast.Subscript, ast.Tuple, ast.List))
                                                            for t in target.elts):
            if any(isinstance(t, ast.Starred) for t in target.elts):
                return [ast.Assign([target], value)]
            self.k += 1
            tmp = "__verif_t%d" % self.k
            names = ["%s_%d" % (tmp, i) for i in range(len(target.elts))]
            out = [ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], value)]
            for n, t in zip(names, target.elts):
                out += self.store(t, ast.Name(n, ast.Load()))
            return out
        return [ast.Assign([target], value)]

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1:
            return self.store(node.targets[0], node.value)
        self.k += 1
        tmp = "__verif_v%d" % self.k
        out = [ast.Assign([ast.Name(tmp, ast.Store())], node.value)]
        for t in node.targets:
            out += self.store(t, ast.Name(tmp, ast.Load()))
        return out

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Subscript):
            self.k += 1
            a, i = "__verif_a%d" % self.k, "__verif_i%d" % self.k
            base, idx, val = self.visit(node.target.value), self.index(self.visit(node.target.slice)), self.visit(node.value)
            load = self.call("__verif_ld", ast.Name(a, ast.Load()), ast.Name(i, ast.Load()))
            return [ast.Assign([ast.Name(a, ast.Store())], base), ast.Assign([ast.Name(i, ast.Store())], idx),
                    ast.Expr(self.call("__verif_st", ast.Name(a, ast.Load()), ast.Name(i, ast.Load()),
                                       ast.BinOp(load, node.op, val)))]
        self.generic_visit(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ("numba",):
                return node
            return ast.Call(self.name("__verif_call"), [f.value, ast.Constant(f.attr)] + node.args, node.keywords)
        if isinstance(f, ast.Name) and f.id in READERS:
            return ast.Call(self.name("__verif_read"), [f] + node.args, node.keywords)
        return node

    def visit_For(self, node):
        if is_prange(node.iter):
            return self.parallel(node)
        self.generic_visit(node)
        if not isinstance(node.iter, ast.Call):
            node.iter = self.call("__verif_iter", node.iter)
        return node

    def parallel(self, node):
        args = [self.visit(a) for a in node.iter.args]
        label = "%s:%d" % (self.function, node.lineno - self.first)
        body = list(node.body)
        private = private_names(node)
        new = []
        for st in body:
            r = self.visit(st)
            new += r if isinstance(r, list) else [r]
        if private is None or node.orelse or not isinstance(node.target, ast.Name):
            node.body = new
            node.iter = ast.Call(self.name("__verif_sequential"), [ast.Constant(label)] + args, [])
            return node
        self.k += 1
        name = "__verif_body%d" % self.k
        new = [Continue().visit(s) for s in new]
        fn = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(node.target.id)], kwonlyargs=[],
                                                         kw_defaults=[], defaults=[]), body=new, decorator_list=[],
                             type_params=[])
        return [fn, ast.Expr(ast.Call(self.name(LOOPS), [ast.Constant(label), ast.Name(name, ast.Load())] + args, []))]

    def visit_FunctionDef(self, node):
        saved = getattr(self, "function", None), getattr(self, "first", 0)
        self.function, self.first = node.name, node.lineno
        try:
            node.body = sum([b if isinstance(b, list) else [b] for b in [self.visit(s) for s in node.body]], [])
        finally:
            self.function, self.first = saved
        return node


class Continue(ast.NodeTransformer):
    """`continue` of the parallel loop ends the task."""

    def visit_Continue(self, node):
        return ast.Return(None)

    def visit_For(self, node):
        return node

    visit_While = visit_FunctionDef = visit_Lambda = visit_For


def private_names(loop):
    """Names assigned in the body; None if the loop carries a value from one iteration to the next."""
    order = []

    class V(ast.NodeVisitor):
        def visit_Assign(self, n):
            self.visit(n.value)
            for t in n.targets:
                self.visit(t)

        def visit_AugAssign(self, n):
            self.visit(n.value)
            if isinstance(n.target, ast.Name):
                order.append((n.target.id, "load"))
                order.append((n.target.id, "store"))
            else:
                self.visit(n.target)

        def visit_For(self, n):
            self.visit(n.iter)
            self.visit(n.target)
            for s in n.body + n.orelse:
                self.visit(s)

        def comp(self, n):
            for g in n.generators:
                self.visit(g.iter)
                self.visit(g.target)
                for c in g.ifs:
                    self.visit(c)
            for f in ("elt", "key", "value"):
                if hasattr(n, f):
                    self.visit(getattr(n, f))

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_Name(self, n):
            order.append((n.id, "load" if isinstance(n.ctx, ast.Load) else "store"))

    for s in loop.body:
        V().visit(s)
    stored = set(n for n, how in order if how == "store")
    first = {}
    for n, how in order:
        first.setdefault(n, how)
    for n in stored:
        if first[n] == "load":
            return None
    for s in ast.walk(ast.Module(loop.body, [])):
        if isinstance(s, (ast.Return, ast.Yield, ast.Global, ast.Nonlocal)):
            return None
    return stored


def instrument(source, path):
    tree = ast.parse(source, path)
    rw = Rewriter()
    body = []
    for node in tree.body:
        if isinstance(node, ast.FunctionDef):
            body.append(rw.visit(node))
        else:
            body.append(node)
    tree.body = body
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


class Loader(importlib.abc.SourceLoader):
    def __init__(self, path):
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as f:
            return f.read()

    def path_stats(self, path):
        raise OSError  # no cached bytecode

    def source_to_code(self, data, path, *, _optimize=-1):
        return instrument(data.decode(), path)

    def exec_module(self, module):
        module.__dict__.update({"__verif_ld": ld, "__verif_st": st, "__verif_call": call, "__verif_read": read_call,
                                "__verif_iter": iterate, "__verif_sequential": sequential, LOOPS: loop})
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if not name.startswith("fast_hdbscan.") or ".tests" in name:
            return None
        p = os.path.join(REPO, *name.split(".")) + ".py"
        if not os.path.exists(p):
            return None
        return importlib.util.spec_from_loader(name, Loader(p), origin=p)


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        if "fast_hdbscan" in sys.modules:
            raise RuntimeError("the package has been imported already")
        sys.meta_path.insert(0, Finder())


# ---- execution of tasks ----------------------------------------------------------------------------------------------
class Stop(BaseException):
    """The task is about to read shared locations."""

    def __init__(self, locs):
        self.locs = locs


class State:
    run = None       # the task being executed
    engine = None    # the exploration in progress


S = State()


def root(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def ptr(a):
    return a.__array_interface__["data"][0]


def element(a, k):
    """Address of a single element."""
    k = k if isinstance(k, tuple) else (k,)
    p = ptr(a)
    for i, n, s in zip(k, a.shape, a.strides):
        i = int(i)
        p += (i + n if i < 0 else i) * s
    return p


def addresses(a):
    out = [ptr(a)]
    for n, s in zip(a.shape, a.strides):
        out = [p + i * s for p in out for i in range(n)]
    return out


class Run:
    """One execution of one task, given the values it reads from shared locations."""

    def __init__(self, engine, task, tracked, history=(), shared=frozenset()):
        self.engine, self.task, self.history, self.shared = engine, task, history, shared
        self.tracked = tracked   # arrays (roots) whose reads are recorded
        self.pos = 0
        self.pending = []
        self.undo = []
        self.touched, self.changed = set(), set()
        self.boxes, self.boxes_changed = {}, set()
        self.steps = 0

    def step(self):
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Violation("a task does not end", "task-endless")

    # reads
    def read(self, locs):
        self.step()
        self.touched.update(locs)
        if self.shared:
            want = tuple(p for p in locs if p in self.shared)
            if want:
                if self.pos == len(self.history):
                    raise Stop(want)
                for p, v in zip(want, self.history[self.pos]):
                    self.engine.poke(p, v)
                self.pos += 1
                self.pending = []

    def read_array(self, a):
        if a.size and id(root(a)) in self.tracked:
            self.read(addresses(a))

    def load(self, a, k):
        if isinstance(a, np.ndarray):
            v = a[k]
            if id(root(a)) not in self.tracked:
                self.steps += 1
                return v
            if isinstance(v, np.ndarray) and v.ndim:
                if v.base is not None and root(v) is root(a):
                    return v
                self.read(addresses(a))
                return a[k]
            if isinstance(v, np.void):
                self.read(addresses(a))
                return a[k]
            self.read((element(a, k),))
            return a[k]
        if isinstance(a, (dict, list, set)):
            self.box(a, False)
        return a[k]

    # writes
    def write(self, a, k, v):
        self.step()
        base = id(root(a))
        if base not in self.tracked:
            if base not in self.engine.pre:
                a[k] = v  # made by the task itself
                return
            self.engine.grow.add(base)
        target = a[k]
        if isinstance(target, np.ndarray) and target.ndim:
            if target.base is None or root(target) is not root(a):
                target = a  # selected elements: treat as a write of the whole array
            locs = addresses(target)
            old = target.copy()
            a[k] = v
            self.undo.append((target, Ellipsis, old))
            before, after = old.ravel().tolist(), target.ravel().tolist()
            for p, x, y in zip(locs, before, after):
                self.note(p, x, y)
            return
        p = element(a, k)
        old = target.item() if hasattr(target, "item") else target
        self.undo.append((a, k, target.copy() if hasattr(target, "copy") else target))
        a[k] = v
        self.note(p, old, a[k].item())

    def note(self, p, old, new):
        self.touched.add(p)
        if not (old == new or (old != old and new != new)):
            self.changed.add(p)
        if p in self.shared:
            self.pending.append((p, new))

    def store(self, a, k, v):
        if isinstance(a, np.ndarray):
            return self.write(a, k, v)
        if isinstance(a, (dict, list)):
            self.box(a, True)
        a[k] = v

    # dictionaries, lists and sets
    def box(self, b, change):
        self.step()
        if id(b) not in self.engine.pre_boxes:
            return
        self.boxes[id(b)] = b
        if change and id(b) not in self.boxes_changed:
            self.boxes_changed.add(id(b))
            self.undo.append((b, None, b.copy()))

    def rollback(self):
        for a, k, old in reversed(self.undo):
            restore(a, k, old)
        self.undo = []

    def execute(self):
        """'done', or the locations the task wants to read next."""
        S.run = self
        try:
            self.engine.body(self.engine.items[self.task])
            return "done"
        except Stop as s:
            return s.locs
        finally:
            S.run = None


def restore(a, k, old):
    if isinstance(a, np.ndarray):
        a[k] = old
    elif isinstance(a, list):
        a[:] = old
    else:
        a.clear()
        a.update(old)


def reach(body):
    """Arrays (roots) and containers a loop body can reach, and a key of their contents."""
    roots, boxes, key, seen = {}, {}, [], set()
    exact = True
    todo = []
    for c in body.__closure__ or ():
        try:
            todo.append(c.cell_contents)
        except ValueError:
            todo.append(None)
    todo.reverse()
    while todo:
        x = todo.pop()
        if isinstance(x, np.ndarray):
            r = root(x)
            if id(r) not in roots:
                roots[id(r)] = r
                key.append(r.tobytes())
            key.append((list(roots).index(id(r)), ptr(x) - ptr(r), x.shape, x.strides, x.dtype.str))
        elif isinstance(x, tuple):
            key.append(("t", len(x)))
            todo.extend(reversed(x))
        elif isinstance(x, (list, set, dict)):
            if id(x) in seen:
                exact = False
                continue
            seen.add(id(x))
            boxes[id(x)] = x
            key.append((type(x).__name__, len(x)))
            if isinstance(x, dict):
                todo.extend(list(x.values()))
                todo.extend(list(x.keys()))
            elif isinstance(x, list):
                todo.extend(reversed(x))
            else:
                todo.extend(sorted(x, key=repr))
        elif isinstance(x, (int, float, str, bytes, bool, np.generic, type(None), type)) or callable(x):
            key.append(repr(x))
        else:
            exact = False
    return roots, boxes, tuple(key) if exact else None


MUTATORS = {"append", "add", "pop", "extend", "insert", "remove", "clear", "update", "setdefault", "popitem", "discard"}
IN_PLACE = {"sort", "fill", "partition", "put", "itemset"}


def ld(a, k):
    r = S.run
    return a[k] if r is None else r.load(a, k)


def st(a, k, v):
    r = S.run
    if r is None:
        a[k] = v
    else:
        r.store(a, k, v)


def read_all(r, args):
    for x in args:
        if isinstance(x, np.ndarray):
            r.read_array(x)
        elif isinstance(x, (dict, list, set)):
            r.box(x, False)


def call(obj, name, /, *args, **kw):
    f = getattr(obj, name)
    r = S.run
    if r is None:
        return f(*args, **kw)
    if isinstance(obj, np.ndarray):
        read_all(r, (obj,) + args)
        if name in IN_PLACE:
            new = obj.copy()
            getattr(new, name)(*args, **kw)
            return r.write(obj, Ellipsis if obj.ndim != 1 else slice(None), new)
        return f(*args, **kw)
    if isinstance(obj, (dict, list, set)):
        r.box(obj, name in MUTATORS)
        return f(*args, **kw)
    mod = getattr(obj, "__name__", "")
    if mod == "numpy" or mod.startswith("numpy."):
        if name not in ("full", "empty", "zeros", "ones", "empty_like", "full_like", "zeros_like", "ones_like", "arange"):
            read_all(r, args)
    return f(*args, **kw)


def read_call(f, /, *args, **kw):
    if S.run is not None:
        read_all(S.run, args)
    return f(*args, **kw)


def iterate(x):
    if S.run is not None:
        read_all(S.run, (x,))
    return x


def sequential(label, *args):
    """A loop that carries values (a reduction): executed in order."""
    if S.run is None and S.engine is not None:
        S.engine.count("loops_in_order")
    return range(*[int(a) for a in args])


def loop(label, body, *args):
    items = list(range(*[int(a) for a in args]))
    if S.run is not None or S.engine is None or len(items) < 2:
        for i in items:
            body(i)
        return
    S.engine.loop(label, body, items)


# ---- exploration -----------------------------------------------------------------------------------------------------
class Explorer:
    """Runs a program once for every combination of outcomes of its parallel loops."""

    def __init__(self, cap=60000, paths=1000, max_loops=400):
        self.cap, self.paths, self.max_loops = cap, paths, max_loops
        self.stats = dict(loops=0, racing_loops=0, states=0, transitions=0, outcomes=0, executions=0, tasks=0)
        self.racing = {}
        self.cache = {}

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def explore(self, program):
        """Yields the result of the program for every outcome."""
        stack = [()]
        n = 0
        while stack:
            if n >= self.paths:
                self.count("paths_cut", len(stack))
                return
            self.prefix = stack.pop()
            self.trail = []
            self.more = []
            S.engine = self
            try:
                out = program()
            finally:
                S.engine = None
                S.run = None
            n += 1
            self.count("executions")
            stack.extend(self.more)
            yield out

    # one loop
    def loop(self, label, body, items):
        self.body, self.items, self.label = body, items, label
        k = len(self.trail)
        if k >= self.max_loops:
            raise Violation("more than %d parallel loops: the computation does not end" % k, "endless")
        self.pre, self.pre_boxes, key = reach(body)
        key = (label, tuple(items)) + (("path",) + tuple(self.trail) if key is None else key)
        if key not in self.cache:
            self.cache[key] = self.outcomes()
        images = self.cache[key]
        if k < len(self.prefix):
            choice = self.prefix[k]
        else:
            choice = 0
            for i in range(1, len(images)):
                self.more.append(tuple(self.trail) + (i,))
        self.trail.append(choice)
        arrays, boxes = list(self.pre.values()), list(self.pre_boxes.values())
        for i, a in images[choice][0]:
            arrays[i][...] = a
        for i, b in images[choice][1]:
            restore(boxes[i], None, b)

    def outcomes(self):
        """The possible memories after the loop; the memory itself is left as it was."""
        self.count("loops")
        self.count("tasks", len(self.items))
        self.grow = set()
        first = [Run(self, t, self.pre) for t in range(len(self.items))]
        for r in first:
            r.execute()
        conflicts = self.conflicts(first, self.label)
        if not conflicts:
            images = [self.image(first)]
            for r in reversed(first):
                r.rollback()
            return images
        self.count("racing_loops")
        for r in reversed(first):
            r.rollback()
        found = self.search(first, conflicts, self.label)
        images, seen = [], set()
        for o in found:
            im, runs = self.apply(o)
            for r in reversed(runs):
                r.rollback()
            for p, v in self.init.items():
                self.poke(p, v)
            sig = repr([(i, a.tobytes()) for i, a in im[0]] + im[1])
            if sig not in seen:
                seen.add(sig)
                images.append(im)
        self.count("outcomes", len(images))
        return images

    def image(self, runs):
        """Contents of everything the tasks have written."""
        ids = set(id(root(a)) for r in runs for a, k, old in r.undo if isinstance(a, np.ndarray))
        arrays = [(i, a.copy()) for i, (k, a) in enumerate(self.pre.items()) if k in ids]
        changed = set(b for r in runs for b in r.boxes_changed)
        boxes = [(i, b.copy()) for i, (k, b) in enumerate(self.pre_boxes.items()) if k in changed]
        return arrays, boxes

    def conflicts(self, runs, label):
        changed, users = {}, {}
        for r in runs:
            for p in r.changed:
                changed.setdefault(p, set()).add(r.task)
            for p in r.touched:
                users.setdefault(p, set()).add(r.task)
        boxes = {}
        for r in runs:
            for b in r.boxes:
                boxes.setdefault(b, set()).add(r.task)
        for r in runs:
            for b in r.boxes_changed:
                if len(boxes[b]) > 1:
                    raise Violation("%s: a %s is changed by one iteration and used by another" % (
                        label, type(r.boxes[b]).__name__), "container-race")
        return set(p for p in changed if len(users[p]) > 1)

    def poke(self, p, v):
        a, k = self.places[p]
        a[k] = v

    def place(self, locs):
        """Arrays and indices of addresses."""
        todo = set(locs)
        for a in self.pre.values():
            for p, k in zip(addresses(a), np.ndindex(a.shape)):
                if p in todo:
                    self.places[p] = (a, k)

    def search(self, first, shared, label):
        runs = list(first)
        shared = frozenset(shared)
        tracked = set(id(root(a)) for p in set().union(*[r.changed for r in first]) for a in self.holder(p))
        while True:
            self.group_locs = {}
            self.places = {}
            self.place(shared)
            init = {p: self.places[p][0][self.places[p][1]].item() for p in shared}
            prog = {}

            def program(t, h):
                key = (t, h)
                if key not in prog:
                    r = Run(self, t, tracked, h, shared)
                    try:
                        nxt = r.execute()
                        prog[key] = (tuple(r.pending), nxt, self.private(r, shared))
                    finally:
                        r.rollback()
                        for p, v in init.items():
                            self.poke(p, v)
                    runs.append(r)
                return prog[key]

            groups = self.groups(runs, shared)
            finals = []
            for g in groups:
                locs = tuple(sorted(p for p in shared if any(p in r.touched for r in runs if r.task in g)))
                self.group_locs[g] = locs
                finals.append(self.interleave(g, locs, init, program))
            new = self.conflicts(runs, label) - shared
            if self.grow - tracked:
                tracked = tracked | self.grow
                runs = list(first)
                continue
            if new or self.groups(runs, shared) != groups:
                shared = frozenset(shared | new)
                continue
            break
        # one representative for every final memory
        per_group = []
        for g, locs_f in zip(groups, finals):
            seen = {}
            for mem, hist in locs_f:
                image = (mem, tuple(sorted(sum([list(prog[(t, h)][2]) for t, h in zip(g, hist)], []))))
                seen.setdefault(image, (mem, hist))
            per_group.append([(g, m, h) for m, h in seen.values()])
        out = [()]
        for options in per_group:
            out = [o + (x,) for o in out for x in options]
            if len(out) > 4000:
                self.count("outcomes_cut", len(out) - 4000)
                out = out[:4000]
        self.shared, self.init, self.tracked = shared, init, tracked
        self.racing[label] = self.racing.get(label, 0) + 1
        return out

    def holder(self, p):
        for a in self.pre.values():
            if ptr(a) <= p < ptr(a) + max(a.nbytes, 1):
                yield a
                return

    def private(self, r, shared):
        """Final values of what the task changed in memory that outlives it."""
        out = {}
        for a, k, old in r.undo:
            if isinstance(a, np.ndarray):
                for p, v in zip(addresses(a), a.ravel().tolist()):
                    if p in r.changed and p not in shared:
                        out[p] = repr(v)
        return tuple(sorted(out.items()))

    def groups(self, runs, shared):
        users = {}
        tasks = sorted(set(r.task for r in runs))
        up = {t: t for t in tasks}

        def find(x):
            while up[x] != x:
                x = up[x]
            return x

        for r in runs:
            for p in r.touched:
                if p in shared:
                    if p in users:
                        up[find(r.task)] = find(users[p])
                    users[p] = r.task
        out = {}
        for t in tasks:
            out.setdefault(find(t), []).append(t)
        return sorted(tuple(g) for g in out.values())

    def interleave(self, g, locs, init, program):
        """All final (memory, histories) of a group of tasks."""
        for bound in (None, 2, 1, 0):
            try:
                out = self._interleave(g, locs, init, program, bound)
            except OverflowError:
                continue
            if bound is not None:
                self.count("searches_with_at_most_%d_switches" % bound)
            return out

    def _interleave(self, g, locs, init, program, bound):
        pos = {p: i for i, p in enumerate(locs)}
        mem0 = tuple(init[p] for p in locs)
        start = (mem0, tuple(((), 0) for _ in g), None, 0)
        seen, stack, finals = {start}, [start], set()
        trans = 0
        while stack:
            mem, ts, last, used = stack.pop()
            live = []
            for i, t in enumerate(g):
                h, w = ts[i]
                writes, nxt, _ = program(t, h)
                if w < len(writes) or nxt != "done":
                    live.append((i, writes, nxt))
            if not live:
                finals.add((mem, tuple(h for h, _ in ts)))
                continue
            running = any(i == last for i, _, _ in live)
            for i, writes, nxt in live:
                u = used
                if bound is not None and running and i != last:
                    u += 1
                    if u > bound:
                        continue
                h, w = ts[i]
                m = mem
                if w < len(writes):
                    p, v = writes[w]
                    j = pos[p]
                    m = mem[:j] + (v,) + mem[j + 1:]
                    new = (h, w + 1)
                else:
                    new = (h + (tuple(mem[pos[p]] for p in nxt),), 0)
                s = (m, ts[:i] + (new,) + ts[i + 1:], i if bound is not None else None, u)
                trans += 1
                if s not in seen:
                    seen.add(s)
                    stack.append(s)
                    if len(seen) > self.cap:
                        if bound != 0:
                            raise OverflowError
                        self.count("searches_cut")
                        stack = []
                        break
        self.count("states", len(seen))
        self.count("transitions", trans)
        return finals

    def apply(self, outcome):
        """Brings the memory into the state of an outcome."""
        runs = []
        for g, mem, hist in outcome:
            for t, h in zip(g, hist):
                r = Run(self, t, self.pre, h, self.shared)
                runs.append(r)
                if r.execute() != "done":
                    raise RuntimeError("a recorded schedule cannot be followed")
        for g, mem, hist in outcome:
            for p, v in zip(self.group_locs[g], mem):
                self.poke(p, v)
        return self.image(runs), runs
