"""Vocabulary shared by checks, workers and the runner: spaces, violations, counters."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property fails on the case being executed.  `key` names the failing input class / call site."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Space:
    """A finite, index-encoded set of cases; `run(case, ctx)` executes the implementation on one of them.

    mode: "jit" (compiled, what users run) or "interp" (same sources, NUMBA_DISABLE_JIT=1).
    warm: indices executed once beforehand by a single process so that workers find compiled code.
    chunk: how many neighbouring cases one worker takes at a time.
    """

    def __init__(self, name, size, decode, run, mode="jit", warm=(0, -1), chunk=16, note=""):
        self.name = name
        self.size = int(size)
        self.decode = decode
        self.run = run
        self.mode = mode
        self.warm = warm
        self.chunk = chunk
        self.note = note


def known_findings():
    """Lines `known: property=<id> key=<key> <what fails>` of the committed file."""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                parts = line[len("known: "):].strip().split(" ", 2)
                res[(parts[0].split("=", 1)[1], parts[1].split("=", 1)[1])] = parts[2] if len(parts) > 2 else ""
    return res


class Ctx:
    """Counters of one worker.  Everything in the evidence file comes from here."""

    def __init__(self, prop=None):
        self.listed = set(k for p, k in known_findings() if p == prop)
        self.findings = {}
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cases = 0
        self.extra = {}

    def state(self, *key):
        self.states.add(hash(key))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def known(self, key, msg):
        """The case fails in the way of a recorded finding: noted if listed for this property, else a violation."""
        if key not in self.listed:
            raise Violation(msg, key)
        f = self.findings.setdefault(key, [0, msg])
        f[0] += 1

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def product_space(*dims):
    """Mixed-radix decoder: dims are lists; returns (size, decode)."""
    dims = [list(d) for d in dims]
    size = 1
    for d in dims:
        size *= len(d)

    def decode(i):
        out = []
        for d in reversed(dims):
            i, r = divmod(i, len(d))
            out.append(d[r])
        return tuple(reversed(out))

    return size, decode


def list_space(items):
    items = list(items)
    return len(items), (lambda i: items[i])


def load_check(prop):
    sys.path.insert(0, VERIF)
    import importlib

    return importlib.import_module("checks." + prop.lower())
