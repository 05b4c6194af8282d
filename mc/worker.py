"""Executes one shard of the spaces of a check (or a single case) in its own process.

usage: worker.py CXX TIER MODE SHARD NSHARDS OUTDIR DEADLINE
       worker.py CXX TIER MODE warm OUTDIR
       worker.py CXX TIER MODE case SPACE INDEX
       worker.py CXX TIER MODE prefix SPACE INDEX SHARD NSHARDS
Exit status: 0 finished, 3 a violation was found, 2 the check itself is broken.
"""
import faulthandler
import json
import mmap
import os
import resource
import struct
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import Ctx, Violation, load_check  # noqa: E402

MAX_VIOLATIONS = 3
MEMORY = 7 << 29  # 3.5 GB for each of the processes


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    tail = ["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]]
    return "; ".join(tail)


def execute(space, index, ctx):
    """Runs one case.  Returns None or (message, key)."""
    case = space.decode(index)
    r = attempt(space, case, ctx)
    if r is not None and CLASSIFY is not None:
        key = CLASSIFY(space.name, case, r[1], r[0])
        if key is not None:
            try:
                ctx.known(key, r[0])
                return None
            except Violation:
                return (r[0], key)
    return r


CLASSIFY = None


def attempt(space, case, ctx):
    try:
        space.run(case, ctx)
        ctx.cases += 1
        return None
    except Violation as v:
        return (v.msg, v.key)
    except Exception as e:  # an internal error of the implementation (or of the oracle: see below)
        tb = traceback.extract_tb(e.__traceback__)
        from mc.core import REPO

        inside = any(os.path.abspath(f.filename).startswith(os.path.abspath(REPO) + os.sep) for f in tb)
        if not inside and "fast_hdbscan" not in str(e):
            raise
        return ("%s: %s (%s)" % (type(e).__name__, e, short_tb(e)), "raise:" + type(e).__name__)


def chunks_of(space, shard, nshards):
    nchunks = (space.size + space.chunk - 1) // space.chunk
    for c in range(shard, nchunks, nshards):
        for i in range(c * space.chunk, min(space.size, (c + 1) * space.chunk)):
            yield i


def main():
    faulthandler.enable()
    # a runaway loop of the code under check must not take the machine's memory
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, MEMORY))
    prop, tier, mode, what = sys.argv[1:5]
    check = load_check(prop)
    global CLASSIFY
    CLASSIFY = getattr(check, "classify", None)
    import mc.sut  # noqa: F401  (seams are resolved here: a failure is an error of the check, exit 2)

    spaces = [s for s in check.build(tier) if s.mode == mode]
    byname = {s.name: s for s in spaces}

    if what == "warm":
        ctx = Ctx(prop)
        for s in spaces:
            if s.size == 0:
                continue
            for w in s.warm:
                i = w if w >= 0 else s.size + w
                try:
                    execute(s, max(0, min(i, s.size - 1)), ctx)
                except Exception:
                    pass
        if hasattr(check, "warm"):
            try:
                check.warm(mode)
            except Exception:
                pass
        return 0

    if what in ("case", "prefix"):
        space, index = byname[sys.argv[5]], int(sys.argv[6])
        ctx = Ctx(prop)
        bad = None
        if what == "case":
            bad = execute(space, index, ctx)
        else:
            shard, nshards = int(sys.argv[7]), int(sys.argv[8])
            for s in spaces:
                for i in chunks_of(s, shard, nshards):
                    r = execute(s, i, ctx)
                    if s is space and i == index:
                        bad = r
                        break
                if s is space:
                    break
        if bad:
            print("REPRODUCED " + json.dumps({"message": bad[0], "key": bad[1]}))
            return 3
        print("NOT-REPRODUCED")
        return 0

    shard, nshards, outdir, deadline = int(sys.argv[4]), int(sys.argv[5]), sys.argv[6], float(sys.argv[7])
    hb_path = os.path.join(outdir, "hb-%s-%d" % (mode, shard))
    with open(hb_path, "wb") as f:
        f.write(b"\0" * 32)
    hb_f = open(hb_path, "r+b")
    hb = mmap.mmap(hb_f.fileno(), 32)

    ctx = Ctx(prop)
    violations = []
    samples = []
    per_space = {}
    complete = True
    for si, s in enumerate(spaces):
        done = 0
        for i in chunks_of(s, shard, nshards):
            hb[0:24] = struct.pack("<qqd", si, i, time.time())
            r = execute(s, i, ctx)
            done += 1
            if r is not None:
                violations.append(dict(space=s.name, index=i, mode=mode, message=r[0], key=r[1],
                                       shard=shard, nshards=nshards))
                if len(set((v["key"], v["space"]) for v in violations)) >= MAX_VIOLATIONS or len(violations) >= 50:
                    complete = False
                    break
            elif done == 1 and si % nshards == shard:
                samples.append(dict(space=s.name, index=i, case=repr(s.decode(i))[:400]))
            if time.time() > deadline:
                complete = False
                break
        per_space[s.name] = done
        if not complete:
            break
    hb[0:24] = struct.pack("<qqd", -1, -1, time.time())
    import numpy as np

    np.save(os.path.join(outdir, "states-%s-%d.npy" % (mode, shard)),
            np.fromiter(ctx.states, dtype=np.int64, count=len(ctx.states)))
    res = dict(cases=ctx.cases, transitions=ctx.transitions, traces=ctx.traces, extra=ctx.extra,
               violations=violations, findings=ctx.findings, samples=samples, per_space=per_space, complete=complete)
    tmp = os.path.join(outdir, "res-%s-%d.tmp" % (mode, shard))
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, os.path.join(outdir, "res-%s-%d.json" % (mode, shard)))
    return 3 if violations else 0


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
