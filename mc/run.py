"""Runner of one check.

usage: run.py CXX quick|thorough      run the check, write evidence/CXX.json, report violations
       run.py --warm [CXX ...]        compile what the checks need into the content-keyed cache
       run.py --replay FILE           re-execute a recorded violation
"""
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from mc.core import REPO, load_check, known_findings  # noqa: E402

PY = sys.executable
NPROC = int(os.environ.get("VERIF_PROCS", "0")) or len(os.sched_getaffinity(0))
CASE_TIMEOUT = 110.0
DEADLINE = {"quick": 480.0, "thorough": 6 * 3600.0}


def source_hash():
    h = hashlib.sha256()
    base = os.path.join(REPO, "fast_hdbscan")
    for root, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(root, f)
                if os.sep + "tests" in os.path.relpath(root, REPO):
                    continue
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def cache_dir():
    """Compiled code is kept per content of /repo/fast_hdbscan; a changed source never meets old code."""
    root = os.path.join(VERIF, ".cache")
    d = os.path.join(root, source_hash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        seed = "/opt/vp/numba-seed"
        if os.path.isdir(seed):
            for n in os.listdir(seed):
                if n.startswith("pynndescent_"):
                    try:
                        shutil.copytree(os.path.join(seed, n), os.path.join(d, n), dirs_exist_ok=True)
                    except OSError:
                        pass
        others = sorted((os.path.join(root, n) for n in os.listdir(root)), key=os.path.getmtime)
        for old in others[:-8]:
            if old != d and time.time() - os.path.getmtime(old) > 3600:
                shutil.rmtree(old, ignore_errors=True)
    return d


def env_for(mode, cache):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("NUMBA_") or k in ("PYTHONPATH", "PYTHONHOME", "FAST_HDBSCAN_NUMBA_CACHE"):
            del e[k]
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", NUMBA_NUM_THREADS="1", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", HOME=os.environ.get("HOME", "/root"))
    if mode == "interp":
        e["NUMBA_DISABLE_JIT"] = "1"
    else:
        e["NUMBA_CACHE_DIR"] = cache
    return e


def worker_cmd(*args):
    return [PY, os.path.join(HERE, "worker.py")] + [str(a) for a in args]


class Shard:
    def __init__(self, prop, tier, mode, shard, nshards, outdir, deadline, cache):
        self.mode, self.shard, self.nshards, self.outdir = mode, shard, nshards, outdir
        self.log = os.path.join(outdir, "log-%s-%d" % (mode, shard))
        self.t0 = time.time()
        self.proc = subprocess.Popen(
            worker_cmd(prop, tier, mode, shard, nshards, outdir, deadline),
            env=env_for(mode, cache), stdout=open(self.log, "w"), stderr=subprocess.STDOUT,
            cwd=VERIF, start_new_session=True)
        self.status = None

    def heartbeat(self):
        try:
            with open(os.path.join(self.outdir, "hb-%s-%d" % (self.mode, self.shard)), "rb") as f:
                return struct.unpack("<qqd", f.read(24))
        except (OSError, struct.error):
            return (-1, -1, 0.0)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def result(self):
        p = os.path.join(self.outdir, "res-%s-%d.json" % (self.mode, self.shard))
        if os.path.exists(p):
            with open(p) as f:
                return json.load(f)
        return None


def run_case(prop, tier, v, cache, timeout):
    """Re-executes one case in a fresh process.  Returns (reproduced, message)."""
    attempts = [("case", v["space"], v["index"])]
    if v.get("nshards"):
        attempts.append(("prefix", v["space"], v["index"], v["shard"], v["nshards"]))
    for a in attempts:
        try:
            p = subprocess.run(worker_cmd(prop, tier, v["mode"], *a), env=env_for(v["mode"], cache), cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return True, "no result within %d s" % timeout
        out = p.stdout.decode(errors="replace")
        if p.returncode == 3:
            line = [l for l in out.splitlines() if l.startswith("REPRODUCED ")][-1]
            return True, json.loads(line[len("REPRODUCED "):])["message"]
        if p.returncode < 0:
            return True, "the process died with signal %d" % -p.returncode
        if p.returncode == 2:
            return None, out[-2000:]
    return False, ""


def run_check(prop, tier):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = load_check(prop)
    spaces = check.build(tier)
    cache = cache_dir()
    deadline = t_start + DEADLINE[tier]
    outdir = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=os.path.join(VERIF, ".cache"))
    try:
        return _run(prop, tier, seed, check, spaces, cache, deadline, outdir, t_start)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def order(n, seed):
    return [(k + seed) % n for k in range(n)]


def _run(prop, tier, seed, check, spaces, cache, deadline, outdir, t_start):
    modes = sorted(set(s.mode for s in spaces if s.size))
    pending, running, finished = [], [], []
    warmer = None
    if "jit" in modes:
        warmer = subprocess.Popen(worker_cmd(prop, tier, "jit", "warm"), env=env_for("jit", cache), cwd=VERIF,
                                  stdout=open(os.path.join(outdir, "log-warm"), "w"), stderr=subprocess.STDOUT,
                                  start_new_session=True)
    nshards = NPROC if tier == "quick" else NPROC
    for m in modes:
        for k in order(nshards, seed):
            pending.append((m, k))
    pending.sort(key=lambda mk: mk[0] == "jit")  # interpreted shards first: they need no compilation
    warm_done = warmer is None
    crashes, errors = [], []
    warm_deadline = time.time() + 300
    while pending or running or not warm_done:
        if not warm_done and (warmer.poll() is not None or time.time() > warm_deadline):
            if warmer.poll() is None:
                os.killpg(warmer.pid, signal.SIGKILL)
                warmer.wait()
            warm_done = True
        slots = NPROC - len(running) - (0 if warm_done else 1)
        for mk in list(pending):
            if slots <= 0:
                break
            if mk[0] == "jit" and not warm_done:
                continue
            pending.remove(mk)
            running.append(Shard(prop, tier, mk[0], mk[1], nshards, outdir, deadline, cache))
            slots -= 1
        for s in list(running):
            rc = s.proc.poll()
            if rc is None:
                si, idx, ts = s.heartbeat()
                if si >= 0 and ts and time.time() - ts > CASE_TIMEOUT:
                    s.kill()
                    sp = [x for x in spaces if x.mode == s.mode][si]
                    crashes.append(dict(space=sp.name, index=idx, mode=s.mode, key="hang",
                                        message="no result within %d s" % CASE_TIMEOUT))
                    running.remove(s)
                elif time.time() > deadline + CASE_TIMEOUT + 60:
                    s.kill()
                    errors.append("shard %s-%d exceeded the deadline" % (s.mode, s.shard))
                    running.remove(s)
                continue
            running.remove(s)
            if rc in (0, 3) and s.result() is not None:
                finished.append(s)
            elif rc < 0:
                si, idx, ts = s.heartbeat()
                if si >= 0 and rc != -9:
                    sp = [x for x in spaces if x.mode == s.mode][si]
                    crashes.append(dict(space=sp.name, index=idx, mode=s.mode, key="crash",
                                        message="the process died with signal %d" % -rc))
                else:
                    errors.append("shard %s-%d died with signal %d" % (s.mode, s.shard, -rc))
            else:
                errors.append("shard %s-%d: exit %d\n%s" % (s.mode, s.shard, rc, open(s.log).read()[-3000:]))
        # a violation has been found: no need to finish the other shards
        if (crashes or any(f.result()["violations"] for f in finished)) and tier == "quick":
            t = time.time()
            while running and time.time() - t < 2:
                time.sleep(0.1)
                for s in list(running):
                    if s.proc.poll() is not None:
                        running.remove(s)
                        if s.result() is not None:
                            finished.append(s)
            for s in running:
                s.kill()
            running, pending = [], []
            if not warm_done:
                os.killpg(warmer.pid, signal.SIGKILL)
                warmer.wait()
                warm_done = True
        time.sleep(0.05)

    import numpy as np

    tot = dict(cases=0, transitions=0, traces=0)
    extra, samples, violations, per_space = {}, [], list(crashes), {}
    complete = not crashes and not errors
    arrays, known_hit = [], {}
    for s in finished:
        r = s.result()
        for k in tot:
            tot[k] += r[k]
        for k, n in r["extra"].items():
            extra[k] = extra.get(k, 0) + n
        for k, n in r["per_space"].items():
            per_space[k] = per_space.get(k, 0) + n
        samples.extend(r["samples"])
        violations.extend(r["violations"])
        for k, (n, msg) in r["findings"].items():
            known_hit[k] = (known_hit.get(k, (0, ""))[0] + n, msg)
        complete = complete and r["complete"]
        p = os.path.join(outdir, "states-%s-%d.npy" % (s.mode, s.shard))
        if os.path.exists(p):
            arrays.append(np.load(p))
    states = int(np.unique(np.concatenate(arrays)).size) if arrays else 0

    # ---- judge: every violation is re-executed in a fresh process before it is reported
    known = known_findings()
    reported, unconfirmed = [], []
    seen_keys = set()
    violations.sort(key=lambda v: (v["space"], v["index"]))
    for v in violations:
        kk = (v["space"], v["key"])
        if kk in seen_keys or len(reported) >= 3:
            continue
        ok, msg = run_case(prop, tier, v, cache, CASE_TIMEOUT)
        if ok is None:
            errors.append("replay failed: " + msg)
            continue
        if not ok:
            unconfirmed.append(v)
            continue
        seen_keys.add(kk)
        if v["mode"] == "interp" and v["key"] not in getattr(check, "FINAL_KEYS", ()):
            ok2, msg2 = confirm_compiled(prop, tier, v, cache)
            if not ok2:
                unconfirmed.append(v)
                continue
        reported.append((v, msg))

    level = getattr(check, "LEVEL", "model_checking")
    spaces_doc = [dict(space=s.name, mode=s.mode, size=s.size, executed=per_space.get(s.name, 0), note=s.note)
                  for s in spaces]
    coverage = dict(states=states, transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                    samples=samples[:24], exhaustive=bool(complete and not violations),
                    spaces=spaces_doc,
                    known_findings_met={k: n for k, (n, _) in sorted(known_hit.items())}, **extra)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
              assumptions=list(getattr(check, "ASSUMPTIONS", [])), wall_s=round(time.time() - t_start, 2),
              violations=len(reported))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for key, (count, msg) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, key)] or msg))
    if reported:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v, msg in reported:
            sp = [x for x in spaces if x.name == v["space"]][0]
            rec = dict(property=prop, tier=tier, space=v["space"], index=v["index"], mode=v["mode"],
                       shard=v.get("shard"), nshards=v.get("nshards"), message=msg,
                       case=repr(sp.decode(v["index"]))[:20000])
            path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, v["space"], v["index"]))
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            print("  %s[%d] (%s): %s" % (v["space"], v["index"], v["mode"], msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or unconfirmed:
        for e in errors:
            print("ERROR: " + e)
        hard = [v for v in unconfirmed if v["mode"] == "jit"]
        for v in unconfirmed:
            print("UNCONFIRMED: %s[%d] (%s): %s" % (v["space"], v["index"], v["mode"], v["message"]))
        if errors or hard:
            return 2
    print("%s %s: held on %d cases, %d states, %d transitions, %d traces, exhaustive=%s, %.1f s" % (
        prop, tier, tot["cases"], states, tot["transitions"], tot["traces"], coverage["exhaustive"],
        time.time() - t_start))
    return 0


def confirm_compiled(prop, tier, v, cache):
    """An interpreted violation is reported only if the compiled code fails on the same case."""
    code = ("import sys; sys.path.insert(0, %r)\n"
            "import mc.worker as w\n"
            "from mc.core import load_check, Ctx\n"
            "c = load_check(%r); import mc.sut\n"
            "s = [x for x in c.build(%r) if x.name == %r][0]\n"
            "w.CLASSIFY = getattr(c, 'classify', None)\n"
            "r = w.execute(s, %d, Ctx(c.__name__[-3:].upper()))\n"
            "import os; print(r); sys.stdout.flush(); os._exit(3 if r else 0)\n"
            % (VERIF, prop, tier, v["space"], v["index"]))
    try:
        p = subprocess.run([PY, "-c", code], env=env_for("jit", cache), cwd=VERIF, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=250)
    except subprocess.TimeoutExpired:
        return True, "hang"
    return (p.returncode == 3 or p.returncode < 0), p.stdout.decode(errors="replace")[-500:]


def main():
    if sys.argv[1] == "--warm":
        props = sys.argv[2:]
        cache = cache_dir()
        # the package itself first, then what each check needs, several checks at a time
        subprocess.run([PY, "-c", "import sys; sys.path.insert(0, %r); import mc.sut" % VERIF],
                       env=env_for("jit", cache), cwd=VERIF, check=True)
        procs = []
        for p in props:
            while len([q for q in procs if q.poll() is None]) >= NPROC:
                time.sleep(0.1)
            procs.append(subprocess.Popen(worker_cmd(p, "quick", "jit", "warm"), env=env_for("jit", cache),
                                          cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        for q in procs:
            q.wait()
        return 0
    if sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        v = dict(space=rec["space"], index=rec["index"], mode=rec["mode"], shard=rec.get("shard"),
                 nshards=rec.get("nshards"))
        ok, msg = run_case(rec["property"], rec["tier"], v, cache_dir(), 600)
        print("reproduced: %s %s" % (ok, msg))
        return 1 if ok else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run_check(prop, tier)


if __name__ == "__main__":
    sys.exit(main())
