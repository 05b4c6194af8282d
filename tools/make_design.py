"""DESIGN.md = tools/DESIGN.in.md with the tables of spaces filled in from the checks themselves."""
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["NUMBA_DISABLE_JIT"] = "1"
sys.path.insert(0, HERE)


def table(pid):
    mod = importlib.import_module("checks." + pid.lower())
    quick = {s.name: s for s in mod.build("quick")}
    deep = {s.name: s for s in mod.build("thorough")}
    out = ["| space | execution | cases quick | cases thorough | what is enumerated |", "|---|---|---:|---:|---|"]
    for n in list(quick) + [n for n in deep if n not in quick]:
        s = quick.get(n) or deep[n]
        out.append("| %s | %s | %s | %s | %s |" % (
            n, "compiled" if s.mode == "jit" else "interpreted", quick[n].size if n in quick else "-",
            deep[n].size if n in deep else "-", s.note))
    return "\n".join(out)


text = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
text = re.sub(r"^@@(C\d\d)$", lambda m: table(m.group(1)), text, flags=re.M)
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
