"""Writes MANIFEST.json for the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = [p for p in props if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py"))]
TECH = {
    "C02": "explicit-state exploration of thread schedules of the real code (preemption-bounded, controlled scheduler)",
    "C15": "explicit-state exploration of call histories of the real estimators up to a bounded length",
}
NOTE = {
    "C02": "Every parallel loop of the sources is executed under a controlled scheduler; all schedules up to the "
           "preemption bound on small inputs, each judged by an independent reference.",
    "C15": "All sequences of set_params, fit and query calls up to a bounded length on the compiled code; the state "
           "after each call is compared with a fresh estimator.",
}
DEF_T = "bounded exhaustive enumeration of inputs and parameters executed on the real compiled code against an " \
        "independent reference"
DEF_N = "Every case of finite input spaces is executed on the compiled package from /repo's working tree; each " \
        "pipeline stage is judged against an independent reference; nothing is sampled."
missing = [p for p in props if p not in have]
m = dict(
    version=1,
    setup_cmd="./run.sh --warm " + " ".join(have),
    checks=[dict(property=p, quick_cmd="./run.sh %s quick" % p, thorough_cmd="./run.sh %s thorough" % p,
                 evidence_file="evidence/%s.json" % p, technique=TECH.get(p, DEF_T), level="model_checking",
                 level_note=NOTE.get(p, DEF_N)) for p in have],
    not_applicable=[dict(property=p, reason="check not built yet") for p in missing],
    notes="All checks run from /verif against /repo. Compiled code is cached in .cache/, keyed by the content of "
          "/repo/fast_hdbscan, so a changed tree is always recompiled. VERIF_SEED only rotates the order in which "
          "shards are started.",
)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
