#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS
HOW = {
    "model": "property-based testing: generated cases against a reference model, with shrinking",
    "hist": "stateful property-based testing: generated histories against a model in lock step, with shrinking",
    "sched": "stateful property-based testing: generated histories and generated schedules (instrumented overlay, deterministic scheduler, race detector) against a model of the history, with shrinking",
    "diff": "differential property-based testing: the same generated case on the code and on its reference, with shrinking",
    "proc": "stateful property-based testing: generated worlds of servers, clients, signals and hooks, one process per case, invariants over the recorded history, with shrinking",
}
KIND = {}
for k, ids in {"model": "01 03 04 05 06 07 08 11 14 18 21 33 35", "hist": "12", "sched": "02 09 10 17 22 23 24 25 26",
               "diff": "13 15 16 19 20 31 32 34 36", "proc": "27 28 29 30 37"}.items():
    for i in ids.split():
        KIND["C" + i] = HOW[k]
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "check.py builds the harness from /repo's working tree, runs the generated search over several processes and merges the evidence. No hooks in /repo: schedule exploration instruments an overlay copy made at run time."}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    c = CHECKS[i]
    m["checks"].append({
        "property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
        "technique": KIND[i],
        "level": "exploration",
        "level_note": c.get("note", "Generated-input search with shrinking; no violation among the explored cases. Trusts the reference model in /verif/harness and the Go toolchain."),
    })
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
