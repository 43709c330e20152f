#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/plans.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from plans import PROPS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C20": "Pure numerical computation on its arguments: no concurrency, time, I/O, party or fault for a simulator to vary.",
 "C21": "Pure function of its arguments; no nondeterminism or environment to put behind a seam.",
 "C22": "Pure matrix arithmetic on the operands; the history-dependent part (transforms stay consistent with the tree) is C10.",
 "C23": "Sequential geometric computation by libraries that are not installed (CGAL, Boost.Numeric solvers of the original toolchain); no schedule or fault for the result to depend on. What operators do with their inputs and outputs is C15 and C19.",
 "C24": "Pure arithmetic on immutable grid parameters; nothing for a simulator to schedule or fail.",
}
PENDING = "The workload that decides this property is still being built."
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every seam is at link level (allocation, files, clock, mutex, threads). The commits in /repo are 'fix:' repairs listed in known-findings.json."}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
          "evidence_file": f"evidence/{i}.json",
          "technique": "deterministic simulation with fault injection: seeded search over " + p["search"],
          "level": p.get("level", "exploration"), "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
