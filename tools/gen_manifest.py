#!/usr/bin/env python3
"""Writes MANIFEST.json from parts.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from parts import PARTS  # noqa: E402

NA = {}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PARTS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py check {i}",
            "thorough_cmd": f"python3 run.py check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": PARTS[i].get("technique", "deterministic simulation with fault injection: seeded search over operation histories, schedules and faults"),
            "level": "exploration",
            "level_note": PARTS[i]["note"] + " Sampled, not exhaustive: quiet means no violation in the runs made. Trusts g++'s access instrumentation and the simulator's heap and scheduler."})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not built yet")})
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the compiler's access instrumentation, the allocator, thread primitives and arguments. Replay a violation with: python3 run.py replay <path>."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
