#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc"); sys.dont_write_bytecode = True
from table import CHECKS
TECH = "model checking of the real code: stateless exploration of all schedules (controlled scheduler, preemption bounding, virtual time) and exhaustive enumeration of operation histories against a reference model"
NOTE = "exhaustive within the bounds reported in the evidence (threads, operations, preemptions, faults); sequentially consistent memory, plain accesses covered by a happens-before race check"
NA = {}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    pid = json.loads(l)["id"]
    if pid in CHECKS:
        c = CHECKS[pid]
        checks.append(dict(property=pid, quick_cmd="python3 run.py check %s quick" % pid,
                           thorough_cmd="python3 run.py check %s thorough" % pid,
                           technique=c.get("technique", TECH), level="model_checking", level_note=c.get("note", NOTE)))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
m = dict(version=1, setup_cmd="python3 run.py build",
         hooks=dict(guard="MC_HARNESS", enable="-DMC_HARNESS (passed by mc/build.py; no code in /repo is guarded by it, the explorer works by link-time interposition)", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks run the code of /repo, compiled from its working tree; see DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
