#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks and properties."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sim"))
sys.path.insert(0, os.path.join(V, "tools"))
import checks, gen_properties as gp
NA = gp.NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 sim/build.py",
     "hooks": {"guard": "MZN_SIMULATION", "enable": "sim/build.py configures /repo's own CMake project in /verif/build/cm with -DMZN_SIMULATION added to the compiler flags",
               "source_commits": ["a81c58e"]},
     "checks": [], "not_applicable": []}
full = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
m["hooks"]["source_commits"] = [l.split()[0] for l in full.split("\n") if "guarded by MZN_SIMULATION" in l]
for p in props:
    i = p["id"]
    if i in checks.ALL:
        c = checks.ALL[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 sim/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 sim/check.py %s --thorough" % i,
                            "technique": getattr(c, "technique", "deterministic simulation of driver, solver and operating system with seeded fault injection; history checked against a reference model"),
                            "level": getattr(c, "level", "exploration"), "level_note": getattr(c, "level_note", "Seeded search over simulated executions of the real driver; a clean batch is evidence from the sampled schedules and faults, not a proof.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "Check not built yet.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
