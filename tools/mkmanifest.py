#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules that exist."""
import importlib, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module(i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": getattr(m, "TECHNIQUE", "runtime monitoring: generated workloads through the real program, online comparison of its findings with an executable reference model"),
            "level": "exploration",
            "level_note": getattr(m, "NOTE", "Held on the executions listed in the evidence file; says nothing about inputs the generator does not reach. Trusts the reference model in /verif/lib and the build in lib/build.py (same sources, own flags)."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet (work in progress)")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "All checks build selint from /repo's working tree into a scratch directory they remove. No hooks in /repo: observation is at the program boundary (output, status, system effects) and through sanitizer builds."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
