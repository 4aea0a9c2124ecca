#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules present in /verif/mc."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(V, "mc", i.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": i, "reason": "check not built yet"})
        continue
    src = open(path).read()
    level = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
    t = TECH[i]
    checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t[0], "level": level, "level_note": t[1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check drives the unmodified package through its public API and replaces "
              "nondeterminism (threads, clock, random source, file system) from outside. ./run.sh <ID> replay <file> replays a violation."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
