#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the list of checks below and properties.jsonl.
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = json.load(open(os.path.join(V, "tools", "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
hooks = []
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("hook:"):
        hooks.append(h)
m = dict(version=1,
    setup_cmd="./build.sh " + " ".join(i.lower() for i in ids if i in CHECKS),
    hooks=dict(guard="cfg(verif)", enable="RUSTFLAGS=--cfg verif (build.sh passes it for the checks whose source says `//@ hooks`)", source_commits=hooks),
    checks=[], not_applicable=[])
for i in ids:
    c = CHECKS.get(i)
    if isinstance(c, list):
        m["checks"].append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
            evidence_file=f"evidence/{i}.json", technique=c[0], level="model_checking", level_note=c[1]))
    else:
        m["not_applicable"].append(dict(property=i, reason=c or "check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable", len(hooks), "hook commits")
