#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
NOTES = json.load(open(os.path.join(V, "bin", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    n = NOTES.get(i, {})
    if "na" in n or not n:
        na.append({"property": i, "reason": n.get("na", "no check has been built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "bin/check " + i,
        "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
        "technique": n["technique"],
        "level": "model_checking",
        "level_note": n["note"],
    })
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {
        "guard": "papaya_verif",
        "enable": "RUSTFLAGS='--cfg papaya_verif' (set by bin/common.py when it builds /verif/harness and /verif/types, which depend on /repo by path)",
        "source_commits": [l.split()[0] for l in commits.splitlines() if "papaya_verif" in l],
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
