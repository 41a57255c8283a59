#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
src = open(os.path.join(H, "checks.py")).read()
LEVELS = json.load(open(os.path.join(H, "tools", "levels.json")))
import subprocess
commits = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if " verif:" in l]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LEVELS:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": LEVELS[i][0],
            "level": "model_checking",
            "level_note": LEVELS[i][1],
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "hooks": {
        "guard": "--cfg masstree_verif",
        "enable": "RUSTFLAGS='--cfg masstree_verif' (run.py builds /verif/harness, which depends on /repo by path, with it)",
        "source_commits": commits,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks: TLA+ specifications in spec/, judged by TLC; the Rust drivers in harness/ only execute the code and record.",
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
