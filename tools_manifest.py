#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run by hand after changing checks.py)."""
import json, os, subprocess
from checks import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
NA = []
hook = "086e8b1"
full = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=verification hook"], capture_output=True, text=True).stdout.split()
checks = []
for p in sorted(CHECKS):
    c = CHECKS[p]
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick python3 run.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": c.get("technique", f"TLA+ ({', '.join(sorted({m['module'] for m in c.get('mc', [])} | {c['trace']}))}): TLC model checking + TLC trace validation of recorded executions"),
        "level": c.get("level", "model_checking"),
        "level_note": c.get("level_note", "The specification is model checked on bounded domains; the code is bound to it by judging recorded executions with TLC. " + c["rule"]),
    })
done = {c["property"] for c in checks} | {n["property"] for n in NA}
for line in open(os.path.join(H, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i not in done:
        NA.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "cfg(sv2_verif)", "enable": "RUSTFLAGS='--cfg sv2_verif' (set by run.py when it builds the harness)", "source_commits": full},
     "checks": checks, "not_applicable": NA}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
