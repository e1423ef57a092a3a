#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = ("Seeded search over simulated executions of the real code (level: exploration): no violation on the runs of this tier is evidence, not proof. "
        "Trusted: the chain and contract models, the in-memory network, the deterministic Go runtime overlay (tools/overlay.py).")
claimed = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
checks, na = [], []
for p in props:
    if p["id"] in claimed:
        checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences",
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "check under construction")})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "bash check.sh build",
     "hooks": {"guard": "verif (Go build tag)", "enable": "go build -tags verif (check.sh does it)", "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "check.sh PROPERTY builds the simulator from /repo's working tree (outside /repo) and runs it; check.sh replay FILE replays a violation exactly. Findings: known-findings.txt. Design: DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
