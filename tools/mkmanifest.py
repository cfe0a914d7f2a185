#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered checks."""
import json
import os
import sys

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "sim"))
import props  # noqa: E402

NA = {}
TRUST = ("Seeded search, not proof: it covers the scenarios of its seed (counted in the evidence). Trusts the system-call seam (sim/shim.c) "
         "to stand for the operating system")
checks = []
for line in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)
    c = props.PROPS.get(p["id"])
    if not c:
        NA.setdefault(p["id"], "no check yet")
        continue
    checks.append({"property": p["id"],
                   "quick_cmd": "python3 sim/run.py %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 sim/run.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": c.TECHNIQUE,
                   "level": c.LEVEL,
                   "level_note": "%s%s." % (TRUST, "".join("; " + a for a in c.ASSUME))})
m = {"version": 1, "setup_cmd": "python3 sim/selftest.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "No hooks in /repo: every seam is the operating-system interface itself, interposed by LD_PRELOAD (sim/shim.c), the runtime library path, "
              "and the ctypes call into the runtime. Repairs of genuine defects are the 'fix:' commits of /repo, listed in known_findings.txt. "
              "A violation's replay file is re-run with: python3 sim/replay.py FILE"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
