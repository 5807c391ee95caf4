#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and tools/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
from checks import CHECKS
NA = {}
checks = []
na = []
for p in props.P:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "not built yet")})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c.get("technique", "TLA+ specification checked with TLC; its state graph replayed on the real code and recorded traces validated by TLC"),
        "level": c.get("level", "model_checking"),
        "level_note": c["note"],
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ with TLC; see DESIGN.md. No hooks in /repo: the harnesses use its API, fake peers and virtual time.",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
