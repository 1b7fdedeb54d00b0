#!/usr/bin/env python3
"""Writes MANIFEST.json from mc/registry.py and properties.jsonl."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "mc"))
from registry import CHECKS  # noqa: E402
NOT_YET = {}
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        NOT_YET[p["id"]] = "no check has been built for it yet"
        continue
    checks.append({
        "property": p["id"], "quick_cmd": "python3 mc/run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 mc/run.py %s --tier thorough" % p["id"],
        "technique": c.get("technique", "explicit-state model checking: exhaustive bounded enumeration of executions of the real code, compared step by step with a reference model"),
        "level": c["level"],
        "level_note": "Within the stated bounds every case is executed on the real code and compared (" + "; ".join(x["what"] for x in c["parts"]) + "). Assumes: " + "; ".join(c["assumptions"]),
    })
m = {"version": 1, "setup_cmd": "python3 mc/run.py --setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_YET.items()],
     "notes": "No hooks are needed in /repo: harnesses link the repository's sources, programs are driven through files, arguments, standard input and a preloaded library."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
