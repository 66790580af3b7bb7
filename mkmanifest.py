#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json
import os

from checks import CHECKS

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "No hooks are committed in /repo; statement-level instrumentation is generated at build time from the working tree and applied with go's -overlay.", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "Run ./check CNN [quick|thorough] in /verif. Written by mkmanifest.py from checks.py.",
}
for p in props:
    c = CHECKS.get(p)
    if not c:
        m["not_applicable"].append({"property": p, "reason": "the check of this property is not built yet"})
        continue
    m["checks"].append({
        "property": p,
        "quick_cmd": "./check %s quick" % p,
        "thorough_cmd": "./check %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"] + " Assumes: " + "; ".join(c.get("assumptions", [])) + ".",
    })
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
