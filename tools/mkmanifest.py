#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    c = CHECKS.get(i)
    if c is None:
        na.append({"property": i, "reason": "no check has been built for it yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": c["technique"],
        "level": c.get("level", "exploration"),
        "level_note": c["note"],
    })
doc = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {"guard": "none", "enable": "The checks need no hooks in /repo: harnesses and instrumented copies of source files enter through 'go test -overlay'.", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "All checks: run.py builds the harness of one property against /repo's working tree (overlay + -modfile, nothing is written to /repo) and runs it. See DESIGN.md.",
}
json.dump(doc, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
