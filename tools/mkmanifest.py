#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS, TECHNIQUE, NOTES
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECHNIQUE[i],
            "level": CHECKS[i].get("level", "model_checking"),
            "level_note": NOTES[i],
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {
        "guard": "go build -overlay with the files of /verif/harness/overlay (no change in /repo's sources)",
        "enable": "tools/build_harness.sh builds the driver with -overlay and the tags vidx, vpost, vbuf, falling back to fewer when a hooked identifier is gone",
        "source_commits": [],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specification in spec/, driver of the real code in harness/, orchestration in tools/check.py. Exit 2 means no answer.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
