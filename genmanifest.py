#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json
from checks import CHECKS
NA = []
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
assert set(CHECKS) | {n["property"] for n in NA} == set(ids), (set(CHECKS) ^ set(ids))
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --build-all",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 check.py {p} quick",
        "thorough_cmd": f"python3 check.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": CHECKS[p]["technique"],
        "level": "model_checking",
        "level_note": CHECKS[p]["note"],
    } for p in ids if p in CHECKS],
    "not_applicable": NA,
    "notes": "No hooks in /repo: all drivers link the unmodified library and use its public headers. "
             "Replay a violation with the command in the replay file.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
