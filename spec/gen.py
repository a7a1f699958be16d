#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P, NA

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"] + " Trusted: the MIR rustc produces for the checked configuration, the summaries of library functions (engine/handlers.py, models/lib.rs), and the abstract interpreter itself. Values it cannot follow are reported as undecided in the evidence, never as a violation.",
    } for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "claimed,", len(NA), "not applicable")
