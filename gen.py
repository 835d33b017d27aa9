#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from harness/spec.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "harness"))
from spec import SPEC
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in SPEC:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        a = {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]], "hook_needed": None}
        f.write(json.dumps({"id": d["id"], "title": d["title"], "statement": d["statement"],
            "quantifier": {"over": d["over"], "text": d["qtext"]}, "why_tests_cant": d["why"], "anchors": a}) + "\n")
ch = []
for d in SPEC:
    ch.append({"property": d["id"], "quick_cmd": "python3 check.py %s quick" % d["id"], "thorough_cmd": "python3 check.py %s thorough" % d["id"],
        "technique": "model checking: exhaustive enumeration of bounded behaviours of the real code against a reference model (stateless exploration with controlled random draws)" if d["id"] != "C05" else
                     "model checking: exhaustive enumeration of bounded call schedules of the real code, two runs compared",
        "level": "model_checking",
        "level_note": ("Holds for every execution within: " + d["bounds"] + ". " + (d["note"][:1].upper() + d["note"][1:] + ". " if d["note"] else "") + "Trusts: " + "; ".join(d["assumptions"]) + ".")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": ch, "not_applicable": [],
           "notes": "No hooks in /repo: random draws are controlled by a header the checks include in front of the unmodified sources."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
