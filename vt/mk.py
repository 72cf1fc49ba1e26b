#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from vt/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["all"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))) + "\n")
checks = [dict(property=p["id"], quick_cmd="bin/check %s quick" % p["id"], thorough_cmd="bin/check %s thorough" % p["id"],
               technique=p.get("technique", "function contracts on the extracted C sources discharged by CBMC (goto-instrument contracts, harness pre/postconditions)"),
               level=p.get("level", "proof"), level_note=p["note"]) for p in PROPS if not p.get("na")]
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks,
    not_applicable=[dict(property=p["id"], reason=p["na"]) for p in PROPS if p.get("na")],
    notes="All checks share vt/run.py; units are in units/*.c. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
