#!/usr/bin/env python3
"""Write /verif/MANIFEST.json: one entry per property that has a binary in mc/src/bin."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAULT = {"C10", "C11", "C21"}
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc/src/bin", i.lower() + ".rs")):
        n = NOTES.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh %s quick" % i,
            "thorough_cmd": "./run.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "exhaustive bounded exploration of the real code against a reference model"),
            "level": "fault_enumeration" if i in FAULT else "model_checking",
            "level_note": n.get("note", "Holds for every execution within the stated bounds; trusts the reference model and the harness."),
        })
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
m = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: every check drives the public API of /repo's crate or its command line front end. "
             "run.sh replay evidence/replay/<ID>.json runs one reported case again.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
