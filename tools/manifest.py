#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, props/ and meta.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(V + "/tools/meta.json"))
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; m = meta.get(i, {})
    if os.path.exists(V + "/props/%s.cpp" % i):
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "technique": "property-based testing: " + m.get("technique", "generated inputs against a reference model, with shrinking"),
                       "level": "exploration", "level_note": m.get("note", "Random search over generated cases (see DESIGN.md); no exhaustiveness is claimed.")})
    else: na.append({"property": i, "reason": m.get("reason", "check not built yet")})
out = {"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
       "notes": "Each check compiles the sources of /repo it needs (about 3 to 20 s) and runs its generated cases in forked workers; see DESIGN.md."}
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema; jsonschema.validate(out, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid", len(checks), "checks")
except ImportError: print(len(checks), "checks")
