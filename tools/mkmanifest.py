#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/meta.json and properties.jsonl."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(os.path.join(R, "checks", "meta.json")))
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)["id"]
    m = meta["claimed"].get(p)
    if m:
        checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
                           technique=m["technique"], level="model_checking", level_note=m["note"]))
    else:
        na.append(dict(property=p, reason=meta["not_applicable"].get(p, "no check built yet")))
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na,
               notes="Solver-based checking: engine/fse executes the LLVM IR of /repo's headers symbolically; see DESIGN.md."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
