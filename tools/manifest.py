#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "lib"))
import registry
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if c:
        checks.append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                           technique=c["technique"], level=c["level"],
                           level_note=c.get("note", "Exhaustive within the bounds stated in DESIGN.md, on the real code; trusts the compiler, the C library and the virtual OS of lib/vos.c.")))
    else:
        na.append(dict(property=p["id"], reason=registry.NOT_APPLICABLE.get(p["id"], "no check built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="Checks build the programs of /repo's current tree in a scratch directory with every system call redirected to lib/vos.c; no hooks in /repo are needed."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
