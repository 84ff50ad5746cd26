#!/usr/bin/env python3
"""Writes MANIFEST.json from specs/props_meta.py (claimed properties) and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/specs")
import props_meta as pm
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
checks = []
for p in props:
    if p in pm.META:
        m = pm.META[p]
        checks.append(dict(property=p, quick_cmd="python3-vt check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s --tier thorough" % p,
                           technique=m["technique"], level=m["level"], level_note=m["note"]))
na = [dict(property=p, reason=pm.NA.get(p, "not built yet")) for p in props if p not in pm.META]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks: the code is verified from the LLVM IR that clang makes of /repo's working tree on every run. See DESIGN.md."), open(H + "/MANIFEST.json", "w"), indent=1)
