#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the per-property notes of specs/props_meta.py, the baselines, and design_tail.md."""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(H)
sys.path.insert(0, R + "/specs")
import props_meta as M
props = {json.loads(l)["id"]: json.loads(l) for l in open(R + "/properties.jsonl")}
out = [open(H + "/design_head.md").read().rstrip(), ""]
for p in sorted(props):
    out.append("### %s %s" % (p, props[p]["title"]))
    if p in M.META:
        m = M.META[p]
        fns = sorted(json.load(open("%s/baseline/%s.json" % (R, p))))
        out += [m["note"], "", "*How.* " + m["explanation"], "", "*Under contract, proved for all inputs (%d):* %s." % (len(fns), ", ".join("`%s`" % f for f in fns)), ""]
        if m.get("bounded"):
            out += ["*Bounded stand-ins (never counted as proved):* " + "; ".join(m["bounded"]) + ".", ""]
        if m.get("assumptions"):
            out += ["*Assumed:* " + "; ".join(m["assumptions"]) + ".", ""]
    else:
        out += ["Not applicable: " + M.NA[p] if hasattr(M, "NA") and p in M.NA else "Not applicable.", ""]
out += ["## Assumptions common to all proofs"] + ["- " + a for a in M.COMMON_ASSUMPTIONS] + [""]
out.append(open(H + "/design_tail.md").read().rstrip())
open(R + "/DESIGN.md", "w").write("\n".join(out) + "\n")
