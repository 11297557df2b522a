#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for pid in props:
    if pid not in CHECKS:
        continue
    c = CHECKS[pid]
    checks.append(dict(
        property=pid,
        quick_cmd="VERIF_TIER=quick python3 runcheck.py %s" % pid,
        thorough_cmd="VERIF_TIER=thorough python3 runcheck.py %s" % pid,
        evidence_file="evidence/%s.json" % pid,
        technique=c["technique"], level=c["level"], level_note=c["level_note"]))
na = [dict(property=p, reason=NOT_APPLICABLE.get(p, "its check is not built yet")) for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
               notes="No hooks are committed in /repo: yields are injected through a build overlay made from the "
                     "working tree (harness/cmd/instr). /repo carries only fix: commits, listed in known_findings.txt."),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
