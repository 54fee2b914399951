#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "..", "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append(dict(property=i, reason="no check has been built for this property yet"))
        continue
    c = CHECKS[i]
    modes = []
    for s in c["quick"]:
        if s["mode"] not in modes:
            modes.append(s["mode"])
    names = dict(dbg="debug-assertion build", rel="release build", asan="AddressSanitizer", miri="Miri", tsan="ThreadSanitizer")
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 check.py {i}",
        thorough_cmd=f"python3 check.py {i} --thorough",
        technique=c.get("technique", "runtime monitoring of randomized workloads (" + ", ".join(names[m] for m in modes) + ") against a reference oracle"),
        level=c.get("level", "exploration"),
        level_note=c.get("note", "Holds on every execution observed; trusts the harness's oracle. " + c["rule"]),
    ))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               hooks=dict(guard="none: no change in /repo is conditional", enable="nothing to enable: the checks build the tree as it is", source_commits=[]),
               notes="Runtime monitoring and sanitizers only; see DESIGN.md."),
          open(os.path.join(H, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
