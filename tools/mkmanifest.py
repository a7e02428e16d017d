#!/usr/bin/env python3
"""Writes ../MANIFEST.json: one check per property that harness/ registers; the rest is listed as not (yet) claimed."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = "".join(open(os.path.join(root, "harness", f)).read() for f in sorted(os.listdir(os.path.join(root, "harness"))) if f.endswith(".go"))
have = set(re.findall(r'register\("(C\d\d)"', src))
BB = "Black box: the real server is built from the working tree and driven over loopback sockets; "
T = {}
exec(open(os.path.join(here, "techniques.py")).read(), T)
T = T["T"]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in T:
        tech, level, note = T[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks: every check observes the unmodified program (sockets, logs, race detector) or runs in-package monitors through go test -overlay. See DESIGN.md."},
  open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
