#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties that have a check."""
import json, pathlib, sys
V = pathlib.Path("/verif")
props = [json.loads(l) for l in open(V / "properties.jsonl")]
NOTE = json.load(open(V / "tools/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "harness/src" / (i.lower() + ".rs")).exists() and i in NOTE:
        n = NOTE[i]
        ver = (V / "verus" / (i.lower() + ".py")).exists()
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": ("contract-based deductive verification: Verus on extracted functions, and Kani contracts on the real code" if ver else "contract-based deductive verification: Kani contracts on the real code"),
                       "level": n["level"], "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": n if (n := NOTE.get("na", {}).get(i)) else "contracts for it are not built yet"})
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hook in /repo is needed: the harness crate compiles /repo/src/core in place with #[path]."}, open(V / "MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
