#!/usr/bin/env python3
"""reg.py Cxx level note: record the level of a property and rewrite the generated files"""
import json, subprocess, sys
f = "/verif/tools/levels.json"
L = json.load(open(f)); L[sys.argv[1]] = {"level": sys.argv[2], "note": sys.argv[3]}
L = {k: L[k] for k in sorted(L)}
json.dump(L, open(f, "w"), indent=1)
for t in ("props.py", "manifest.py"): subprocess.run(["python3", "/verif/tools/" + t], check=True)
