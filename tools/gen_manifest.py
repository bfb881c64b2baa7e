#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks; properties without one are listed under not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [V + "/lib", V + "/checks", V + "/tools"]
import glob, importlib, driver
for f in sorted(glob.glob(V + "/checks/*.py")):
    importlib.import_module(os.path.basename(f)[:-3])
from manifest_notes import NOTES, NA
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in driver.PROPS:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print("%d checks, %d not applicable" % (len(m["checks"]), len(m["not_applicable"])))
