"""addfixed.py PROP 'commit subject fragment' 'what failed': record a repaired defect."""
import json, subprocess, sys
prop, k, w = sys.argv[1:]
h = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h", "-1", "--grep", k], text=True).strip()
assert h, k
p = "/verif/known_findings.json"; d = json.load(open(p))
d.append({"status": "fixed", "entry": f"fixed: property={prop} {h} {w}"})
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x) for x in d) + "\n]\n")
