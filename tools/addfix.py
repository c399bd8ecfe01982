#!/usr/bin/env python3
"""addfix.py PROPERTY HARNESS ASSERTION COMMIT|known WHAT: records a genuine defect in known_findings.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p, h, a, c, w = sys.argv[1:6]
k = json.load(open(V + "/known_findings.json"))
if c == "known":
    k["findings"].append({"property": p, "harness": h, "assertion": a, "status": "known", "what": w})
else:
    k["findings"].append({"property": p, "harness": h, "assertion": a, "status": "fixed", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)})
with open(V + "/known_findings.json", "w") as f:
    json.dump(k, f, indent=1)
    f.write("\n")
