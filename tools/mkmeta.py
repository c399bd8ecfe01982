#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NA
import re


def three(t):
    """at most three sentences: further full stops become semicolons, evenly distributed"""
    s = re.split(r"(?<=[a-z0-9)])\. (?=[A-Z])", t)
    if len(s) <= 3:
        return t
    cut = [0, (len(s) + 2) // 3, (2 * len(s) + 2) // 3, len(s)]
    g = []
    for i in range(3):
        x = s[cut[i]:cut[i + 1]]
        g.append("; ".join([x[0]] + [y[0].lower() + y[1:] if not re.match(r"[A-Z]{2}|3D", y) else y for y in x[1:]]))
    return ". ".join(g)


for p in PROPS + NA:
    p["statement"] = three(p["statement"])
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": ["Merlin++/" + x for x in p["files"]], "mechanism": [{"name": n, "where": "Merlin++/" + w} for n, w in p["mech"]]}
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
                            "why_tests_cant": p["tests"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/check.py " + p["id"], "thorough_cmd": "python3 tools/check.py %s --thorough" % p["id"],
                 "technique": p.get("technique", "symbolic execution of the LLVM IR of the real code, Z3 deciding every branch and assertion"), "level": "model_checking",
                 "level_note": p["note"] + " Arithmetic is exact-real unless stated (libm by axioms, normal forms); counterexamples count only when the native build reproduces them. Trusted: clang 18, the symbolic engine, Z3."}
                for p in PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "No hooks in /repo: harnesses use the public API; the instrumentation is an LLVM pass applied to /repo's current sources at check time."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "claimed", len(NA), "n/a")
import mkdesign
mkdesign.write(PROPS, NA)
