import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def write(PROPS, NA):
    o = [open(V + "/tools/design_head.md").read(), "\n## Properties\n"]
    for p in PROPS:
        o.append("### %s: %s\n" % (p["id"], p["title"]))
        o.append(p["statement"] + "\n")
        o.append("*Decided by* symbolic execution of " + ", ".join(sorted(set("`%s`" % f for f in p["files"]))) + " through `harness/%s.cpp`.  *Tests miss it because:* %s  *Limits:* %s\n" % (p["id"], p["tests"], p["note"]))
        src = open("%s/harness/%s.cpp" % (V, p["id"])).read()
        for m in re.finditer(r'SX_HARNESS(_IEEE)?\(\s*(\w+)\s*,\s*"((?:[^"\\]|\\.)*)"', src):
            o.append("- `%s`%s: %s" % (m.group(2), " (IEEE)" if m.group(1) else "", m.group(3)))
        o.append("")
    if NA:
        o.append("## Not applicable\n")
        for p in NA:
            o.append("- %s, %s: %s" % (p["id"], p["title"], p["reason"]))
        o.append("")
    k = json.load(open(V + "/known_findings.json"))["findings"]
    o.append("## Genuine defects found\n")
    for f in k:
        o.append("- %s (`%s`): %s" % (f["property"], f["harness"], f["what"]))
    o.append("\n## False alarms corrected on the way\n")
    o.append(open(V + "/tools/design_false.md").read())
    r = json.load(open(V + "/seeded_results.json")) if os.path.exists(V + "/seeded_results.json") else {}
    o.append("\n## Planted bugs\n\nConfirmed by `tools/plant.py` (builds, stable tests pass, demo separates the trees).\n\n| bug | property | what it breaks | result | by |\n|---|---|---|---|---|")
    for i in sorted(r):
        if r[i].get("property"):
            o.append("| %s | %s | %s | %s | %s |" % (i, r[i]["property"], r[i]["what"], r[i]["status"], r[i].get("by", "")))
    open(V + "/DESIGN.md", "w").write("\n".join(o) + "\n")
