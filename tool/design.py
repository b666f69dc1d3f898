#!/usr/bin/env python3
"""assemble DESIGN.md from tool/design.md, the property entries, seeded/ and known_findings.json"""
import importlib.util, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tool"))
import methods
out = []
man = json.load(open(R + "/MANIFEST.json"))
lv = {c["property_id"] if "property_id" in c else c["property"]: c for c in man["checks"]}
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)
    c = lv.get(p["id"])
    out.append("### %s  %s" % (p["id"], p["title"]))
    if c:
        out.append("*Level:* %s. *Technique:* %s." % (c["level"], c["technique"]))
    else:
        r = [n["reason"] for n in man["not_applicable"] if p["id"] in (n.get("property_id"), n.get("property"))]
        out.append("*Not applicable:* " + (r[0] if r else ""))
    out.append(methods.M.get(p["id"], "").strip() + "\n")
seeds = ["| change | property | what it breaks |", "|---|---|---|"]
for s in sorted(os.listdir(R + "/seeded")) if os.path.isdir(R + "/seeded") else []:
    m = json.load(open("%s/seeded/%s/meta.json" % (R, s)))
    seeds.append("| %s | %s | %s |" % (s, m["property"], m["what_it_breaks"]))
k = json.load(open(R + "/known_findings.json"))
fixed = ["* " + (f if isinstance(f, str) else json.dumps(f)).replace("fixed: ", "") for f in k["fixed"]]
find = ["* %s: %s" % (f["property"], f["what"]) for f in k["findings"]] or ["(none)"]
t = open(R + "/tool/design.md").read()
for a, b in (("@PROPS@", out), ("@SEEDS@", seeds), ("@FIXED@", fixed), ("@FINDINGS@", find)):
    t = t.replace(a, "\n".join(b))
open(R + "/DESIGN.md", "w").write(t)
