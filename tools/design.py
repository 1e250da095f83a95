"""Writes the tables of DESIGN.md (between the markers) from the repository's own data."""
import json
import os
import glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda x: (json.load(open(x))["property"], x)):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"]))
seeded = "\n".join(rows)
k = json.load(open(V + "/KNOWN_FINDINGS.json"))
fixed = "\n".join("- " + f.split("property=")[1] for f in k["fixed"])
known = "\n".join("- %s `%s`: %s" % (f["property"], f["tag"], f["what"]) for f in k["known"])
num = ["| check | model states | traces | events | seconds |", "|---|---|---|---|---|"]
t = open(V + "/DESIGN.md").read()
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f))
    if e["tier"] != "quick":
        continue
    c = e["coverage"]
    num.append("| %s | %d | %d | %d | %s |" % (e["property"], c["states"], c["traces_validated_against_impl"], c["evaluations"], round(e["wall_s"])))
num = "\n".join(num)
for name, text in (("seeded", seeded), ("fixed", fixed), ("known", known), ("numbers", num)):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n" + text + "\n" + t[j:]
open(V + "/DESIGN.md", "w").write(t)
