"""Writes the generated tables of DESIGN.md (between the markers) from jobs.py, evidence/ and seeded/."""
import json, os, re, sys, glob
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, V)
from jobs import PROPS
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
out = ["| id | property | harness entries | configurations | quick run: paths / queries / assertions | s |", "|---|---|---|---|---|---|"]
for p in PROPS:
    js = [j for j in PROPS[p]["jobs"] if "quick" in j.tier]
    ents = sorted({j.harness + ":" + j.entry for j in js}); cf = len({" ".join(j.defs) for j in js})
    cost = ""; sec = ""
    e = V + "/evidence/%s.json" % p
    if os.path.exists(e):
        d = json.load(open(e)); c = d["coverage"]
        if d["tier"] == "quick":
            cost = "%d / %d / %d" % (c["symbolic_paths"], c["solver_queries"], c["assertions_decided_by_solver"] + c["assertions_closed_by_simplification"]); sec = "%.0f" % d["wall_s"]
    out.append("| %s | %s | %s | %d jobs, %d builds | %s | %s |" % (p, titles[p], ", ".join(ents), len(js), cf, cost, sec))
t1 = "\n".join(out)
out = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"].replace("|", "/"), d["needs"].replace("|", "/")))
t2 = "\n".join(out)
s = open(V + "/DESIGN.md").read()
for k, t in (("PROPERTIES", t1), ("SEEDED", t2)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (k, k), lambda m: m.group(1) + t + "\n" + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
