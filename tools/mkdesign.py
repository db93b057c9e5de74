"""Fills the tables of DESIGN.md (source: tools/design_text.md + tools/how.py + seeded/*/meta.json)."""
import json, os, sys, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from how import HOW
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
man = json.load(open(os.path.join(R, "MANIFEST.json")))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
claimed = {x["property"] for x in man["checks"]}
out = ["## Properties and how each is decided\n"]
for p in props:
    if p["id"] in claimed:
        out.append("**%s — %s.** %s\n" % (p["id"], p["title"], HOW.get(p["id"], "")))
nat = "\n".join("- **%s** %s: %s" % (p["id"], p["title"], na[p["id"]]) for p in props if p["id"] in na)
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    c = json.load(open(os.path.join(R, "tools", "caught.json"))).get(os.path.basename(os.path.dirname(d)), "?")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), c))
s = open(os.path.join(R, "tools", "design_text.md")).read()
s = s.replace("@PROPS@", "\n".join(out)).replace("@NA@", nat).replace("@SEEDED@", "\n".join(rows))
open(os.path.join(R, "DESIGN.md"), "w").write(s)
