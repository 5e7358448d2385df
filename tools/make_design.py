#!/usr/bin/env python3
"""DESIGN.md = docs/head.md + one section per property (from properties.jsonl and claims.py) + docs/tail.md"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + "/tools")
import claims
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
o = open(root + "/docs/head.md").read() + "\n## Properties and how each is decided\n\n"
for p in props:
    i = p["id"]
    o += "### %s — %s\n\n" % (i, p["title"])
    if i in claims.CLAIMS:
        c = claims.CLAIMS[i]
        how = ("rules `%s` of the analyser over witness groups %s" % (", ".join(c["rules"]), ", ".join(c["groups"]))) if c.get("rules") else "`%s` in tools/pyrules.py" % c["pyrule"]
        o += "*Method:* %s (%s). *Vacuity guard:* fewer than %d obligations is an error (exit 2), not a pass.\n\n%s\n\n" % (c["technique"], how, c["floor"], c["note"])
    else:
        o += "*Not applicable:* %s\n\n" % claims.NA[i]
import glob
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s (needs: %s) | caught by %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"], m["property"]))
o += open(root + "/docs/tail.md").read().replace("SEEDTABLE", "| planted bug | property | what it breaks | checks |\n|---|---|---|---|\n" + "\n".join(rows))
open(root + "/DESIGN.md", "w").write(o)
