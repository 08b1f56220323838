"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(ROOT + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"] + " quick", m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = ROOT + "/DESIGN.md"
t = open(p).read()
mark = "<!-- table -->\n"
head = t.split(mark)[0] if mark in t else t.split("@@TABLE@@")[0]
open(p, "w").write(head + mark + "\n".join(rows) + "\n")
