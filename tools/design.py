"""Rewrites the generated end of DESIGN.md: defects found, planted bugs."""
import glob
import json
import os

MARK = "<!-- generated: tools/design.py -->\n"
s = open("DESIGN.md").read()
out = [s[: s.index(MARK)] + MARK, "## Defects found\n"]
fs = json.load(open("known_findings.json"))["findings"]
out.append("%d repaired in /repo, %d recorded as known findings.\n" % (sum("fixed" in f for f in fs), sum("fixed" not in f for f in fs)))
for f in sorted(fs, key=lambda f: f["property"]):
    out.append("- %s %s: %s" % (f["property"], f.get("fixed") or "**open** `%s`" % f["id"], f["what"]))
out.append("\n## Planted bugs\nEach in seeded/<id>; written from the statement and the code, kept whether caught or not.\n")
out.append("| bug | property | what it needs | caught by |\n|---|---|---|---|")
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    i = m.split("/")[1]
    out.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], caught.get(i, "?")))
open("DESIGN.md", "w").write("\n".join(out) + "\n")
