"""Records a fixed or an open finding: kf.py fixed PROP HASH WHAT | kf.py open PROP ID WHAT"""
import json, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
kind, p, k, what = *sys.argv[1:4], " ".join(sys.argv[4:])
if kind == "fixed":
    e = dict(id="fixed-" + k, property=p, fixed=k, what=what, line=f"fixed: property={p} {k} {what}")
else:
    e = dict(id=k, property=p, what=what)
d["findings"] = [x for x in d["findings"] if x["id"] != e["id"]] + [e]
json.dump(d, open(f, "w"), indent=1)
