"""Puts DESIGN.md together from its parts and the planted bugs' meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {l.strip() for l in open(V + "/tools/missed.txt") if l.strip()}
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = f.split("/")[-2]
    rows.append("| %s%s | %s | %s |" % (i, "*" if i in MISSED else "", m["needs"].replace("|", "/"), m["property"]))
tail = open(V + "/tools/design_tail.md").read()
extra = json.load(open(V + "/tools/design_vars.json"))
tail = tail.replace("@SEEDED@", "\n".join(rows))
for k, v in extra.items():
    tail = tail.replace("@%s@" % k, v)
open(V + "/DESIGN.md", "w").write(open(V + "/tools/design_head.md").read() + open(V + "/tools/design_props.md").read() + tail)
