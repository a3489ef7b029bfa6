"""Writes DESIGN.md."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(x) for x in open(V + "/properties.jsonl")]
D = json.load(open(V + "/tools/design_props.json"))
t = open(V + "/tools/design.md").read()
s = ""
for p in P:
    parts, oracle, bound = D[p["id"]]
    s += "\n### %s %s\n\n" % (p["id"], p["title"])
    s += "* Decided by: %s\n* Parts: %s\n* Bounds: %s\n* Beyond the tests: %s\n" % (
        oracle, parts, bound, p["why_tests_cant"])
t = t.replace("@@PROPS@@", s)
f = json.load(open(V + "/known_findings.json"))
t = t.replace("@@FINDINGS@@", "\n".join("* " + e["entry"] for e in f))
b = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
try:
    caught = json.load(open(V + "/tools/caught.json"))
except OSError:
    caught = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = m.split("/")[-2]
    q = json.load(open(m))
    b += "| %s | %s | %s | %s |\n" % (i, q["property"], q["needs"], caught.get(i, "no logged run in the final form"))
t = t.replace("@@BUGS@@", b)
open(V + "/DESIGN.md", "w").write(t)
