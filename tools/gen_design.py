"""Regenerate the two tables of DESIGN.md between the markers."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = HERE + "/DESIGN.md"
s = open(p).read()
k = json.load(open(HERE + "/known_findings.json"))
by = {}
for f in k:
    by.setdefault(f["property"], []).append(f)
t = "| Property | Commit | What failed (now repaired) |\n|---|---|---|\n"
for c in sorted(by):
    for f in reversed(by[c]):
        t += "| %s | %s | %s |\n" % (c, f["commit"][:7], f["what"].replace("|", "\\|"))
u = "| Change | Needs | Caught by |\n|---|---|---|\n"
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % d))
    u += "| %s | %s | %s |\n" % (d, m["needs"].replace("|", "\\|"), m["property"])


def put(s, name, body):
    a, b = "<!-- %s -->\n" % name, "<!-- end %s -->" % name
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + body + b, s, flags=re.S)


open(p, "w").write(put(put(s, "defects", t), "planted", u))
print(len(k), "defects,", u.count("\n") - 2, "planted")
