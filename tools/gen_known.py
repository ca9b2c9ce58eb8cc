"""Writes known_findings.json: the repaired defects (none is left unrepaired)."""
import json, os, subprocess

PROP = """8565e95 C17
3f9beb0 C28
11b1253 C26
21fff1d C16
b4f035b C16
80c9f99 C16
08d13d1 C16
cfec2d7 C10
09c3a60 C09
b7cdd39 C19
83de482 C08
4222ee4 C06
7b6c54a C02
0cb70e4 C25
fc8bdb3 C23
9ade64a C25
9bdfff0 C09
2e4ff53 C15
5f78263 C06
0f58196 C13
0dcad53 C06
7c1061e C13
e27418e C22
9b55e95 C16
faf29c0 C24
ca0f97f C27
a0a4920 C28
9fb5b68 C26
c82e518 C22
8016dd2 C17
fe2b8fc C18
0d68653 C18
236d110 C20
24c9d3c C11
001f3de C07
3ca83e3 C05
4139cf5 C05
0c973ef C04
b79aa7e C04
0e4af52 C08
b0ed720 C02
866e8fe C02
7b11e2d C02
6846be6 C02
05f9524 C01
1112bbf C06
9888f6b C01
fdabc36 C01
44b7bfe C02
f8062b0 C23
19c51f8 C07"""
EXTRA = []
out = []
for line in PROP.splitlines():
    h, p = line.split()
    full, subj = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%H%n%s", h], capture_output=True, text=True, check=True).stdout.strip().split("\n")
    what = subj[len("fix: "):]
    out.append({"property": p, "status": "fixed", "commit": full, "what": what, "line": "fixed: property=%s %s %s" % (p, h, what)})
out += EXTRA
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
with open(path, "w") as fp:
    json.dump(out, fp, indent=1)
    fp.write("\n")
