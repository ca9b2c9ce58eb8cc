"""C29: optional packages are optional."""
import json
import os
import subprocess
import sys

from vlib import files, texts
from vlib.engine import Part, Violation, cut, eq, expect, short

ASSUMPTIONS = ["missing and old packages are simulated in the import system of processes that had not imported clevercsv",
               "what reading does when an installed cchardet is too old is not stated: the result or ImportError"]
SERVER = []
OPTIONAL = ["cchardet", "pandas", "tabview", "wilderness"]
# versions around the documented minimum: below, and not below
VERSIONS = {
    "pandas": (["0.24.0", "0.9", "0.24.1rc1", "0.23.4", "0.24.1.dev3", "0"], ["0.24.1", "0.24.2", "1.0.0", "10.0", "0.100", "0.24.10", "2.2.3", "0.24.1.post1", "0.24.2rc1", "1!0.1", "none"]),
    "tabview": (["1.3", "1.3.9", "0.9", "1.4rc1", "0.10"], ["1.4", "1.4.0", "1.4.4", "1.10", "2.0", "10", "1.5.dev1", "none"]),
}
NEEDS = {"dataframe": "pandas", "cli": "wilderness", "main": "wilderness"}


def setup(cfg):
    if SERVER:
        return
    import vlib

    for arg in ("", "preload"):
        SERVER.append(subprocess.Popen([sys.executable, os.path.join(os.path.dirname(vlib.__file__), "optserver.py"), arg],
                                       stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))


def ask(q):
    p = SERVER[0 if q["state"] else 1]
    p.stdin.write(json.dumps(q) + "\n")
    p.stdin.flush()
    r = p.stdout.readline()
    if not r:
        raise RuntimeError("the server died")
    r = json.loads(r)
    if "error" in r:
        raise Violation("the process with the packages %r failed: %s" % (q["state"], r["error"]))
    return r


def usable(name, s):
    """May the package be used in this state?"""
    if s in ("missing", "broken"):
        return False
    return s in VERSIONS[name][1]


def check(case):
    state = case["state"]
    if not all(k in OPTIONAL and (v in ("missing", "broken") or k in VERSIONS and v in VERSIONS[k][0] + VERSIONS[k][1]) for k, v in state.items()):
        return []
    enc = case["enc"]
    text = files.encodable(case["text"].replace("\0", ""), enc)
    path = "c29 file.csv"
    files.write(path, text.encode(enc))
    ops = []
    for o in case["ops"]:
        o = dict(o)
        if o["op"] in ("detect", "sniff", "header", "reader"):
            o["text"] = text
        if o.get("give"):
            o["enc"] = enc
        elif o["op"] not in ("encoding", "names", "detect", "sniff", "header", "reader", "write_table", "write_dicts"):
            o["enc"] = None
        o["path"] = path
        if o.get("args", [0])[0] == "code":
            o["enc"] = enc
        ops.append(o)
    no_cchardet = state.get("cchardet") is not None
    want = ask({"state": {}, "ops": ops, "chardet_only": no_cchardet})["results"]
    got = ask({"state": state, "ops": ops})["results"]
    lab = ["without " + x for x in state]
    hit = False
    for o, w, g in zip(ops, want, got):
        need = [NEEDS[o["op"]]] if o["op"] in NEEDS else []
        if o["op"] in ("cli", "main") and o["args"][0] == "view" and w[0] == "ok" and w[1][0] == 0:
            need.append("tabview")
        lacking = [x for x in need if x in state and not usable(x, state[x])]
        what = "%s with the packages %s" % (o["op"] + (" " + " ".join(o["args"]) if "args" in o else ""), short(repr(state)))
        if o["op"] == "dataframe" and w[0] == "raised":
            # what fails in pandas does not count
            continue
        if lacking:
            hit = True
            expect(g[0] == "raised" and g[1] == "ImportError", "%s: got %s expected ImportError" % (what, short(repr(g))))
            if o["op"] != "cli" and state[lacking[0]] != "broken":
                expect(lacking[0] in g[2] or lacking[0] == "cchardet", "%s: the message %r does not name the package" % (what, g[2]))
            lab.append(o["op"] + " refused")
        elif need and any(x in state and state[x] not in ("missing", "broken") for x in need):
            hit = True
            eq(g, w, what)
            lab.append("version accepted")
        elif w[0] == "raised":
            eq(g[:2], w[:2], what)
        else:
            eq(g, w, what)
            hit = True
    if os.path.exists(path):
        os.unlink(path)
    if hit and state:
        lab.append("NT")
    if len(state) > 2:
        lab.append("three or all missing")
    return lab


def gen(rng):
    state = {}
    for x in OPTIONAL:
        if rng.random() < 0.45:
            state[x] = rng.choice(["missing", "missing", "broken"])
            if x in VERSIONS and rng.random() < 0.6:
                state[x] = rng.choice(VERSIONS[x][rng.randint(0, 1)])
    if not state:
        state[rng.choice(OPTIONAL)] = "missing"
    enc = rng.choice(["utf-8", "utf-8", "utf-8", "latin-1", "utf-16", "shift_jis", "cp1251"])
    text = files.wide(rng, files.table_text(rng, 0.8))
    ops = []
    for _ in range(rng.randint(2, 6)):
        k = rng.choice(["detect", "sniff", "header", "detect_dialect", "read_table", "stream_table", "read_dicts", "reader", "write_table", "write_dicts",
                        "encoding", "encoding", "dataframe", "dataframe", "names", "cli", "cli", "main"])
        o = {"op": k, "give": rng.random() < 0.3 and k not in ("encoding",)}
        if k == "sniff":
            o["delims"] = rng.choice([None, ",", ";|", ",;\t|"])
        if k == "encoding":
            o["try"] = rng.random() < 0.8
        if k in ("write_table", "write_dicts"):
            o["table"] = [[texts.TYPED["word"](rng), rng.choice(["a,b", 'q"r', "é\n", ""])] for _ in range(rng.randint(1, 4))]
        if k in ("read_table", "detect_dialect", "dataframe") and rng.random() < 0.3:
            o["num"] = rng.choice([1, 20, 100])
        if k in ("cli", "main"):
            o["args"] = rng.choice([["detect"], ["detect", "--plain"], ["detect", "--json"], ["view"], ["view"], ["view", "-t"], ["standardize"], ["code"], ["code", "-p"]])
            o["give"] = rng.random() < 0.7 or o["args"][0] == "code"
        ops.append(o)
    return {"state": state, "enc": enc, "text": text, "ops": ops}


PARTS = [
    Part("packages", gen, check, 600, 15000, rule="a package is missing or of another version, and an operation ran to its stated outcome", setup=setup, shrink_tries=150),
]
