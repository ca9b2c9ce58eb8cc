"""Development tool: mutates the code of /repo, keeps the mutants that pass the tests, and runs the checks on them.

mutate.py gen [FILE ...]   writes /tmp/mut/mutants.json
mutate.py tests            which of them build and pass the tests -> /tmp/mut/alive.json
mutate.py checks [N]       runs the checks on (at most N of) them -> /tmp/mut/result.jsonl (resumes)
mutate.py show             the mutants that no check reported
"""
import ast
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import plant  # noqa

TOP = "/tmp/mut"
MAP = {
    "clevercsv/_regexes.py": "C16 C11 C12",
    "clevercsv/break_ties.py": "C18 C12 C15",
    "clevercsv/consistency.py": "C12 C11 C10 C15 C09 C14",
    "clevercsv/cparser_util.py": "C01 C02 C07 C06 C18 C12",
    "clevercsv/detect.py": "C11 C20 C09 C12 C10 C15 C14",
    "clevercsv/detect_pattern.py": "C13 C12 C06",
    "clevercsv/detect_type.py": "C16 C12 C11 C09",
    "clevercsv/dialect.py": "C08 C02 C23 C01",
    "clevercsv/dict_read_write.py": "C05 C21 C22",
    "clevercsv/encoding.py": "C19 C29",
    "clevercsv/escape.py": "C17 C12",
    "clevercsv/normal_form.py": "C31 C14 C11 C15 C09 C10",
    "clevercsv/potential_dialects.py": "C17 C12 C15 C09 C10",
    "clevercsv/read.py": "C02 C01 C03 C06 C21",
    "clevercsv/utils.py": "C27 C18 C12 C26 C13",
    "clevercsv/wrappers.py": "C21 C22 C23 C20",
    "clevercsv/write.py": "C04 C03 C22 C06",
    "clevercsv/console/application.py": "C24 C25 C26 C28",
    "clevercsv/console/commands/_utils.py": "C25 C24 C26 C28",
    "clevercsv/console/commands/code.py": "C25",
    "clevercsv/console/commands/detect.py": "C24",
    "clevercsv/console/commands/explore.py": "C25",
    "clevercsv/console/commands/standardize.py": "C26 C27",
    "clevercsv/console/commands/view.py": "C28",
    "src/abstraction.c": "C13 C12 C06",
    "src/cparser.c": "C01 C02 C03 C06 C07 C12",
}
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"], ast.FloorDiv: ["*"], ast.Mod: ["*"], ast.Pow: ["*"]}


def python_mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x) + 1)

    def pos(l, c):
        # columns are in bytes
        return starts[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]

    out = []

    def rep(n, new, kind):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, kind, n.lineno))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.arg) and n.annotation:
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip.update(ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_argument",):
            pass
        if isinstance(n, ast.JoinedStr):
            skip.update(ast.walk(n))
            skip.discard(n)
        if isinstance(n, ast.If) and "TYPE_CHECKING" in text(n.test):
            skip.update(ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(ast.walk(n))
            skip.discard(n)
    for n in ast.walk(tree):
        if n in docs or n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                rep(n, "%s %s %s" % (text(n.left), op, text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            rep(n, "(" + op.join(text(v) for v in n.values) + ")", "bool")
            for v in n.values:
                rep(n, "(" + text(v) + ")", "bool1")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, "(" + text(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), []):
                if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                    continue
                rep(n, "%s %s %s" % (text(n.left), op, text(n.right)), "arith")
            rep(n, "(" + text(n.left) + ")", "left")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), "const")
            elif isinstance(v, (int, float)):
                rep(n, repr(v + 1), "const")
                rep(n, repr(v - 1), "const")
                if isinstance(v, float):
                    rep(n, repr(v * 2), "const")
            elif isinstance(v, str) and len(v) <= 2:
                rep(n, repr(v + "x"), "str")
                if v:
                    rep(n, '""', "str")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg in ("help", "description", "title", "extra_sections", "name"):
                    continue
                a, b = span(k)
                m = re.compile(r"\s*,").match(src, b)
                if m:
                    out.append((a, m.end(), "", "dropkw", k.lineno))
                else:
                    j = src.rfind(",", 0, a)
                    if j >= 0 and src[j + 1:a].strip() == "":
                        out.append((j, b, "", "dropkw", k.lineno))
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a, b = span(n.args[0])[0], span(n.args[1])[1]
                out.append((a, b, text(n.args[1]) + ", " + text(n.args[0]), "swapargs", n.lineno))
            if len(n.args) == 1 and isinstance(n.func, (ast.Name, ast.Attribute)) and not n.keywords and text(n.func) in ("sorted", "set", "list", "str", "bool", "int", "max", "min", "len", "float"):
                if text(n.func) in ("max", "min"):
                    rep(n.func, "max" if text(n.func) == "min" else "min", "func")
                else:
                    rep(n, "(" + text(n.args[0]) + ")", "func")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "lower", "upper", "rstrip", "lstrip", "copy"):
                rep(n, text(n.func.value), "method")
        elif isinstance(n, (ast.If, ast.While)):
            if isinstance(n, ast.If):
                rep(n.test, "True", "cond")
            rep(n.test, "False", "cond")
        elif isinstance(n, ast.IfExp):
            rep(n, text(n.body), "cond")
            rep(n, text(n.orelse), "cond")
        elif isinstance(n, ast.Continue):
            rep(n, "break", "flow")
        elif isinstance(n, ast.Break):
            rep(n, "continue", "flow")
            rep(n, "pass", "flow")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n.value, "None", "return")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            for x in (s.lower, s.upper):
                if x is not None:
                    rep(x, "(%s) + 1" % text(x), "slice")
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                rep(c, "True", "filter")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Continue, ast.Delete)):
            rep(n, "pass", "drop")
        if isinstance(n, ast.With) and False:
            pass
        if isinstance(n, ast.List) and len(n.elts) > 1 or isinstance(n, (ast.Set, ast.Tuple)) and len(n.elts) > 1 and isinstance(n.ctx if hasattr(n, "ctx") else None, (ast.Load, type(None))):
            for e in n.elts[:40]:
                a, b = span(e)
                m = re.compile(r"\s*,").match(src, b)
                if m:
                    out.append((a, m.end(), "", "dropelt", e.lineno))
    return out


def regex_mutants(src):
    """Small changes within the string literals of _regexes.py."""
    out = []
    for m in re.finditer(r'\\d\{(\d)(?:,(\d?))?\}|\?(?![:P<=!+*])|(?<=[\])\w])[*+](?!\+)|\[[^\]\n]{2,}\]|\\s|\(\?P|\\[db.+-]|\|', src):
        t, a, b = m.group(), m.start(), m.end()
        line = src.count("\n", 0, a) + 1
        if line < 30:
            continue
        new = []
        if t.startswith("\\d{"):
            lo, hi = int(m.group(1)), m.group(2)
            new = ["\\d{%d}" % (lo + 1), "\\d{%d,%d}" % (lo, int(hi or lo) + 1)]
        elif t == "?":
            new = [""]
        elif t == "*":
            new = ["+", "?"]
        elif t == "+":
            new = ["*", ""]
        elif t.startswith("["):
            new = ["[" + t[2:], t[:-2] + "]"]
        elif t == "\\s":
            new = [" "]
        elif t in ("\\.",):
            new = ["."]
        elif t == "\\b":
            new = [""]
        for x in new:
            out.append((a, b, x, "regex", line))
    return out


def c_mutants(src):
    out = []
    rules = [(r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<![-<])>(?![>=])", [">=", "<"]), (r"<(?![<=a-z])", ["<=", ">"]),
             (r">=", [">"]), (r"<=", ["<"]), (r"\+\+", ["--"]), (r"\bif \(", ["if (0 && ", "if (1 || "]), (r"\b0\b", ["1"]), (r"\b1\b", ["0", "2"]), (r"\b2\b", ["1"]),
             (r"\bbreak;", [";"]), (r"(?<![=!<>+-])\+(?![+=])", ["-"]), (r"'\\\\0'", ["' '"]), (r"'\\n'", ["'\\r'"]), (r"'\\r'", ["'\\n'"]),
             (r"(?m)^\t+(?!return|break|case|goto|if|else|for|while|switch|Py_ssize_t|int|char|static|PyObject|Py_UCS4|unsigned)[^\n;{}]+;$", [";"]),
             (r"IN_QUOTED_FIELD", ["IN_FIELD"]), (r"START_FIELD", ["IN_FIELD"]), (r"START_RECORD", ["START_FIELD"]), (r"(?<=state = )IN_FIELD", ["START_FIELD"]),
             (r"return -1;", ["return 0;"]), (r"return NULL;", ["Py_RETURN_NONE;"]), (r"(?<=->)(delimiter|quotechar|escapechar)\b", ["quotechar", "escapechar", "delimiter"]),
             (r"Py_(X)?DECREF\([^\n]*\);", [";"]), (r"Py_INCREF\([^\n]*\);", [";"])]
    for pat, news in rules:
        for m in re.finditer(pat, src):
            line = src.count("\n", 0, m.start()) + 1
            ltext = src.split("\n")[line - 1].strip()
            if ltext.startswith(("#", "*", "/*", "//")) or src.rfind("/*", 0, m.start()) > src.rfind("*/", 0, m.start()):
                continue
            for new in news:
                if new != m.group():
                    out.append((m.start(), m.end(), new, "c", line))
    return out


def gen(files):
    seen, muts = set(), []
    for f in files or MAP:
        src = open("/repo/" + f).read()
        ms = c_mutants(src) if f.endswith(".c") else python_mutants(src)
        if f.endswith("_regexes.py"):
            ms += regex_mutants(src)
        try:
            base = None if f.endswith(".c") else ast.dump(ast.parse(src))
        except SyntaxError:
            base = None
        for a, b, new, kind, line in ms:
            t = src[:a] + new + src[b:]
            if not f.endswith(".c"):
                try:
                    d = ast.dump(ast.parse(t))
                except SyntaxError:
                    continue
                if d == base:
                    continue
            else:
                d = t
            if (f, d) in seen:
                continue
            seen.add((f, d))
            muts.append({"id": len(muts), "file": f, "a": a, "b": b, "old": src[a:b], "new": new, "kind": kind, "line": line})
    os.makedirs(TOP, exist_ok=True)
    json.dump(muts, open(TOP + "/mutants.json", "w"))
    from collections import Counter

    print(len(muts), Counter(m["file"] for m in muts))


def copy(d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "build", ".git"))


def apply(m, d):
    src = open("/repo/" + m["file"]).read()
    assert src[m["a"]:m["b"]] == m["old"]
    with open(os.path.join(d, m["file"]), "w") as fp:
        fp.write(src[:m["a"]] + m["new"] + src[m["b"]:])


def restore(m, d):
    shutil.copy2("/repo/" + m["file"], os.path.join(d, m["file"]))


def alive(args):
    m, = args
    import threading

    d = TOP + "/t%d" % (threading.get_ident())
    if not os.path.exists(d):
        copy(d)
    apply(m, d)
    try:
        c = m["file"].endswith(".c")
        if c:
            r = plant.build(d)
            if r.returncode:
                return m["id"], False
        try:
            t = plant.sh(["timeout", "-k", "5", "100", plant.PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=15", "-m", "not network", "tests"], d, timeout=150, env={"PYTHONPATH": d})
            return m["id"], t.returncode == 0
        except subprocess.TimeoutExpired:
            return m["id"], False
    finally:
        restore(m, d)
        if c:
            shutil.rmtree(d, ignore_errors=True)


def tests():
    muts = json.load(open(TOP + "/mutants.json"))
    live = []
    t = time.time()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for i, (k, ok) in enumerate(ex.map(alive, [(m,) for m in muts])):
            if ok:
                live.append(k)
            if i % 100 == 0:
                print(i, len(live), int(time.time() - t), flush=True)
    json.dump(live, open(TOP + "/alive.json", "w"))
    for d in os.listdir(TOP):
        if d.startswith("t") and os.path.isdir(TOP + "/" + d):
            shutil.rmtree(TOP + "/" + d)
    print(len(live), "of", len(muts), "pass the tests")


def checks(limit):
    muts = {m["id"]: m for m in json.load(open(TOP + "/mutants.json"))}
    live = json.load(open(TOP + "/alive.json"))
    random.Random(1).shuffle(live)
    nth = {}
    order = {}
    for k in live:
        # round robin over the files
        nth[muts[k]["file"]] = order[k] = nth.get(muts[k]["file"], 0) + 1
    live.sort(key=lambda k: order[k])
    done = set()
    rf = TOP + "/result.jsonl"
    if os.path.exists(rf):
        done = {json.loads(x)["id"] for x in open(rf)}
    d = TOP + "/c"
    copy(d)
    n = 0
    for k in live:
        if k in done:
            continue
        if n >= limit:
            break
        n += 1
        m = muts[k]
        apply(m, d)
        res = []
        caught = None
        t = time.time()
        for c in MAP[m["file"]].split()[:int(os.environ.get("NCHECKS", 9))]:
            try:
                p = plant.sh(["timeout", "-k", "5", "600", "./run.sh", c], HERE, timeout=700, env={"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE_DIR": "/tmp/mut/ev"})
                rc = p.returncode
                tail = [x for x in p.stdout.split("\n") if x.startswith(c)][:1]
            except subprocess.TimeoutExpired:
                rc, tail = 99, ["timeout"]
            res.append([c, rc])
            if rc == 1:
                caught = c
                break
        restore(m, d)
        with open(rf, "a") as fp:
            fp.write(json.dumps({"id": k, "file": m["file"], "line": m["line"], "old": m["old"], "new": m["new"], "kind": m["kind"], "caught": caught, "res": res, "tail": tail if caught else [], "s": round(time.time() - t)}) + "\n")
    shutil.rmtree(d)


def show():
    src = {}
    rs = [json.loads(x) for x in open(TOP + "/result.jsonl")]
    print(len(rs), "run;", sum(r["caught"] is not None for r in rs), "caught")
    for r in sorted(rs, key=lambda r: (r["file"], r["line"])):
        if r["caught"] is None:
            lines = src.setdefault(r["file"], open("/repo/" + r["file"]).read().split("\n"))
            print("%d %s:%d [%s] %r -> %r   | %s %s" % (r["id"], r["file"], r["line"], r["kind"], r["old"][:80], r["new"][:60], lines[r["line"] - 1].strip()[:90], "" if all(x[1] == 0 for x in r["res"]) else r["res"]))


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "gen":
        gen(sys.argv[2:])
    elif cmd == "tests":
        tests()
    elif cmd == "checks":
        checks(int(sys.argv[2]) if len(sys.argv) > 2 else 10 ** 9)
    else:
        show()
