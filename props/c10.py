"""C10: detection is a deterministic function of the text and the options."""
import contextlib
import io
import itertools
import json
import os
import subprocess
import sys
import threading

import clevercsv
from clevercsv.consistency import ConsistencyDetector
from clevercsv.dialect import SimpleDialect

from vlib import detserver, texts
from vlib.engine import Part, Violation, Skip, cut, eq, expect

ASSUMPTIONS = ["other processes are long-running servers with other string-hash seeds (five seeds per case, 33 per run)",
               "the result of an operation in a new process is that in a process forked before it did anything"]
SERVERS, FORK = [], []


def comps(x):
    return None if x is None else (x if isinstance(x, str) else [x.delimiter, x.quotechar, x.escapechar, x.strict])


def setup(cfg):
    if SERVERS:
        return
    import vlib

    for j in range(4):
        e = dict(os.environ, PYTHONHASHSEED=str((int(cfg["seed"]) * 1009 + cfg["worker"] * 4 + j + 1) % 4294967295))
        SERVERS.append(subprocess.Popen([sys.executable, os.path.join(os.path.dirname(vlib.__file__), "detserver.py")],
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e, text=True))


def setup_fork(cfg):
    if FORK:
        return
    import vlib

    FORK.append(subprocess.Popen([sys.executable, os.path.join(os.path.dirname(vlib.__file__), "forkserver.py")],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))


def pristine(op, text):
    """The result of the operation in a process that did nothing else."""
    p = FORK[0]
    p.stdin.write(json.dumps({"op": op, "text": text}) + "\n")
    p.stdin.flush()
    r = p.stdout.readline()
    if not r:
        raise RuntimeError("the fork server died")
    return json.loads(r)


def opts(case):
    o = {"method": ["auto", "normal", "consistency"][case["method"] % 3], "skip": bool(case["skip"])}
    if isinstance(case.get("delims"), str):
        o["delimiters"] = case["delims"]
    return o


def check_process(case):
    text = case["text"]
    o = opts(case)
    q = {"text": text, "options": o, "set": bool(case["set"])}
    mine = detserver.answer(q)
    line = json.dumps(q) + "\n"
    for p in SERVERS:
        p.stdin.write(line)
        p.stdin.flush()
    outs = []
    for p in SERVERS:
        r = p.stdout.readline()
        if not r:
            raise RuntimeError("a detection server died")
        outs.append(json.loads(r))
    for r in outs:
        eq(r, mine, "detection in another process")
    if isinstance(mine, list):
        return ["dialect", "NT"]
    return ["None"]


def tie_text(rng):
    r = rng.random()
    if r < 0.6:
        t = texts.tie(rng)
        if rng.random() < 0.3:
            t = texts.mutate(rng, t)
    elif r < 0.8:
        t = texts.soup(rng)
    else:
        t = texts.text(rng)
    return t.replace("\0", "")


def gen_process(rng):
    return {"text": tie_text(rng), "method": rng.choice([0, 2, 2]), "skip": rng.random() < 0.7, "set": rng.random() < 0.5,
            "delims": rng.choice([None, None, None, ",;\t|", ", -:", ";,~", " -:*", "&=_ -"])}


# ------------------------------------------------------------ histories

def theirs(x):
    """The dialect, which its receiver changes then."""
    c = comps(x)
    if isinstance(x, SimpleDialect):
        x.delimiter, x.quotechar, x.strict = "x", "y", True
    return c


def run_op(det, cons, op, text):
    """One operation; -> what it returns."""
    k = op["k"] % 7
    o = opts(op)
    try:
        if k == 0:
            return theirs(det.detect(text, **o))
        if k == 1:
            with contextlib.redirect_stdout(io.StringIO()):
                return comps(det.detect(text, verbose=True, **o))
        if k == 2:
            return comps(det.sniff(text, delimiters=o.get("delimiters")))
        if k == 3:
            return theirs(cons.detect(text, delimiters=list(o["delimiters"]) if "delimiters" in o else None))
        if k == 4:
            try:
                return det.has_header(text)
            except clevercsv.exceptions.NoDetectionResult:
                return "none"
        if k == 5:
            return [list(map(str, r)) for r in clevercsv.reader(io.StringIO(text, newline=""), delimiter=",", quotechar='"')]
        return [r for r in clevercsv.DictReader(io.StringIO(text, newline=""), fieldnames=["a"])]
    except clevercsv.Error:
        return "error"


def plain(x):
    return json.loads(json.dumps(x))


def check_history(case):
    ts = case["texts"] or [""]
    det, cons = clevercsv.Detector(), ConsistencyDetector(cache_capacity=case["cache"] % 50 + 1 if case["cache"] % 2 else 100000)
    fresh = {}
    n = 0
    for op in case["ops"]:
        i = op["t"] % len(ts)
        text = ts[i].replace("\0", "")
        key = json.dumps([i, op["k"] % 7, op["method"] % 3, bool(op["skip"]), op["delims"]])
        if key not in fresh:
            fresh[key] = pristine(op, text)
        eq(plain(run_op(det, cons, op, text)), fresh[key], "operation %d on used objects, expected the result in a new process" % (op["k"] % 7))
        n += 1
    # once more, with fresh objects after the whole history
    for op in case["ops"]:
        i = op["t"] % len(ts)
        key = json.dumps([i, op["k"] % 7, op["method"] % 3, bool(op["skip"]), op["delims"]])
        eq(plain(run_op(clevercsv.Detector(), ConsistencyDetector(), op, ts[i].replace("\0", ""))), fresh[key], "operation %d after the history" % (op["k"] % 7))
    return ["NT"] if n > 2 and any(isinstance(v, list) for v in fresh.values()) else []


def cells_text(rng):
    """Cells whose type depends on whether they are quoted, and on the dialect."""
    pool = ["x, y", "a,b", "1,5", "a;b", "12", "a b", "x!", "-", "a, b, c", "#1", "1.5", "", "é, ü", "a'b", "a|b"]
    pool = rng.sample(pool, rng.randint(2, 6))
    d, q = rng.choice(";,|\t"), rng.choice(['"', '"', "'", ""])
    n = rng.randint(1, 4)
    quoted = lambda x: rng.choice([q, q, ""]).join(["", x, ""])
    return "\n".join(d.join(quoted(rng.choice(pool)) for _ in range(n)) for _ in range(rng.randint(1, 6)))


def gen_history(rng):
    base = texts.table(rng) if rng.random() < 0.6 else cells_text(rng)
    ts = [base, texts.mutate(rng, base), base.replace('"', "'"), tie_text(rng), base.replace('"', ""), base.replace(";", "|"), base.replace('"', "").replace(";", "\t")]
    rng.shuffle(ts)
    ts = ts[: rng.randint(1, 4)]
    ops = [{"k": rng.randint(0, 6), "t": rng.randint(0, 3), "method": rng.randint(0, 2), "skip": rng.random() < 0.6,
            "delims": rng.choice([None, None, ",;", "\t|"])} for _ in range(rng.randint(1, 6))]
    return {"texts": ts, "ops": ops, "cache": rng.randint(0, 99)}


# ------------------------------------------------------------ order of enumeration

class Text(str):
    """The same text in a subclass of str."""


def check_order(case):
    from clevercsv.break_ties import tie_breaker
    from clevercsv.potential_dialects import get_dialects

    text = case["text"].replace("\0", "")
    dialects = sorted(get_dialects(text), key=lambda d: repr(comps(d)))
    if not dialects or len(dialects) > 60:
        return []
    perms = [dialects, dialects[::-1]]
    for p in case["perms"]:
        q = list(dialects)
        for j, x in enumerate(p):
            a, b = j % len(q), x % len(q)
            q[a], q[b] = q[b], q[a]
        perms.append(q)
    ref = None
    nbest = 0
    for q in perms:
        for skip in (True, False):
            c = ConsistencyDetector(skip=skip)
            s = c.compute_consistency_scores(text, list(q))
            best = c.get_best_dialects(s)
            nbest = len(best)
            key = sorted(repr(comps(d)) for d in best)
            r = comps(tie_breaker(text, list(best))) if len(best) > 1 else comps(best[0])
            r2 = comps(tie_breaker(text, list(best)[::-1])) if len(best) > 1 else r
            eq(r2, r, "tie breaking in another order")
            if ref is None:
                ref = (key, r)
            eq((key, r), ref, "best dialects for another order of the candidates")
    # the order in which delimiters are given
    ds = sorted(set(d.delimiter for d in dialects) - {""})
    want = None
    for order in (ds, ds[::-1], ds[1:] + ds[:1]):
        for method in ("auto", "consistency"):
            got = comps(clevercsv.Detector().detect(text, delimiters="".join(order), method=method))
            if want is None:
                want = {}
            eq(got, want.setdefault(method, got), "detection with the delimiters in another order")
    for method in ("auto", "consistency"):
        eq(comps(clevercsv.Detector().detect(Text(text), method=method, delimiters=list(map(Text, ds)))), want[method],
           "detection of the same text in a subclass of str")
    lab = ["%d tied" % min(nbest, 9)]
    if nbest > 1:
        lab.append("NT")
    return lab


def gen_order(rng):
    return {"text": tie_text(rng)[:300], "perms": [[rng.randint(0, 30) for _ in range(rng.randint(1, 12))] for _ in range(2)]}


# ------------------------------------------------------------ threads

def check_threads(case):
    ts = [t.replace("\0", "") for t in case["texts"]]
    if not ts:
        return []
    method = ["auto", "consistency"][case["method"] % 2]
    ds = [[x for x in d if isinstance(x, str) and len(x) == 1] if isinstance(d, list) else None for d in (case.get("delims") or [])] + [None] * len(ts)
    one = lambda det, i: comps(det.detect(ts[i], method=method, delimiters=ds[i]))
    want = [one(clevercsv.Detector(), i) for i in range(len(ts))]
    shared = clevercsv.Detector()
    cons = ConsistencyDetector()
    wantc = [comps(ConsistencyDetector().detect(t, delimiters=d)) for t, d in zip(ts, ds)]
    bad = []

    def work(k):
        try:
            for j in range(len(ts)):
                i = (j + k) % len(ts)
                g = one(shared, i)
                if g != want[i]:
                    bad.append("thread got %r, alone %r for text %d" % (g, want[i], i))
                g = comps(cons.detect(ts[i], delimiters=ds[i]))
                if g != wantc[i]:
                    bad.append("thread got %r from a shared ConsistencyDetector, alone %r for text %d" % (g, wantc[i], i))
        except BaseException as e:
            bad.append("thread raised %s: %s" % (type(e).__name__, e))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if bad:
        raise Violation(bad[0])
    return ["NT"] if len(set(map(str, want))) > 1 else []


def gen_threads(rng):
    base = texts.table(rng)
    return {"texts": [base, base.replace('"', "'"), tie_text(rng), texts.table(rng), tie_text(rng)], "method": rng.randint(0, 1),
            "delims": [rng.choice([None, [","], [";", "|"], [" ", "-", "\t"]]) for _ in range(5)] if rng.random() < 0.5 else []}


PARTS = [
    Part("process", gen_process, check_process, 8000, 300000, setup=setup, rule="a dialect is detected"),
    Part("history", gen_history, check_history, 4000, 120000, setup=setup_fork, rule="at least three operations, one of which detects a dialect"),
    Part("order", gen_order, check_order, 2500, 80000, rule="at least two dialects share the highest score"),
    Part("threads", gen_threads, check_threads, 400, 10000, rule="the texts of the case have different dialects"),
]
