"""C07: the field size limit is exact and detection leaves it alone."""
import contextlib
import decimal
import io
import os
import sys
import threading

import clevercsv
from clevercsv.cparser_util import parse_data
from clevercsv.dialect import SimpleDialect

from vlib import gens, refparse
from vlib.engine import Part, Violation, cut, eq, expect

ASSUMPTIONS = ["the number of scanned characters of a cell comes from the reference tokenizer"]
DEFAULT = 128 * 1024
BAD = [1.5, "5", None, decimal.Decimal(3), [4], b"3", 2j, float("nan")]


@contextlib.contextmanager
def limit(n):
    old = clevercsv.field_size_limit(n)
    try:
        yield old
    finally:
        clevercsv.field_size_limit(DEFAULT)


def texts(case):
    return gens.text_of([t for t in case["toks"] if isinstance(t, list) and len(t) == 2 and isinstance(t[0], str) and isinstance(t[1], int)])


def rows_of(src, dia):
    out = []
    try:
        for r in clevercsv.reader(src, dia):
            out.append(r)
    except clevercsv.Error:
        return out, True
    return out, False


def check_exact(case):
    d, q, e = case["d"], case["q"], case["e"]
    sp = [x for x in (d, q, e) if x]
    if not d or len(set(sp)) != len(sp) or any(len(x) > 1 or x in "\r\n\0" for x in sp):
        return []
    text = texts(case)
    if "\0" in text or len(text) > 400000:
        return []
    strict = bool(case["strict"])
    # the length of the longest cell as scanned
    lo, hi = 0, len(text) + 1
    lines = list(io.StringIO(text, newline=""))
    free, ferr = refparse.parse(lines, d, q, e, strict)
    probe = lambda n: refparse.parse(lines, d, q, e, strict, limit=n)[1] == "limit"
    while lo < hi:
        mid = (lo + hi) // 2
        if probe(mid):
            lo = mid + 1
        else:
            hi = mid
    longest = lo
    ns = {max(0, longest + x) for x in (-1, 0, 1)} | {max(0, case["n"])}
    dia = SimpleDialect(d, q, e, strict=strict)
    for n in sorted(ns):
        want, werr = refparse.parse(lines, d, q, e, strict, limit=n)
        with limit(n):
            eq(clevercsv.field_size_limit(), n, "the limit just set")
            got, err = rows_of(iter(lines), dia)
            eq(got, refparse.plain(want), "rows under the limit %d" % n)
            eq(err, werr is not None, "clevercsv.Error under the limit %d (longest cell %d)" % (n, longest))
            # the same limit as an argument, whatever the global one is
            clevercsv.field_size_limit([DEFAULT, 0, max(0, case["n"])][n % 3])
            rows, perr = [], False
            try:
                for r in parse_data(iter(lines), dia, field_limit=n):
                    rows.append(r)
            except clevercsv.Error:
                perr = True
            eq((rows, perr), (got, err), "rows of parse_data with field_limit=%d" % n)
            clevercsv.field_size_limit(n)
            # a limit set after reading has begun does not count for this reader
            r = clevercsv.reader(iter(lines), dia)
            first = None
            try:
                first = next(r, None)
            except clevercsv.Error:
                first = "error"
            if isinstance(first, list):
                clevercsv.field_size_limit(max(0, case["n"] // 2))
                rest, rerr = [], False
                try:
                    for row in r:
                        rest.append(row)
                except clevercsv.Error:
                    rerr = True
                eq(([first] + rest, rerr), (got, err), "rows when the limit changes while reading")
    labels = ["longest " + ("<10" if longest < 10 else "<4000" if longest < 4000 else "buffer size")]
    if longest > 1 and ferr != "limit":
        labels.append("NT")
    if ferr:
        labels.append("error without limit")
    return labels


def gen_exact(rng):
    d, q, e = gens.triple(rng, empty_d=0)
    toks = gens.tokens(rng, d, q, e, rng.choice([1, 3, 6, 12]))
    r = rng.random()
    if r < 0.5:
        toks.insert(rng.randint(0, len(toks)), [rng.choice(["a", "é", "😀", " "]), rng.choice([2, 5, 9, 30])])
    elif r < 0.6:
        toks.insert(rng.randint(0, len(toks)), [rng.choice(["a", "é", q + q, e + q, e + e, "\n", d]), rng.choice([4094, 4095, 4096, 4097, 8192, 9000])])
    elif r < 0.8:
        toks.insert(rng.randint(0, len(toks)), [q, 1])
        toks.append([q, 1])
    return {"d": d, "q": q, "e": e, "strict": rng.random() < 0.2, "toks": toks, "n": rng.choice([0, 1, 2, 3, 7, 20])}


def check_default(case):
    """Without setting anything the limit is 131072."""
    n = DEFAULT + case["over"] % 5 - 2
    c = ["a", "é", "😀"][case["c"] % 3]
    body = (c * n)[: n - (1 if case["quoted"] else 0)]
    text = ('"' + body + '"' if case["quoted"] else body) + "\n"
    where = case["where"] % 3
    lines = [["x,y\n", text], ["x,y\n", "a," + text], [text, "x\n"]][where]
    eq(clevercsv.field_size_limit(), DEFAULT, "the default limit")
    # outer quotes: the opening one and the closing one are scanned as well
    scanned = len(text) - 1
    got, err = rows_of(lines, "excel")
    eq(err, scanned > DEFAULT, "clevercsv.Error for a cell of %d scanned characters under the default limit" % scanned)
    if not err:
        eq([len(c) for r in got for c in r if len(c) > 9], [len(body)], "length of the long cell")
    return ["NT"]


# ------------------------------------------------------------ set/get histories

def check_setget(case):
    cur = DEFAULT
    labels = set()
    try:
        for op in case["ops"]:
            k, x = op[0] % 7, op[1]
            if k not in (1, 2):
                x = abs(x)
            if k == 0:
                eq(clevercsv.field_size_limit(), cur, "limit")
            elif k == 1:
                eq(clevercsv.field_size_limit(x), cur, "value returned by field_size_limit(%d)" % x)
                cur = x
            elif k == 2:
                name = ["limit", "new_limit"][x % 2]
                eq(clevercsv.field_size_limit(**{name: x}), cur, "value returned by field_size_limit(%s=%d)" % (name, x))
                cur = x
            elif k == 3:
                v = BAD[x % len(BAD)]
                try:
                    clevercsv.field_size_limit(v)
                    raise Violation("field_size_limit(%r) was accepted" % (v,))
                except TypeError:
                    labels.add("NT")
            elif k == 4:
                try:
                    clevercsv.field_size_limit(x, x + 1)
                    raise Violation("field_size_limit with two arguments was accepted")
                except TypeError:
                    labels.add("NT")
            elif k == 5:
                n = x % 12
                got, err = rows_of(["a," + "b" * n + "\n"], "excel")
                eq(err, max(1, n) > max(0, cur), "clevercsv.Error for a cell of length %d under the limit %d" % (n, cur))
                if not err:
                    eq(got, [["a", "b" * n]], "rows")
                    list(clevercsv.DictReader(["x\n", "y\n"] if cur else []))
                # readers made under another limit that have not started to read
                late = [clevercsv.reader(["a," + "b" * n + "\n"]), clevercsv.DictReader(["a," + "b" * n + "\n"])]
                clevercsv.field_size_limit(x)
                for r in late:
                    try:
                        r.fieldnames if hasattr(r, "fieldnames") else next(r)
                        err = False
                    except clevercsv.Error:
                        err = True
                    eq(err, max(1, n) > max(0, x), "clevercsv.Error for a cell of length %d under the limit %d, set between making the reader and reading" % (n, x))
                clevercsv.field_size_limit(cur)
                labels.add("read")
            else:
                # words: the URL filter is quadratic in the length of a word
                text = "a,b,%s\n1,2,%s\n" % ("cc " * (x % 200000 // 3), "d" * (x % 30)) + ("\0" if x % 5 == 0 else "")
                det = clevercsv.Detector()
                try:
                    [det.detect, det.sniff, lambda t: det.detect(t, method="consistency"), lambda t: det.detect(t, skip=False)][x % 4](text)
                except clevercsv.Error:
                    expect("\0" in text, "detection failed under the limit %d" % cur)
                labels |= {"NT", "detect"}
            eq(clevercsv.field_size_limit(), cur, "limit after operation %d" % k)
    finally:
        clevercsv.field_size_limit(DEFAULT)
    return sorted(labels)


def gen_setget(rng):
    return {"ops": [[rng.randint(0, 6), rng.choice([0, 1, 2, 3, 5, 10, 11, 100, 131072, 200000, 2 ** 31, 2 ** 40, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 + 5, 10 ** 30, -1, -5, -2 ** 63, -2 ** 64 + 9, -10 ** 30])
                     if rng.random() < 0.4 else rng.randint(0, 14)] for _ in range(rng.randint(1, 12))]}


# ------------------------------------------------------------ detection

class Recorder(io.StringIO):
    """Standard output that looks at the limit when it is written to."""

    def __init__(self, see):
        super().__init__()
        self.see = see

    def write(self, s):
        self.see()
        return super().write(s)


class Abort(Exception):
    pass


def run_detect(case, text, see, tmp):
    det = clevercsv.Detector()
    opts = {"method": ["auto", "normal", "consistency"][case["method"] % 3], "skip": bool(case["skip"]), "verbose": bool(case["verbose"])}
    if case["delims"]:
        ds = [x for x in case["delims"] if len(x) == 1] or [","]

        def collection():
            for i, x in enumerate(ds):
                see()
                if case["abort"] and i + 1 == len(ds):
                    raise Abort
                yield x
        opts["delimiters"] = collection()
    how = case["how"] % 4
    with contextlib.redirect_stdout(Recorder(see)):
        if how == 3:
            see()
            return clevercsv.detect_dialect(tmp, encoding="utf-8", verbose=opts["verbose"], method=opts["method"], skip=opts["skip"])
        if how == 2:
            opts.pop("method"), opts.pop("skip")
            return det.sniff(text, **opts)
        return det.detect(text, **opts)


def check_detect(case):
    text = texts(case)
    if len(text) > 300000:
        return []
    tmp = os.path.join(os.environ["TMPDIR"], "c07.csv")
    with open(tmp, "w", newline="", encoding="utf-8") as fp:
        fp.write(text)
    n = abs(case["n"])
    calls = []

    def outcome(see):
        try:
            return run_detect(case, text, see, tmp)
        except (clevercsv.Error, clevercsv.exceptions.NoDetectionResult, Abort) as e:
            return type(e).__name__
    base = outcome(lambda: None)
    if isinstance(base, str):
        expect(base in ("Abort",) or "\0" in text, "detection raised %s" % base)
    seen = set()

    def see():
        calls.append(1)
        seen.add(clevercsv.field_size_limit())
        if len(calls) < 40:
            # other code that reads under the limit in force
            got, err = rows_of(["x" * (n % 30 + 1)], "excel")
            eq(err, n % 30 + 1 > n, "a reader that runs during the detection fails")
    stop = threading.Event()
    watch = None
    if case["thread"]:
        start = threading.Event()

        def look():
            start.set()
            while not stop.is_set():
                seen.add(clevercsv.field_size_limit())
        watch = threading.Thread(target=look, daemon=True)
    old = sys.getswitchinterval()
    with limit(n):
        if watch:
            sys.setswitchinterval(1e-5)
            watch.start()
            start.wait(10)
        try:
            res = outcome(see)
        finally:
            stop.set()
            if watch:
                watch.join()
                sys.setswitchinterval(old)
        eq(clevercsv.field_size_limit(), n, "limit after the detection (%s)" % (res if isinstance(res, str) else "no error"))
    expect(seen <= {n}, "other code saw the limits %r during the detection, %d is in force" % (sorted(seen), n))
    eq(res, base, "detection under the limit %d" % n)
    labels = ["raised" if isinstance(res, str) else "None" if res is None else "dialect"]
    if any(len(c) > n for c in text.replace("\r", "\n").split("\n")) and len(text) > n:
        labels.append("NT")
    if calls:
        labels.append("observed during detection")
    if watch:
        labels.append("thread")
    return labels


def gen_detect(rng):
    d, q, e = gens.triple(rng, empty_d=0.2)
    k = rng.random()
    if k < 0.4:
        row = [gens.cell_plain(rng, d + q) or "a" for _ in range(3)]
        toks = [[d.join(row) + "\n", rng.choice([1, 2, 5])], [q + "b" + q + d + "c\n", 1]]
    elif k < 0.8:
        toks = gens.tokens(rng, d, q, e, rng.choice([3, 10, 20]))
    else:
        toks = [["a,b\n", 1], [rng.choice(["x y", "1. ", "é, "]), rng.choice([43690, 43691, 46000])], [",c\n", 2]]
    if rng.random() < 0.15:
        toks.insert(rng.randint(0, len(toks)), ["\0", 1])
    if rng.random() < 0.4:
        toks.insert(rng.randint(0, len(toks)), ["z ", rng.choice([10, 50, 2049])])
    return {"toks": toks, "n": rng.choice([0, 1, 2, 5, 12, 100, 131072, 2 ** 40]), "method": rng.randint(0, 2), "skip": rng.random() < 0.6,
            "verbose": rng.random() < 0.5, "how": rng.randint(0, 3), "delims": rng.choice([[], [], [",", ";"], [d], [",", "\t", "|"]]),
            "abort": rng.random() < 0.2, "thread": rng.random() < 0.15}


# ------------------------------------------------------ texts in memory

def check_whole(case):
    """A text that is in memory has no limit: parse_string and the detection."""
    size, n, w = case["size"], abs(case["n"]), case["w"]
    if not (isinstance(size, int) and 0 <= size <= 9000000 and isinstance(w, str) and len(w) == 3 and w.strip()):
        return []
    cell = w * (size // 3) + "z" * (size % 3)
    if set(cell) & set(',"\\\r\n\0'):
        return []
    q = '"' if case["quoted"] else ""
    text = "a,b\n" + ["%s,c\n", "c,%s\n", "c,%s"][case["where"] % 3] % (q + cell + q) + ("x,y\n" if case["where"] % 3 < 2 else "")
    row = [[cell, "c"], ["c", cell]][case["where"] % 3 > 0]
    want = [["a", "b"], row] + ([["x", "y"]] if case["where"] % 3 < 2 else [])
    from clevercsv.cparser_util import parse_string
    with limit(n):
        rows = cut("parse_string", lambda: list(parse_string(text, clevercsv.dialect.SimpleDialect(",", '"', ""))))
        eq(rows == want, True, "parse_string gives the rows of a text with a cell of %d characters under the limit %d" % (size, n))
        one = cut("parse_string", lambda: list(parse_string(cell, clevercsv.dialect.SimpleDialect("", "", ""))))
        eq(one == ([[cell]] if cell else []), True, "parse_string of one cell of %d characters" % size)
        if case["detect"] and " " in w and size <= 1200000:  # words: the detection takes long for one long word
            got = cut("detect", clevercsv.Detector().detect, text, delimiters=[","], method="consistency")
            expect(got is not None and got.delimiter in ("", ","), "detection under the limit %d" % n)
        eq(clevercsv.field_size_limit(), n, "limit afterwards")
    return ["NT"] if size > n else []


def gen_whole(rng):
    return {"size": rng.choice([0, 1, 2, 4096, 131072, 1 << 18, 1 << 20, 1 << 20, 1 << 21, 1 << 22, 8000000]) + rng.choice([0, 1, 2, rng.randint(0, 99)]), "n": rng.choice([0, 1, 100, 131072, 131072]),
            "w": rng.choice(["x y", "1 2", "é b", "abc"]), "quoted": rng.random() < 0.5, "where": rng.randint(0, 2), "detect": rng.random() < 0.3}


PARTS = [
    Part("whole", gen_whole, check_whole, 100, 1500, rule="a cell longer than the limit", shrink_tries=40),
    Part("exact", gen_exact, check_exact, 16000, 400000, rule="the longest scanned cell has at least two characters; limits one below, at and one above it"),
    Part("default", lambda rng: {k: rng.randint(0, 29) for k in ("over", "c", "where", "quoted")} | {"quoted": rng.random() < 0.5},
         check_default, 60, 300, rule="a cell within two characters of 131072"),
    Part("setget", gen_setget, check_setget, 12000, 300000, rule="a rejected value or a detection in the history"),
    Part("detect", gen_detect, check_detect, 2500, 60000, rule="a line longer than the limit in force"),
]
