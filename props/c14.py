"""C14: clean files are detected with their true dialect and read back."""
import os

import clevercsv
from clevercsv.dialect import SimpleDialect

from vlib import refdetect
from vlib.engine import Part, cut, eq, expect

ASSUMPTIONS = ["simple cells: letters, digits, spaces and . _ & - + % ( ) and @ / not before a delimiter or quote; "
               "a quoted cell may also hold delimiters and other punctuation"]
DELS = [",", ";", "|", "\t"]
LET = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ELEM = set(LET + "0123456789._&-@+%() /")
SINGLE = set(LET + "0123456789._&-")
QUOTED_EXTRA = ",;|\t:!?#*=<>[]{}^$"


def build(case):
    """-> text, rows or None when outside the domain."""
    d, q, nl = case["d"], case["q"], case["nl"]
    if d not in DELS or q not in ('"', "'", "") or nl not in ("\n", "\r\n", "\r"):
        return None
    other = "'" if q == '"' else '"'
    rows, lines = [], []
    anyq = False
    src = case["rows"]
    rep = case.get("rep")
    if isinstance(rep, list) and len(rep) == 2 and all(isinstance(x, int) for x in rep) and src:
        # one row repeated, so that the others come late (or early) in a long file
        k = rep[0] % len(src)
        src = src[:k] + [src[k]] * min(abs(rep[1]), 6000) + src[k + 1:]
    for row in src:
        cells, outc = [], []
        for cell in row:
            if not (isinstance(cell, list) and len(cell) == 2 and isinstance(cell[0], str)):
                return None
            c, quoted = cell
            if not c:
                return None
            if quoted and q:
                anyq = True
                if any(x not in ELEM and x not in QUOTED_EXTRA and x != other for x in c):
                    return None
                outc.append(q + c + q)
            else:
                if any(x not in ELEM for x in c):
                    return None
                outc.append(c)
            cells.append(c)
        rows.append(cells)
        lines.append(d.join(outc))
    if len(rows) < 2 or len({len(r) for r in rows}) != 1 or len(rows[0]) < 2:
        return None
    text = nl.join(lines) + (nl if case["final"] else "")
    for u, v in zip(text, text[1:]):
        if v in "'\"" or v in DELS:
            if refdetect.is_escape(u):
                return None
    return text, rows, (q if anyq else "")


def check(case):
    b = build(case)
    if b is None:
        return []
    text, rows, q = b
    d = case["d"]
    want = (d, q, "")
    for name, f in (("Detector.detect", lambda: clevercsv.Detector().detect(text)),
                    ("Sniffer.sniff", lambda: clevercsv.Sniffer().sniff(text)),
                    ("method normal", lambda: clevercsv.Detector().detect(text, method="normal"))):
        r = cut(name, f)
        expect(r is not None, "%s found no dialect, the true one is %r" % (name, want))
        eq((r.delimiter, r.quotechar, r.escapechar), want, name)
    got = cut("reader", lambda: list(clevercsv.reader(_lines(text), r)))
    eq(got, rows, "rows read with the detected dialect")
    if case["file"]:
        with open("c14.csv", "w", newline="", encoding="utf-8") as fp:
            fp.write(text)
        eq(cut("read_table", clevercsv.read_table, "c14.csv"), rows, "read_table")
        dd = cut("detect_dialect", clevercsv.detect_dialect, "c14.csv")
        eq(dd, SimpleDialect(*want), "detect_dialect")
        os.unlink("c14.csv")
    lab = ["NT", "delimiter %r" % d]
    nq = sum(1 for r in case["rows"] for c in r if c[1])
    n = sum(len(r) for r in rows)
    lab.append("no quotes" if not q else "all quoted" if nq == n else "some quoted")
    if any(set(c) & set(DELS) for r in rows for c in r):
        lab.append("delimiter in a quoted cell")
    for k in (50, 1000):
        if len(rows) > k:
            lab.append("more than %d rows" % k)
    if len(rows[0]) > 20:
        lab.append("more than 20 columns")
    return lab


def _lines(text):
    import io

    return io.StringIO(text, newline="")


def word(rng, chars, n):
    return "".join(rng.choice(chars) for _ in range(n))


def simple(rng, style):
    n = rng.choice([1, 1, 2, 3, 5, 8])
    if style == 0:
        return word(rng, LET, n)
    if style == 1:
        return word(rng, "0123456789", n)
    if style == 2:
        return word(rng, LET + "0123456789   ", n)
    if style == 3:
        return word(rng, "._&-+%() ", n)
    if style == 4:
        return word(rng, sorted(ELEM), n)
    if style == 5:
        return "%s%d.%d" % (rng.choice(["", "-", "+"]), rng.randint(0, 99), rng.randint(0, 99))
    if style == 6:
        return rng.choice(["a@b.com", "x/y", "2020-01-02", "50%", "(a)", "1 000", "-", " ", "a & b", "N/A", "a_b", "  x", "x  ", "/a/b", "1/2/2020"])
    return "-".join(word(rng, LET, rng.randint(1, 3)) for _ in range(rng.randint(2, 3)))


def gen(rng):
    d = rng.choice(DELS)
    q = rng.choice(['"', '"', "'"])
    other = "'" if q == '"' else '"'
    how = rng.choice(["none", "all", "some", "cols", "one"])
    cols = rng.choice([2, 2, 3, 4, 7, 2, 2, 3, 4, 7, 2, 3, 4, 5, rng.choice([30, 120])])
    n = rng.choice([2, 2, 3, 4, 10, rng.choice([10, 60])])
    styles = [rng.randint(0, 7) for _ in range(cols)]
    qcols = [rng.random() < 0.5 for _ in range(cols)]
    one = (rng.randint(0, n - 1), rng.randint(0, cols - 1))
    fancy = rng.random() < 0.5
    rows = []
    for i in range(n):
        row = []
        for j in range(cols):
            quoted = how == "all" or how == "some" and rng.random() < 0.5 or how == "cols" and qcols[j] or how == "one" and (i, j) == one
            c = simple(rng, styles[j] if rng.random() < 0.9 else rng.randint(0, 7))
            if quoted and fancy and rng.random() < 0.5:
                p = rng.randint(0, len(c))
                c = c[:p] + rng.choice([d, d, ", ", ";", "|", "\t", ":", "!", "?", "#", "=", other, d + d, other + d, d + other]) + c[p:]
            while any(refdetect.is_escape(u) and v in ",;|\t'\"" for u, v in zip(c, c[1:] + ",")):
                c = "".join(x for x in c if not refdetect.is_escape(x)) or "w"
            row.append([c, quoted])
        rows.append(row)
    rep = [rng.randint(0, n - 1), rng.choice([100, 300, 1100, 3000])] if rng.random() < 0.04 and cols < 5 else None
    return {"d": d, "q": q, "rep": rep, "nl": rng.choice(["\n", "\r\n", "\r"]), "final": rng.random() < 0.6, "rows": rows, "file": rng.random() < 0.1}


def check_single(case):
    q, nl, cells = case["q"], case["nl"], case["cells"]
    if q not in ('"', "'", "") or nl not in ("\n", "\r\n", "\r") or len(cells) < 2:
        return []
    okc = SINGLE | ({" "} if q else set())
    for c in cells:
        if not isinstance(c, str) or not c or any(x not in okc for x in c):
            return []
    text = nl.join(q + c + q for c in cells) + (nl if case["final"] else "")
    for m in ("auto", "normal"):
        r = cut("detect", clevercsv.Detector().detect, text, method=m)
        expect(r is not None, "no dialect detected (method %s)" % m)
        eq((r.delimiter, r.quotechar, r.escapechar), ("", q, ""), "dialect of a single column (method %s)" % m)
    eq(cut("reader", lambda: list(clevercsv.reader(_lines(text), r))), [[c] for c in cells], "rows")
    return ["NT", "quoted" if q else "unquoted"]


def gen_single(rng):
    q = rng.choice(["", "", '"', "'"])
    chars = sorted(SINGLE | ({" "} if q else set()))
    k = rng.randint(0, 4)
    cells = []
    for _ in range(rng.choice([2, 2, 3, 5, 20])):
        n = rng.randint(1, 6)
        cells.append([word(rng, LET, n), word(rng, "0123456789", n), word(rng, chars, n), word(rng, "._&-", n), "%d-%d" % (n, n + 1)][k])
    return {"q": q, "nl": rng.choice(["\n", "\r\n", "\r"]), "final": rng.random() < 0.6, "cells": cells}


PARTS = [
    Part("tables", gen, check, 20000, 700000, rule="a regular table of simple cells with two columns and rows at least"),
    Part("single", gen_single, check_single, 8000, 200000, rule="a single column of simple cells"),
]
