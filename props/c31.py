"""C31: normal-form detection accepts exactly the normal forms."""
import re

import clevercsv

from vlib import refdetect, texts
from vlib.engine import Part, cut, eq, expect

ASSUMPTIONS = ["texts in which a row that contains a quote character ends in a delimiter, or in which a quoted cell holds its own quote character again, are excluded: "
               "the documentation of the forms does not say how their cells are counted"]
STD = [",", ";", "|", "\t"]
ELEM = re.compile(r"[A-Za-z0-9._&\-@+%() /]*")
SINGLE = re.compile(r"[A-Za-z0-9._&\-]*")
SINGLEQ = re.compile(r"[A-Za-z0-9._&\- ]*")


def cells_of(row, d, q):
    """The cells of a row, a delimiter between quotes not counting."""
    out, cur, inside = [], "", False
    for c in row:
        if c == d and not inside:
            out.append(cur)
            cur = ""
        else:
            if c == q:
                inside = not inside
            cur += c
    return out + [cur]


def quoted(c, q):
    return len(c) > 1 and c[0] == c[-1] == q


def reference(text, delims):
    """-> (delimiter, quotechar, form) or None, or "excluded"."""
    for u, v in zip(text, text[1:]):
        if (v in delims or v in "'\"") and refdetect.is_escape(u):
            return None
    body = text.rstrip("\r\n")
    nl = "\r\n" if "\r\n" in body else "\n" if "\n" in body else "\r"
    rows = body.split(nl)
    for r in rows:
        if ("'" in r or '"' in r) and r[-1] in delims:
            return "excluded"
    tables = {}
    for d in delims:
        for q in ("", "'", '"'):
            t = [cells_of(r, d, q) for r in rows]
            tables[d, q] = t if len({len(r) for r in t}) == 1 and len(t[0]) > 1 else None
            if q and any(quoted(c, q) and q in c[1:-1] for r in t for c in r):
                return "excluded"
    for d in delims:
        t = tables[d, ""]
        if t and all(ELEM.fullmatch(c) for r in t for c in r):
            return d, "", 2
    for d in delims:
        for q in ("'", '"'):
            t = tables[d, q]
            if t and all(quoted(c, q) and q not in c[1:-1] for r in t for c in r):
                return d, q, 1
            if t and len(t) > 1 and all(
                    quoted(c, q) and len(c) > 2 if quoted(c, "'") or quoted(c, '"') else c and ELEM.fullmatch(c) for r in t for c in r):
                return d, q, 3
            if len(rows) > 1 and all(len(r) > 2 and quoted(r, q) and d in r for r in rows):
                inner = [cells_of(r[1:-1], d, "") for r in rows]
                if len({len(r) for r in inner}) == 1 and all(ELEM.fullmatch(c) for r in inner for c in r):
                    return d, q, 5
    if len(rows) > 1:
        for q in ("'", '"'):
            if all(quoted(r, q) and SINGLEQ.fullmatch(r[1:-1]) for r in rows):
                return "", q, 4
        if all(SINGLE.fullmatch(r) for r in rows):
            return "", "", 4
    return None


def order(delims):
    return sorted(set(delims), key=lambda d: (STD.index(d) if d in STD else 4, d))


def check(case):
    text, given = case["text"], case["delims"]
    if given is not None and (not given or any(not isinstance(x, str) or len(x) != 1 or x in "\r\n'\"" for x in given)):
        return []
    delims = order(STD if given is None else given)
    want = reference(text, delims)
    if want == "excluded":
        return ["excluded"]
    kw = {}
    if given is not None:
        kw["delimiters"] = [given, "".join(given), set(given), iter(given)][case["kind"] % 4]
    if case["verbose"]:
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            r = cut("detect", clevercsv.Detector().detect, text, method="normal", verbose=True, **kw)
    else:
        r = cut("detect", clevercsv.Detector().detect, text, method="normal", **kw)
    got = None if r is None else (r.delimiter, r.quotechar, r.escapechar, r.strict)
    eq(got, None if want is None else (want[0], want[1], "", False), "normal-form detection (reference form %s)" % (want and want[2]))
    lab = ["form %d" % want[2] if want else "no normal form"]
    if want or case["near"]:
        lab.append("NT")
    if given is not None:
        lab.append("delimiters given")
    return lab


LET = "abcXYZ019"


def cell(rng, elem=True, extra=""):
    n = rng.choice([1, 1, 2, 3])
    return "".join(rng.choice(LET + rng.choice(["", "._&-+%() ", "._&-+%() "]) + ("@/" if elem and rng.random() < 0.03 else "") + extra) for _ in range(n))


def gen(rng):
    given = None
    if rng.random() < 0.3:
        given = rng.sample([",", ";", "|", "\t", " ", "^", "a", "-", ":", "~", "é", "\\", "§", "@"], rng.choice([1, 1, 2, 3, 5]))
    delims = given or STD
    d = rng.choice(delims)
    q = rng.choice(["'", '"'])
    other = '"' if q == "'" else "'"
    form = rng.choice([1, 1, 2, 3, 3, 4, 5])
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    n = rng.choice([1, 2, 2, 2, 3, 5])
    cols = rng.choice([1, 2, 2, 2, 3, 4])
    rows = []
    for _ in range(n):
        if form == 1:
            rows.append(d.join(q + rng.choice(["", cell(rng, extra=rng.choice(["", other]) + d + "!#*é{$"), cell(rng)]) + q for _ in range(cols)))
        elif form == 2:
            rows.append(d.join(rng.choice(["", cell(rng), cell(rng), cell(rng)]) for _ in range(cols)))
        elif form == 3:
            rows.append(d.join(rng.choice([cell(rng), q + cell(rng, extra=d + rng.choice(["", "", other]) + "!é") + q]) for _ in range(cols)))
        elif form == 4:
            rows.append(rng.choice(["", q])[:0] + "".join(rng.choice(LET + "._&-") for _ in range(rng.randint(0, 4))))
        else:
            rows.append(q + d.join(rng.choice(["", cell(rng), cell(rng)]) for _ in range(cols)) + q)
    if form == 4 and rng.random() < 0.6:
        rows = [q + r + rng.choice(["", " "]) + q for r in rows]
    text = nl.join(rows) + rng.choice(["", nl, nl, nl + nl, "\n"])
    near = False
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
        # a small change that often leaves the form
        near = True
        k = rng.randint(0, len(text))
        c = rng.choice([q, other, d, rng.choice(STD), nl, "\\" + d, "\\" + q, "@" + d, "/" + q, "%" + d, "!" + d, "!", "#", "é", "é" + d, " ", "\r", "\n", "a", "\u00a7" + d, ":"])
        j = rng.choice([k, k, k + 1])
        text = text[:k] + c + text[j:] if rng.random() < 0.75 else text[:k] + text[k + 1:]
    if rng.random() < 0.1:
        text, near = texts.text(rng), True
    return {"text": text.replace("\0", ""), "delims": given, "kind": rng.randint(0, 3), "verbose": rng.random() < 0.05, "near": near}


# many rows, of which a late one may decide
def check_long(case):
    head, row, tail, nl = case["head"], case["row"], case["tail"], case["nl"]
    if nl not in ("\n", "\r", "\r\n") or not row or any(not isinstance(x, str) or len(x) > 60 or "\n" in x or "\r" in x for x in head + [row] + tail):
        return []
    n = min(abs(case["n"]), 1200000) // (len(row) + 1) + 3
    end = nl if case["end"] else ""
    want = reference(nl.join(head + [row] * 3 + tail) + end, STD)
    if want == "excluded":
        return ["excluded"]
    text = nl.join(head + [row] * n + tail) + end
    r = cut("detect", clevercsv.Detector().detect, text, method="normal")
    got = None if r is None else (r.delimiter, r.quotechar, r.escapechar, r.strict)
    eq(got, None if want is None else (want[0], want[1], "", False), "normal-form detection of %d rows (reference form %s)" % (n, want and want[2]))
    return ["NT", "form %d" % want[2] if want else "no normal form"] if len(text) > 30000 else []


def gen_long(rng):
    for _ in range(30):
        case = gen(rng)
        case["text"] = case["text"].replace("\r\n", "\n").replace("\r", "\n").strip("\n")
        rows = [r for r in case["text"].split("\n") if r]
        if rows and reference(case["text"], STD) not in (None, "excluded"):
            break
    else:
        rows = ["a,b", "c,d"]
    row = rng.choice(rows)
    last = list(rows)
    if rng.random() < 0.6:
        k = rng.randint(0, len(row))
        last.append(row[:k] + rng.choice(["\\,", "\\;", "@'", "/|", ",", ";", "'", '"', "", "#", "é", "", "  "]) + row[k + rng.choice([0, 0, 1]):])
    return {"head": rows[:1], "row": row, "tail": last, "nl": rng.choice(["\n", "\n", "\r\n", "\r"]), "end": rng.randint(0, 1),
            "n": rng.choice([1000, 20000, 70000, 70000, 140000])}


# more than 2**20 characters
HUGE = [
    {"head": ["aa,bb"], "row": "cc,dd", "tail": ["ee"], "nl": "\n", "end": 1, "n": 1150000},
    {"head": ["aa;bb"], "row": "cc;dd", "tail": ["'ee';ff"], "nl": "\r\n", "end": 0, "n": 1150000},
    {"head": ["aa,bb"], "row": "cc,dd", "tail": ["1,2"], "nl": "\r", "end": 1, "n": 1150000},
]

PARTS = [
    Part("long", gen_long, check_long, 400, 10000, fixed=HUGE, rule="more than 30 000 characters"),
    Part("forms", gen, check, 60000, 2000000, rule="a text in a normal form, or one made from such a text by small changes"),
]
