"""C09: detection answers for every text, with a dialect found in the text."""
import contextlib
import io
import unicodedata

import clevercsv
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect

from vlib import texts
from vlib.engine import Part, Violation, cut, eq, expect

ASSUMPTIONS = ["words are at most a few thousand characters long: the URL filter takes quadratic time in the length of a word"]
BLOCK = {"Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co"}
QUOTES = "\"'~`"


def options(case):
    o = {"method": ["auto", "normal", "consistency"][case["method"] % 3], "skip": bool(case["skip"])}
    ds = None
    if case["delims"] is not None and isinstance(case["delims"], str):
        ds = case["delims"]
        k = case["coll"] % 4
        o["delimiters"] = [ds, list(ds), set(ds), tuple(ds)][k]
    if case["method"] % 6 >= 3 and "DetectionMethod" in dir(__import__("clevercsv.detect", fromlist=["x"])):
        from clevercsv.detect import DetectionMethod
        o["method"] = DetectionMethod(o["method"])
    return o, ds


def comps(x):
    return None if x is None else (x.delimiter, x.quotechar, x.escapechar, x.strict)


def detect(text, o, verbose):
    out, err = (io.TextIOWrapper(io.BytesIO(), encoding="utf-8", newline="") for _ in "oe")
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            r = clevercsv.Detector().detect(text, verbose=verbose, **o)
        except clevercsv.Error:
            if "\0" in text:
                r = "error"
            else:
                raise
    out.flush(), err.flush()
    return r, out.buffer.getvalue().decode("utf-8"), err.buffer.getvalue().decode("utf-8")


def check(case):
    text = case["text"]
    if not isinstance(text, str):
        return []
    o, ds = options(case)
    r, out, err = cut("detect(%s)" % o, detect, text, o, False)
    expect(not out and not err, "detection prints %r without verbose" % (out + err)[:200])
    r2, out2, err2 = cut("detect(verbose, %s)" % o, detect, text, o, True)
    if isinstance(r, str) or isinstance(r2, str):
        eq(r2, r, "verbose detection of text with NUL")
        return ["NUL error", "NT"]
    eq(comps(r2), comps(r), "verbose detection")
    expect(not err2, "verbose detection prints on stderr: %r" % err2[:200])
    labels = ["method " + str(o["method"])]
    if case["sniff"]:
        so = {k: v for k, v in o.items() if k == "delimiters"}
        s = clevercsv.Sniffer()
        try:
            x = s.sniff(text, **so)
            try:
                y = s.has_header(text)
                expect(type(y) is bool, "has_header returns %r" % (y,))
            except clevercsv.exceptions.NoDetectionResult:
                pass
            except clevercsv.Error:
                # field larger than the limit
                expect(len(text) > 131072, "has_header raised clevercsv.Error")
        except clevercsv.Error:
            expect("\0" in text, "sniff raised clevercsv.Error")
            x = None
        if x is not None:
            validate(text, x, ds)
    if r is None:
        return labels + ["None"]
    validate(text, r, ds)
    labels.append("dialect")
    n = sum(1 for c in comps(r)[:3] if c)
    if n:
        labels.append("NT")
    labels.append("%d components" % n)
    if ds is not None:
        labels.append("explicit delimiters")
    return labels


def validate(text, r, ds):
    expect(isinstance(r, SimpleDialect), "result %r is not a SimpleDialect" % (r,))
    r.validate()
    c = comps(r)
    expect(c[3] is False, "strict is %r" % (c[3],))
    for name, x in zip(("delimiter", "quotechar", "escapechar"), c):
        expect(x == "" or x in text, "%s %r does not occur in the text" % (name, x))
    d, q, e, _ = c
    expect(q == "" or q in QUOTES, "quotechar %r is not a supported one" % q)
    if ds is None:
        if d and d != "\t":
            expect(unicodedata.category(d) not in BLOCK and d not in "./\"'\r\n", "delimiter %r is not allowed" % d)
    else:
        expect(d == "" or d in ds, "delimiter %r is none of the given %r" % (d, ds))
    if "\0" not in text:
        rows = cut("parsing with the detected dialect", lambda: list(parse_string(text, r)))
        if len(text) < 131072:
            eq(cut("reading with the detected dialect", lambda: list(clevercsv.reader(io.StringIO(text, newline=""), r))), rows,
               "reader and parse_string with the detected dialect")


def gen(rng):
    t = texts.text(rng, nul=True)
    if t and rng.random() < 0.03:
        c = max(rng.sample(t, min(3, len(t))), key=t.count)
        t = t.replace(c, rng.choice(["\ud83d", "\udce9", "\udfff", "€", "\x7f", "\x01"]))
    ds = None
    r = rng.random()
    if r < 0.12:
        ds = rng.choice([",", ";,", ",;|\t", "", "\t", " ", "a,", '"', "\n,", ".", "😀;"])
    elif r < 0.2 and t:
        ds = "".join(rng.choice(t) for _ in range(rng.randint(1, 4)))
    return {"text": t, "method": rng.randint(0, 5), "skip": rng.random() < 0.6, "delims": ds, "coll": rng.randint(0, 3), "sniff": rng.random() < 0.3}


def gen_big(rng):
    """[unit, repetitions, head, tail]: long cells, many rows, deep nesting, many blocks."""
    k = rng.randint(0, 5)
    if k == 0:
        unit, n = texts.table(rng, maxrows=3) + "\n", rng.choice([100, 400])
    elif k == 1:
        unit, n = rng.choice(["[", '{"a":[', "[ ", '"[', '{"":']), rng.choice([1001, 5000, 50000])
    elif k == 2:
        unit, n = rng.choice(["x y ", "1 2 ", "a, ", '"" ', "' ", "é. "]), rng.choice([33000, 45000])
    elif k == 3:
        unit, n = rng.choice(['"a",', "'a';", '"a\n",', '""', "''", '"a""b"\t', "\\,", '\\"']), rng.choice([4095, 4096, 8193, 20000])
    elif k == 4:
        unit, n = rng.choice(["\n", "\r", "\r\n", " ", ",", "\t", "-", "\"", "'", "\\", "/", "~", ". "]), rng.choice([4096, 65537, 150000])
    else:
        unit, n = texts.tie(rng) + rng.choice(["\n", "\r\n"]), rng.choice([50, 300])
    if len(unit) * n > 200000:
        n = 200000 // len(unit)
    return {"head": rng.choice(["", "a,b\n", '"', "x;"]), "unit": unit, "n": n, "tail": rng.choice(["", "\n", '"', ",c\n", "]", "}", "]}"]),
            "method": rng.randint(0, 2), "skip": rng.random() < 0.8}


def check_big(case):
    t = case["head"] + case["unit"] * min(abs(case["n"]), 200000) + case["tail"]
    if len(t) > 300000 or max(map(len, t.split())or [0]) > 60000 and any(c.isalnum() for c in t):
        return []
    lab = check({"text": t, "method": case["method"], "skip": case["skip"], "delims": None, "coll": 0, "sniff": False})
    return lab + (["NT"] if len(t) > 20000 and "NT" not in lab else [])


PARTS = [Part("big", gen_big, check_big, 250, 6000, rule="a text of more than 20000 characters or a dialect with a component"),
         Part("detect", gen, check, 36000, 1500000, rule="a dialect with at least one non-empty component, or an error for NUL")]
