"""C11: detection options mean what they say."""
import contextlib
import io

import clevercsv
import clevercsv.consistency
from clevercsv.consistency import ConsistencyDetector

from vlib import refdetect, texts
from vlib.engine import Part, Violation, cut, eq, expect

ASSUMPTIONS = ["the four delimiters of normal-form detection are comma, semicolon, pipe and tab"]


def comps(x):
    return None if x is None else [x.delimiter, x.quotechar, x.escapechar, x.strict]


def det(text, **o):
    d = clevercsv.Detector()
    r = cut("detect(%r)" % o, d.detect, text, **o)
    return comps(r), str(getattr(getattr(d, "method_", None), "value", getattr(d, "method_", None)))


def check(case):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        labels = run(case)
    eq(out.getvalue(), "", "output without verbose")
    text = case["text"].replace("\0", "")
    if len(text) % 4 == 0:
        for o in ({"method": "normal"}, {"method": "consistency"}, {"method": "auto"}, {"method": "auto", "delimiters": case["delims"]}):
            want = det(text, **o)
            with contextlib.redirect_stdout(out):
                got = det(text, verbose=True, **o)
                d = clevercsv.Detector()
                pos = comps(cut("detect", d.detect, text, o.get("delimiters"), True, o["method"]))
            eq(got, want, "detect with verbose, %r" % (o,))
            eq(pos, want[0], "detect with verbose by position, %r" % (o,))
            expect(out.getvalue(), "no output with verbose, %r" % (o,))
            out.truncate(0)
            with contextlib.redirect_stdout(out):
                clevercsv.Sniffer().sniff(text, None, True)
                c = ConsistencyDetector(True, True)
                eq(comps(c.detect(text)), comps(ConsistencyDetector().detect(text)), "ConsistencyDetector with verbose")
            expect(out.getvalue(), "no output from sniff with verbose")
            out.truncate(0)
    return labels


def run(case):
    text = case["text"].replace("\0", "")
    normal, m1 = det(text, method="normal")
    cons, m2 = det(text, method="consistency")
    auto, m3 = det(text)
    eq(m1, "normal", "method_ for method='normal'")
    eq(m2, "consistency", "method_ for method='consistency'")
    eq(auto, cons if normal is None else normal, "method 'auto'")
    eq(m3, "consistency" if normal is None else "normal", "method_ for method='auto'")
    eq(det(text, method="auto"), (auto, m3), "explicit method 'auto'")
    # skipping
    for o in ({"method": "consistency"}, {"method": "auto"}, {"method": "normal"}):
        full = det(text, skip=False, **o)[0]
        eq(det(text, skip=True, **o)[0], full, "detect with skip, %s" % o["method"])
    c = comps(ConsistencyDetector(skip=True).detect(text))
    eq(c, comps(ConsistencyDetector(skip=False).detect(text)), "ConsistencyDetector with and without skip")
    eq(c, cons, "ConsistencyDetector and method 'consistency'")
    # sniff
    s = clevercsv.Sniffer()
    eq(comps(s.sniff(text)), auto, "sniff")
    labels = ["normal form" if normal else "consistency" if cons else "None"]
    # naming the automatic candidates
    eq(det(text, method="normal", delimiters=[",", ";", "|", "\t"])[0], normal, "normal with its own delimiters")
    cand = sorted(refdetect.auto_delims(text))
    eq(det(text, method="consistency", delimiters=cand)[0], cons, "consistency with exactly the automatic delimiters")
    helper = getattr(clevercsv.consistency, "detect_dialect_consistency", None)
    if helper is not None:
        eq(comps(cut("detect_dialect_consistency", helper, text)), cons, "detect_dialect_consistency")
        eq(comps(helper(text, delimiters=iter(case["delims"]), skip=len(text) % 2 == 0)), det(text, method="consistency", delimiters=case["delims"])[0], "detect_dialect_consistency with delimiters")
    eq(comps(ConsistencyDetector().detect(text, delimiters=cand)), cons, "ConsistencyDetector with exactly the automatic delimiters")
    # explicit delimiters, in different collections
    ds = case["delims"]
    for method in ("auto", "normal", "consistency"):
        forms = [ds, list(ds), set(ds), frozenset(ds), tuple(ds), dict.fromkeys(ds), (x for x in ds), iter(ds), ds[::-1], ds + ds]
        want = None
        for i, f in enumerate(forms):
            for skip in (True, False) if i == 0 else (True,):
                got = det(text, delimiters=f, method=method, skip=skip)
                if want is None:
                    want = got
                eq(got, want, "delimiters %r as %s, method %s" % (ds, type(f).__name__, method))
        d = clevercsv.Detector()
        eq(comps(cut("detect", d.detect, text, ds, False, method, True)), want[0], "delimiters, verbose, method and skip by position")
        eq(comps(cut("detect", d.detect, sample=text, delimiters=ds, method=method)), want[0], "everything by name")
        if method == "consistency":
            eq(comps(ConsistencyDetector(len(text) % 2 == 0, False, 50).detect(text, ds)), want[0], "ConsistencyDetector's parameters by position")
        if want[0] is not None:
            expect(want[0][0] == "" or want[0][0] in ds, "delimiter %r is none of %r" % (want[0][0], ds))
            expect(all(x == "" or x in text for x in want[0][:3]), "component not in the text")
        if method == "auto":
            eq(comps(s.sniff(text, delimiters=ds)), want[0], "sniff with delimiters")
            eq(comps(s.sniff(text, ds)), want[0], "sniff with delimiters by position")
            auto_d = want
        elif method == "normal":
            n_d = want
        else:
            eq(auto_d, want if n_d[0] is None else n_d, "method 'auto' with delimiters")
    for m in ("AUTO", "Normal", "consistency ", "", "none", "auto,normal"):
        try:
            clevercsv.Detector().detect(text[:20], method=m)
        except ValueError:
            continue
        raise Violation("the method %r was accepted" % m)
    if auto is not None and auto[0]:
        labels.append("NT")
    if auto_d[0] is not None and auto_d[0] != auto:
        labels.append("delimiters change the result")
    return labels


def gen(rng):
    if rng.random() < 0.25:
        t = texts.table(rng, d=rng.choice(",;|\t:"), e="", kinds=["word", "int", "float", "date", "words", "email", "pct"])
    else:
        t = texts.text(rng)
    r = rng.random()
    if r < 0.5:
        ds = "".join(rng.sample([",", ";", "\t", "|", " ", ":", "-", "^"], rng.randint(1, 4)))
    elif r < 0.9 and t:
        ds = "".join(dict.fromkeys(rng.choice(t) for _ in range(rng.randint(1, 4))))
    else:
        ds = rng.choice(["", "a", ".", '"', "\n", "é", ",\"", "1,"])
    return {"text": t, "delims": ds}


def long_text(case):
    """A table repeated to many characters, with a decisive end."""
    unit, n = case["unit"], case["n"]
    if not isinstance(unit, str) or not isinstance(n, int) or not unit:
        return None
    n = min(max(0, n), (3000000 if case.get("huge") else 80000) // len(unit))
    return case["head"] + unit * n + case["end"]


def check_long(case):
    text = long_text(case)
    if text is None or "\0" in text:
        return []
    ds = [",", ";", "|", "\t"]
    normal, m1 = det(text, method="normal", delimiters=ds)
    auto, m3 = det(text, delimiters=ds)
    eq(m1, "normal", "method_ for method='normal'")
    if normal is not None:
        eq(auto, normal, "method 'auto' where the normal form detects a dialect, %d characters" % len(text))
        eq(m3, "normal", "method_ of method 'auto'")
        eq(det(text, method="normal")[0], normal, "normal with its own delimiters")
        eq(det(text), (auto, m3), "method 'auto' without delimiters")
        eq(comps(clevercsv.Sniffer().sniff(text, delimiters=ds)), auto, "sniff")
        return ["NT", "normal form" if auto[0] else "one column"]
    cons, m2 = det(text, method="consistency", delimiters=ds)
    eq(m2, "consistency", "method_ for method='consistency'")
    eq((auto, m3), (cons, m2), "method 'auto' where no normal form matches, %d characters" % len(text))
    eq(det(text, method="consistency", delimiters=ds, skip=False)[0], cons, "consistency without skipping, %d characters" % len(text))
    eq(comps(ConsistencyDetector().detect(text, delimiters=ds)), cons, "ConsistencyDetector, %d characters" % len(text))
    eq(comps(clevercsv.Sniffer().sniff(text, delimiters=ds)), auto, "sniff")
    return ["NT", "consistency"]


def gen_long(rng):
    r = rng.random()
    d = rng.choice(",;|\t")
    nl = rng.choice(["\n", "\n", "\r\n", "\r"])
    k = rng.choice([1, 1, 2, 3])
    cells = [rng.choice(["word", "12", "3.5", "a_b", "x&y", "2019-01-02", "Zz-9"]) for _ in range(k)]
    q = rng.choice(["", "", '"'])
    unit = d.join(q + c + q for c in cells) + nl
    if r < 0.25:
        unit = rng.choice(["some words here", "a b", "1:2 3", "it's so", "x (y)"]) + d + "7" + nl
    end = rng.choice(["", "", unit.rstrip("\r\n"), "a" + nl, 'x%sy"%s' % (d, nl), nl, "a b" + nl, d.join(["q"] * (k + 1)) + nl])
    head = "" if rng.random() < 0.8 else texts.text(rng)
    size = rng.choice([3000, 9000, 11000, 11000, 30000, 70000])
    if r < 0.25:
        size = min(size, 11000)
    return {"head": head, "unit": unit, "n": size // len(unit) + 1, "end": end}


HUGE = [{"head": "", "unit": "word,12\n", "n": n, "end": "", "huge": 1} for n in (33000, 140000, 280000)]

PARTS = [Part("long", gen_long, check_long, 240, 6000, rule="a text of thousands of characters", fixed=HUGE),
         Part("options", gen, check, 7000, 250000, rule="the default options detect a non-empty delimiter")]
