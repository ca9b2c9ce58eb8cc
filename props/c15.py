"""C15: detection is the same for LF, CRLF and CR files."""
import math

import clevercsv
from clevercsv import detect_type
from clevercsv.detect_pattern import pattern_score
from clevercsv.dialect import SimpleDialect

from vlib import gens, refdetect, refparse, texts
from vlib.engine import Part, Skip, cut, eq, expect

ASSUMPTIONS = ["a line break separates rows under a dialect when the reference tokenizer and the reference abstraction "
               "give the same for the whole text as line by line"]
close = lambda a, b: math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-15)


def separates(lines, d, q, e):
    """Do all line breaks separate rows under this dialect?"""
    if e and any(ln.endswith(e) for ln in lines):
        return False
    for ln in lines:
        a = refdetect.abstraction(ln, d, q, e)
        if "Q" in a:
            return False
    text = "\n".join(lines)
    if len({x for x in (d, q, e) if x}) < len([x for x in (d, q, e) if x]):
        # the reference tokenizer does not cover overlapping components
        return q == "" or all(q not in ln for ln in lines)
    rows, err = refparse.parse([ln + "\n" for ln in lines[:-1]] + lines[-1:], d, q, e)
    each = []
    for ln in lines:
        r, er = refparse.parse([ln + "\n"], d, q, e)
        if er or len(r) != 1:
            return False
        each += r
    if lines and lines[-1] == "":
        each = each[:-1]
    return not err and rows == each


def variants(lines, extra):
    base = "\n".join(lines)
    out = [("LF", base)]
    for name, nl in (("CRLF", "\r\n"), ("CR", "\r")):
        out.append((name, nl.join(lines)))
    if any(lines):
        for k, (name, nl) in zip(extra, (("LF", "\n"), ("CRLF", "\r\n"), ("CR", "\r"))):
            out.append(("%s with %d more line ends" % (name, k % 4), nl.join(lines) + nl * (k % 4)))
    return out


def comps(x):
    return None if x is None else (x.delimiter, x.quotechar, x.escapechar)


def prepare(case):
    lines = [ln.replace("\r", "").replace("\n", "").replace("\0", "") for ln in case["lines"] if isinstance(ln, str)]
    if not lines:
        raise Skip("no lines")
    return lines


def check_scores(case):
    lines = prepare(case)
    if len("\n".join(lines)) > 30000:
        return []
    d, q, e = case["d"], case["q"], case["e"]
    if any(len(x) > 1 or x in ("\n", "\r", "\0") for x in (d, q, e)):
        return []
    sp = [x for x in (d, q, e) if x]
    if len(set(sp)) != len(sp) or not separates(lines, d, q, e):
        return ["line breaks in cells"]
    dia = SimpleDialect(d, q, e)
    base = None
    for name, t in variants(lines, case["extra"]):
        p, s = cut("pattern_score", pattern_score, t, dia), cut("type_score", detect_type.type_score, t, dia)
        if base is None:
            base = (p, s)
            continue
        expect(close(p, base[0]), "pattern score with %s: %r, with LF: %r" % (name, p, base[0]))
        expect(close(s, base[1]), "type score with %s: %r, with LF: %r" % (name, s, base[1]))
    return ["NT"] if len(lines) > 1 and base[0] > 0.01 else []


def gen_lines(rng):
    r = rng.random()
    if r < 0.5:
        t = texts.table(rng, nl="\n")
    elif r < 0.65:
        t = texts.mutate(rng, texts.table(rng, nl="\n"))
    elif r < 0.8:
        t = texts.tie(rng)
    else:
        t = texts.soup(rng)
    lines = t.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    if rng.random() < 0.1:
        lines.insert(rng.randint(0, len(lines)), "")
    if rng.random() < 0.1:
        lines.insert(rng.randint(0, len(lines)), rng.choice(["$", "€", "x,$", "1,2", "a,'b'", " ", "\x0b", "a\x85b", "\u2028"]))
    if lines and lines[-1] == "" and rng.random() < 0.8:
        lines.pop()
    return lines[:60] or ["a"]


def gen_scores(rng):
    d, q, e = gens.triple(rng)
    lines = gen_lines(rng)
    if rng.random() < 0.6:
        t = texts.table(rng, d or ",", q, e, nl="\n") if rng.random() < 0.7 else gens.text_of(gens.tokens(rng, d, q, e, rng.choice([3, 10, 30])))
        lines = t.replace("\r", "\n").split("\n")
        if lines and lines[-1] == "" and rng.random() < 0.8:
            lines.pop()
    return {"d": d, "q": q, "e": e, "lines": lines or [""], "extra": [rng.randint(0, 3) for _ in range(3)]}


def check_detect(case):
    lines = prepare(case)
    text = "\n".join(lines)
    if len(text) > 1500:
        return []
    cands = refdetect.candidates(text)
    if len(cands) * (len(text) + 20) > 60000:
        return []
    if any(refdetect.is_escape(ln[-1]) for ln in lines if ln) or not all(separates(lines, *c) for c in cands):
        return ["line breaks in cells"]
    base = {}
    for name, t in variants(lines, case["extra"]):
        for m in ("consistency", "auto"):
            got = comps(cut("detect", clevercsv.Detector().detect, t, method=m))
            if m in base:
                eq(got, base[m], "dialect detected (%s) with %s, expected that with LF" % (m, name))
            else:
                base[m] = got
    lab = ["no dialect" if base["auto"] is None else "dialect"]
    if len(lines) > 1 and base["auto"] and base["auto"][0]:
        lab.append("NT")
    return lab


def gen_detect(rng):
    for _ in range(4):
        lines = [x[:60] for x in gen_lines(rng)][:8]
        if rng.random() < 0.7:
            # balance the quotes of every line
            for q in "\"'`~":
                lines = [ln if ln.count(q) % 2 == 0 else ln.replace(q, "") for ln in lines]
            lines = [ln.rstrip("\\/@") for ln in lines]
        t = "\n".join(lines)
        c = refdetect.candidates(t)
        if len(c) * (len(t) + 20) < 30000 and all(separates(lines, *x) for x in c):
            break
    return {"lines": lines, "extra": [rng.randint(0, 3) for _ in range(3)]}


PARTS = [
    Part("scores", gen_scores, check_scores, 50000, 1500000, rule="at least two lines, all breaks separate rows, pattern score above 0.01"),
    Part("detect", gen_detect, check_detect, 12000, 400000, rule="at least two lines, all breaks separate rows, a delimiter detected"),
]
