"""C13: row abstraction and pattern score equal a reference definition."""
import itertools
import math

from clevercsv.detect_pattern import make_abstraction, pattern_score
from clevercsv.dialect import SimpleDialect

from vlib import gens, refdetect, texts
from vlib.engine import Part, cut, eq, expect

ASSUMPTIONS = ["delimiter, quotechar and escapechar are not line-break characters; text without NUL",
               "the documented abstraction is stated as vlib/refdetect.row_patterns"]


class Text(str):
    """The same text in a subclass of str."""


def verify(text, d, q, e):
    dia = SimpleDialect(d, q, e)
    got = cut("make_abstraction", make_abstraction, text, dia)
    want = refdetect.final_abstraction(text, d, q, e)
    eq(got, want, "abstraction of %r" % ((d, q, e),))
    if len(text) % 8 == 0:
        eq(cut("make_abstraction", make_abstraction, Text(text), dia), want, "abstraction of the text in a subclass of str")
    expect(set(got) <= set("CDRQ"), "abstraction has other markers")
    p = cut("pattern_score", pattern_score, text, dia)
    w = refdetect.pattern_score(text, d, q, e)
    expect(math.isclose(p, w, rel_tol=1e-9), "pattern score %r expected %r" % (p, w))
    eps = 0.25
    p = cut("pattern_score", pattern_score, text, dia, eps=eps)
    w = refdetect.pattern_score(text, d, q, e, eps)
    expect(math.isclose(p, w, rel_tol=1e-9), "pattern score with eps=%r: %r expected %r" % (eps, p, w))
    return want


def ok(d, q, e):
    return not any(len(x) > 1 or x in ("\n", "\r", "\0") for x in (d, q, e))


def check(case):
    d, q, e = case["d"], case["q"], case["e"]
    sp = [x for x in (d, q, e) if x]
    if not ok(d, q, e) or len(set(sp)) != len(sp):
        return []
    toks = [t for t in case["toks"] if isinstance(t, list) and len(t) == 2 and isinstance(t[0], str) and isinstance(t[1], int) and t[1] >= 0]
    if sum(len(t[0]) * t[1] for t in toks) > (400000 if len(toks) < 40 else 1500000):
        return []
    text = gens.text_of(toks).replace("\0", "")
    a = verify(text, d, q, e)
    lab = []
    if "D" in a and "C" in a:
        lab.append("NT")
    if "Q" in a:
        lab.append("unclosed quote")
    if q and text.count(q) > 20:
        lab.append("more than 20 quotes")
    if len(text) > 4000:
        lab.append("long")
    if e and e in text:
        lab.append("escape")
    if len(set(a.split("R"))) > 1:
        lab.append("several patterns")
    return lab


def gen_small(rng):
    d, q, e = gens.triple(rng)
    return {"d": d, "q": q, "e": e, "toks": gens.tokens(rng, d, q, e, rng.choice([2, 6, 12, 30, 80]))}


def gen_table(rng):
    d, q, e = gens.triple(rng, empty=0.05)
    t = texts.table(rng, d, q, e)
    if rng.random() < 0.3:
        t = texts.mutate(rng, t)
    return {"d": d, "q": q, "e": e, "toks": [[t, 1]]}


def gen_long(rng):
    """Lengths and block counts around powers of two and buffer sizes."""
    d, q, e = gens.triple(rng, empty=0.05)
    unit = rng.choice([q + "a" + q + d, q + "a" + d + q + "\n", "x" + d, d, q, q + q, e + d, e + q, "a\n", "é", "中", "😀" + d, d + "\n", "\n", "a" + d + "\r\n",
                       q + "\n" + q + d, q + "C" + q + q + q + d, "D", "R", "Q", e, e + "a", e + "\n"])
    n = rng.choice([4, 7, 8, 9, 16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 2048, 4095, 4096, 4097, 8192, 16384, rng.choice([16384, 32768, 65536, 131072])]) + rng.choice([-1, 0, 0, 1])
    toks = gens.tokens(rng, d, q, e, rng.choice([0, 0, 1, 3, 8])) + [[unit, n]] + gens.tokens(rng, d, q, e, rng.choice([0, 0, 1, 3, 8]))
    if rng.random() < 0.3:
        toks += [[rng.choice([unit, "y", d]), n]] + gens.tokens(rng, d, q, e, 3)
    return {"d": d, "q": q, "e": e, "toks": toks}


# characters of every kind: one cell character has no influence but its role
def check_kinds(case):
    c = case["c"]
    if len(c) != 1 or c in ',"\\\n\r\0':
        return []
    pre = case["text"].replace("\0", "")
    if "x" in (pre.replace("z", "")):
        return []
    t = pre.replace("z", c)
    verify(t, ",", '"', "\\")
    verify(t, c, '"', "\\")
    verify(t, ",", c, "\\")
    verify(t, ",", '"', c)
    return ["NT", "kind %d" % len(c.encode("utf-8", "surrogatepass"))]


def gen_kinds(rng):
    c = chr(rng.choice([rng.randint(1, 127), rng.randint(128, 255), rng.randint(256, 0xFFFF), rng.randint(0x10000, 0x10FFFF)]))
    if rng.random() < 0.25:
        c = rng.choice(["\ufeff", "\ufeff", "\u2028", "\x85", "\x1c", "\u3000", "\xa0", "\x0b", "\x0c", "\u200b", "\ufffe"])
    return {"c": c, "text": "".join(rng.choice(['z', 'z', 'z', ',', '"', '\\', '\n', '\r', 'a', '""', "zz"]) for _ in range(rng.randint(1, 25)))}


ALPHA = ["a", ",", '"', "\\", "\n"]
DIAS = [(",", '"', "\\"), (",", '"', ""), ("", '"', "\\"), (",", "", "\\")]


class Exhaustive(Part):
    """Every text up to a length over {a , " \\ newline} in four dialects."""

    def count(self, tier, scale=1.0):
        maxlen = 7 if tier == "quick" else 9
        self.starts, n = [], 0
        for k in range(maxlen + 1):
            self.starts.append((n, k))
            n += len(ALPHA) ** k
        self.n = n
        return n

    def case(self, seed, i):
        if not hasattr(self, "starts"):
            self.count("thorough")
        for base, k in reversed(self.starts):
            if i >= base:
                i -= base
                out = []
                for _ in range(k):
                    i, r = divmod(i, len(ALPHA))
                    out.append(ALPHA[r])
                return {"text": "".join(out)}


def check_ex(case):
    t = case["text"].replace("\0", "")
    lab = []
    for d, q, e in DIAS:
        a = verify(t, d, q, e)
        if "D" in a and "C" in a:
            lab = ["NT"]
    return lab


def gen_stairs(rng):
    """Very many different row patterns."""
    n, k = rng.choice([50, 300, 1001, 1100]), rng.choice([1, 2])
    return {"d": ",", "q": '"', "e": "", "toks": [["," * (j * k % 1200) + "\n", 1] for j in range(rng.randint(0, 3), n)]}


PARTS = [
    Exhaustive("exhaustive", None, check_ex, 0, 0, rule="the abstraction has a delimiter in one of the dialects"),
    Part("soup", gen_small, check, 40000, 1500000, rule="the abstraction has both cells and delimiters"),
    Part("tables", gen_table, check, 15000, 500000, rule="the abstraction has both cells and delimiters"),
    Part("long", gen_long, check, 1500, 40000, rule="the abstraction has both cells and delimiters"),
    Part("stairs", gen_stairs, check, 24, 300, rule="the abstraction has both cells and delimiters", shrink_tries=40),
    Part("kinds", gen_kinds, check_kinds, 15000, 500000, rule="always: any one character as cell text, delimiter, quotechar and escapechar"),
]
