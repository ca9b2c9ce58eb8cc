"""C12: the consistency measure picks the dialect with the best P x T."""
import math

import clevercsv
from clevercsv import detect_type
from clevercsv.consistency import ConsistencyDetector
from clevercsv.detect_pattern import pattern_score
from clevercsv.dialect import SimpleDialect

from vlib import gens, refdetect, texts
from vlib.engine import Part, Violation, cut, eq, expect

ASSUMPTIONS = ["which cell values are of a known type is C16's subject: the reference asks an uncached TypeDetector"]
close = lambda a, b: math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-15)


def comps(x):
    return None if x is None else (x.delimiter, x.quotechar, x.escapechar)


class Known:
    def __init__(self):
        self.memo = {}

    def __call__(self, cell, quoted):
        k = (cell, bool(quoted))
        if k not in self.memo:
            self.memo[k] = bool(detect_type.TypeDetector().is_known_type(cell, is_quoted=quoted))
        return self.memo[k]


def reference(text, cands):
    known = Known()
    return {c: (refdetect.pattern_score(text, *c), refdetect.type_score(text, *c, known)) for c in cands}


def check(case):
    text = case["text"].replace("\0", "")
    cands = set(refdetect.candidates(text))
    if len(cands) * (len(text) + 20) > 60000:
        return []
    ref = reference(text, cands)
    best = max(p * t for p, t in ref.values())
    top = {c for c, (p, t) in ref.items() if close(p * t, best)}
    lim = case["limit"]
    caps = [100000, [0, 1, 2, 3, 7, None][case["cap"] % 6]]
    old = clevercsv.field_size_limit(abs(lim)) if lim else None
    try:
        for cap in caps:
            for skip in (True, False):
                c = ConsistencyDetector(skip=skip, cache_capacity=cap) if cap == 100000 else ConsistencyDetector(skip, False, cap)
                r = comps(cut("ConsistencyDetector.detect", c.detect, text))
                if len(top) == 1:
                    eq(r, next(iter(top)), "the dialect with the highest score %r (cache %r, skip %r)" % (best, cap, skip))
                else:
                    expect(r is None or r in top, "%r is not among the dialects with the highest score %r: %r" % (r, best, sorted(top)))
                # scores of all candidates
                objs = [SimpleDialect(*x) for x in sorted(cands)]
                scores = c.compute_consistency_scores(text, objs)
                eq({comps(d) for d in scores}, cands, "dialects with a score")
                for d, s in scores.items():
                    p, t = ref[comps(d)]
                    expect(close(s.P, p), "pattern score of %r: %r expected %r" % (comps(d), s.P, p))
                    if s.T is None:
                        expect(skip and (p < best or close(p, best)), "%r was skipped (P=%r, best Q=%r)" % (comps(d), p, best))
                    else:
                        expect(close(s.T, t), "type score of %r: %r expected %r (cache %r)" % (comps(d), s.T, t, cap))
                        expect(close(s.Q, p * t), "Q of %r: %r expected %r" % (comps(d), s.Q, p * t))
                if not skip:
                    g = {comps(d) for d in c.get_best_dialects(scores)}
                    expect(g and g <= top, "get_best_dialects: %r, the highest score have %r" % (sorted(g), sorted(top)))
        r2 = comps(clevercsv.Detector().detect(text, method="consistency"))
        eq(r2, r, "Detector with method 'consistency'")
        for x in [sorted(cands)[k % len(cands)] for k in case["pick"]]:
            d = SimpleDialect(*x)
            got = detect_type.type_score(text, d)
            expect(close(got, ref[x][1]), "detect_type.type_score of %r: %r expected %r" % (x, got, ref[x][1]))
            got = pattern_score(text, d)
            expect(close(got, ref[x][0]), "pattern_score of %r: %r expected %r" % (x, got, ref[x][0]))
    finally:
        if lim:
            clevercsv.field_size_limit(old)
    labels = ["%d candidates" % min(len(cands) // 10 * 10, 50), "tie" if len(top) > 1 else "unique"]
    if len(top) == 1 and len(cands) > 3:
        labels.append("NT")
    return labels


def gen(rng):
    r = rng.random()
    if r < 0.55:
        t = texts.table(rng, maxrows=5)
    elif r < 0.7:
        t = texts.mutate(rng, texts.table(rng, maxrows=4))
    else:
        t = texts.text(rng)
    return {"text": t[:500], "cap": rng.randint(0, 5), "limit": rng.choice([0, 0, 1, 3, 10, 50]), "pick": [rng.randint(0, 99) for _ in range(3)]}


# known as a quoted cell only
COMMAS = "%sab\u060cc\uff0cd%s"


# any dialect, not only the candidates
def check_scores(case):
    d, q, e = case["d"], case["q"], case["e"]
    if any(len(x) > 1 or x in ("\n", "\r", "\0") for x in (d, q, e)):
        return []
    sp = [x for x in (d, q, e) if x]
    if len(set(sp)) != len(sp):
        return []
    text = gens.text_of([t for t in case["toks"] if isinstance(t, list) and len(t) == 2 and isinstance(t[0], str) and isinstance(t[1], int)]).replace("\0", "")
    if len(text) > 20000:
        return []
    dia = SimpleDialect(d, q, e)
    ref = reference(text, [(d, q, e)])[(d, q, e)]
    s = ConsistencyDetector(skip=False, cache_capacity=case["cap"] % 4 or 100).compute_consistency_scores(text, [dia])[dia]
    for got, want, what in ((s.P, ref[0], "P"), (s.T, ref[1], "T"), (s.Q, ref[0] * ref[1], "Q"),
                            (detect_type.type_score(text, dia), ref[1], "type_score"), (pattern_score(text, dia), ref[0], "pattern_score")):
        expect(close(got, want), "%s of %r: %r expected %r" % (what, (d, q, e), got, want))
    lab = []
    if ref[1] > 1e-9 and ref[1] < 1:
        lab.append("some cells known")
    if ref[0] > 0.01:
        lab.append("NT")
    return lab


def gen_scores(rng):
    d, q, e = gens.triple(rng)
    toks = gens.tokens(rng, d, q, e, rng.choice([3, 10, 30]))
    for _ in range(rng.randint(0, 6)):
        toks.insert(rng.randint(0, len(toks)), [rng.choice([texts.TYPED[rng.choice(texts.NAMES)](rng), texts.TYPED[rng.choice(texts.NAMES)](rng), COMMAS % (q, q)] if rng.random() < 0.5 else [texts.TYPED[rng.choice(texts.NAMES)](rng)]) + rng.choice(["", d, d, "\n"]), rng.choice([1, 1, 2, 30])])
    return {"d": d, "q": q, "e": e, "toks": toks, "cap": rng.randint(0, 3)}


# long texts: much of the same, something else somewhere
def check_long(case):
    d, q = case["d"], case["q"]
    if not (isinstance(d, str) and isinstance(q, str) and len(d) <= 1 and len(q) <= 1) or d in ("\n", "\r", "\0") or q in ("\n", "\r", "\0") or d and d == q:
        return []
    parts = []
    for row, n, num in case["blocks"]:
        if not isinstance(row, str) or not isinstance(n, int):
            return []
        n = min(abs(n), 20000)
        parts += [row.replace("#", str(i)) + "\n" for i in range(n)] if num else [row + "\n"] * n
    text = "".join(parts).replace("\0", "")
    if len(text) > 600000:
        return []
    ref = reference(text, [(d, q, "")])[(d, q, "")]
    dia = SimpleDialect(d, q, "")
    s = ConsistencyDetector(skip=False).compute_consistency_scores(text, [dia])[dia]
    for got, want, what in ((s.P, ref[0], "P"), (s.T, ref[1], "T"), (s.Q, ref[0] * ref[1], "Q")):
        expect(close(got, want), "%s of %r on a text of %d characters: %r expected %r" % (what, (d, q), len(text), got, want))
    got = detect_type.type_score(text, dia)
    expect(close(got, ref[1]), "type_score: %r expected %r" % (got, ref[1]))
    return ["NT"] if len(text) > 10000 else []


def gen_long(rng):
    d = rng.choice([",", ";", "|", "\t", "", " "])
    q = rng.choice(["", '"', "'", "~"])
    far = lambda: rng.choice(["a", "1", "ab ", "x1", "{", "12,"]) * rng.choice([100, 256, 500, 512, 700, 1024, 1500, 3000]) + rng.choice(["", "a", "1", "<", " ", "{}", "%", ">b"])
    if rng.random() < 0.15:
        far = lambda k=rng.choice([4100, 5000, 9000, 17000, 33000, 66000, 131080]): rng.choice(["ab ", "ab_"] if d == " " else ["ab "]) * (k // 3) + rng.choice(["a", "a", "a", "<", "{}", ">b"])
    cell = lambda: q * (rng.random() < 0.4) + rng.choice([far() if rng.random() < 0.3 else "#", "#", "x#", "a#!", "12", "", "<#>", "a b", "2019-01-#", "#%", texts.TYPED[rng.choice(texts.NAMES)](rng)])
    blocks = []
    for _ in range(rng.choice([1, 2, 3])):
        cells = [cell() for _ in range(rng.choice([1, 2, 3, 5]))]
        cells = [c + q if q and c[:1] == q else c for c in cells]
        blocks.append([d.join(cells), rng.choice([1, 2, 100, 1000, 1024, 3000, rng.choice([3000, 8000, 12000])]), rng.random() < 0.7])
    room = 200000
    for b in blocks:
        b[1] = max(1, min(b[1], room // (len(b[0]) + 1)))
        room = max(1000, room - b[1] * len(b[0]))
    return {"d": d, "q": q, "blocks": blocks}


# One very long cell of a known or of no type
FAR = [{"d": d, "q": q, "blocks": [["x%s1" % d, 3, False], [q + "ab " * (k // 3) + end + q + d + "<>", 2, False]]}
       for k in (10000, 17000, 33000, 70000, 140000, 270000) for d, q, end in ((",", "", "a"), (";", '"', "a"), ("|", "'", "<"))]

# More than a million characters and cells
HUGE = [
    {"d": ",", "q": "", "blocks": [["a,#", 400, True], ["1", 1050000, False], ["<>,%%", 50000, False]], "tail": ""},
    {"d": ";", "q": '"', "blocks": [["x", 530000, False]], "tail": '";";a'},
    {"d": ",", "q": "", "blocks": [["1,2;3", 180000, False]], "tail": "1,2\n1;2;3,4\n", "best": [",", "", ""]},
    {"d": ";", "q": "", "blocks": [["1,2;3", 180000, False]], "tail": "", "best": [";", "", ""]},
]


def check_huge(case):
    d, q = case["d"], case["q"]
    text = "".join("".join(row.replace("#", str(i)) + "\n" for i in range(n)) if num else (row + "\n") * n for row, n, num in case["blocks"]) + case["tail"]
    if not 1 << 20 < len(text) < 3000000:
        return []
    ref = reference(text, [(d, q, "")])[(d, q, "")]
    dia = SimpleDialect(d, q, "")
    s = ConsistencyDetector(skip=False).compute_consistency_scores(text, [dia])[dia]
    for got, want, what in ((s.P, ref[0], "P"), (s.T, ref[1], "T"), (s.Q, ref[0] * ref[1], "Q")):
        expect(close(got, want), "%s of %r on a text of %d characters: %r expected %r" % (what, (d, q), len(text), got, want))
    got = detect_type.type_score(text, dia)
    expect(close(got, ref[1]), "type_score: %r expected %r" % (got, ref[1]))
    if case.get("best"):
        # the dialect that the end decides
        for skip in (True, False):
            got = clevercsv.Detector().detect(text, method="consistency", skip=skip)
            eq(got and [got.delimiter, got.quotechar, got.escapechar], case["best"], "detection of a text of %d characters" % len(text))
        got = clevercsv.Detector().detect(text, delimiters=[",", ";"])
        eq(got and [got.delimiter, got.quotechar, got.escapechar], case["best"], "default detection of a text of %d characters" % len(text))
    return ["NT"]


PARTS = [
    Part("huge", lambda rng: rng.choice(HUGE), check_huge, 1, 4, fixed=HUGE, rule="a text of over 2**20 characters", shrink_tries=0),
    Part("long", gen_long, check_long, 120, 4000, fixed=FAR, rule="a text of over 10 000 characters"),
    Part("argmax", gen, check, 9000, 300000, rule="more than three candidates and a unique best dialect"),
    Part("scores", gen_scores, check_scores, 12000, 400000, rule="a pattern score above 0.01"),
]
