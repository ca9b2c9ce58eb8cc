"""C18: the tie breaker against the documented rules."""
import io
import itertools

from clevercsv.break_ties import tie_breaker
from clevercsv.dialect import SimpleDialect

from vlib import gens, refdetect, refparse, texts
from vlib.engine import Part, cut, eq, expect

ASSUMPTIONS = ["delimiter, quotechar and escapechar of each dialect are distinct",
               "for ties of four dialects only membership, purity, order independence and the common delimiter are stated"]


def parse(text, d):
    rows, err = refparse.parse(io.StringIO(text, newline=""), *d)
    return refparse.plain(rows)


def shape(rows):
    return [len(r) for r in rows]


def two(text, a, b):
    """Set of allowed answers for a tie of two dialects."""
    (ad, aq, ae), (bd, bq, be) = a, b
    if (ad, ae) == (bd, be) and "" in (aq, bq):
        no, yes = (a, b) if aq == "" else (b, a)
        return {no if parse(text, no) == parse(text, yes) else yes}
    if (aq, ae) == (bq, be):
        if {ad, bd} == {",", " "}:
            return {a if ad == "," else b}
        if "-" in (ad, bd):
            return {b if ad == "-" else a}
        return {None}
    if (ad, aq) == (bd, bq):
        if ae and be:
            return {None}
        no, yes = (a, b) if ae == "" else (b, a)
        x, y = parse(text, no), parse(text, yes)
        if shape(x) != shape(y):
            return {None}
        diff = [u for r, s in zip(x, y) for u, v in zip(r, s) if u != v]
        if not diff:
            return {None, no}
        even = []
        for u in diff:
            n = sum(1 for i in range(len(u) - 1) if u[i] == yes[2] and u[i + 1:i + 2] == yes[1])
            even.append(n > 0 and n % 2 == 0)
        if all(even):
            return {yes}
        if not any(even):
            return {no}
        return {no, yes, None}
    if ad == bd and ("", "") in ((aq, ae), (bq, be)):
        no, yes = (a, b) if (aq, ae) == ("", "") else (b, a)
        x, y = parse(text, no), parse(text, yes)
        if shape(x) != shape(y):
            return {None}
        if any(u != v and yes[2] + yes[1] not in u for r, s in zip(x, y) for u, v in zip(r, s)):
            return {None}
        return {yes}
    return {None}


def three(text, ds):
    if len({d for d, _, _ in ds}) > 1:
        return {None}
    if len({e for _, _, e in ds}) == 1:
        if all(q for _, q, _ in ds):
            return {None}
        no = [x for x in ds if not x[1]][0]
        ps = [parse(text, x) for x in ds]
        return {no} if ps[0] == ps[1] == ps[2] else {None}
    quoted = [x for x in ds if x[1]]
    if len(quoted) != 2:
        return {None}
    return two(text, *quoted)


def comps(x):
    return None if x is None else (x.delimiter, x.quotechar, x.escapechar)


def check(case):
    text = case["text"].replace("\0", "")
    ds = []
    for x in case["dialects"]:
        if not (isinstance(x, list) and len(x) == 3) or any(not isinstance(c, str) or len(c) > 1 or c in ("\n", "\r", "\0") for c in x):
            return []
        sp = [c for c in x if c]
        if len(set(sp)) != len(sp):
            return []
        ds.append(tuple(x))
    if len(set(ds)) != len(ds) or not ds or len(text) > 5000:
        return []
    if isinstance(case.get("rep"), list) and len(case["rep"]) == 2 and all(isinstance(x, int) for x in case["rep"]):
        # one of the lines many times
        n, i = abs(case["rep"][0]), case["rep"][1]
        lines = text.splitlines(keepends=True)
        if lines and len(lines[i % len(lines)]) < 200:
            i %= len(lines)
            text = "".join(lines[:i] + [lines[i]] * min(n, 40000 // len(lines[i])) + lines[i:])
    answers = set()
    perms = list(itertools.permutations(ds))
    if len(text) > 5000:
        perms = [perms[0], perms[-1]]
    elif len(perms) > 12:
        k = case["perm"] % len(perms)
        perms = [perms[(k + 29 * i) % len(perms)] for i in range(8)]
    for perm in perms:
        objs = [SimpleDialect(*x) for x in perm]
        passed = list(objs)
        r = cut("tie_breaker", tie_breaker, text, passed)
        expect(len(passed) == len(objs) and all(x is y for x, y in zip(passed, objs)), "the list passed was changed")
        eq([comps(x) for x in objs], list(perm), "the dialects passed were changed")
        expect(all(x.strict is False and sorted(vars(x)) == sorted(vars(SimpleDialect("", "", ""))) for x in objs), "a dialect was changed")
        expect(r is None or any(r == x for x in objs), "%r is not one of the tied dialects %r" % (comps(r), list(perm)))
        answers.add(comps(r))
    expect(len(answers) == 1, "the answer depends on the order of the dialects %r: %r" % (ds, sorted(answers, key=str)))
    got = answers.pop()
    lab = ["%d dialects" % len(ds)]
    if len(ds) == 2:
        want = two(text, *ds)
        expect(got in want, "tie of %r resolved to %r, the rules say %r" % (ds, got, want))
    elif len(ds) == 3:
        want = three(text, ds)
        expect(got in want, "tie of %r resolved to %r, the rules say %r" % (ds, got, want))
    elif len(ds) > 4:
        eq(got, None, "tie of %d dialects" % len(ds))
    if len(ds) == 4 and len({d for d, _, _ in ds}) > 1:
        eq(got, None, "tie of dialects with different delimiters %r" % ds)
    if len(ds) == 4 and len({d for d, _, _ in ds}) == 1:
        ps = [parse(text, x) for x in ds]
        if all(a != b for a, b in itertools.combinations(ps, 2)):
            eq(got, None, "tie of four dialects that all parse differently %r" % ds)
        if got and got[1]:
            for x, p in zip(ds, ps):
                expect(not (x == (got[0], "", got[2]) and p == ps[ds.index(got)]), "%r chosen over %r, though both parse the same" % (got, x))
    # an escape character is chosen over none only for the same shape
    if got and got[2] and len(ds) in (2, 3):
        for x in ds:
            if x[:2] == got[:2] and x[2] == "":
                expect(shape(parse(text, x)) == shape(parse(text, got)), "%r chosen over %r, but the shapes differ" % (got, x))
    if len(ds) > 1:
        lab.append("NT" if got else "unresolved")
    if got and got[2]:
        lab.append("escape chosen")
    if got and len(ds) > 2:
        lab.append("larger tie resolved")
    return lab


def gen(rng):
    d = rng.choice([",", ",", ";", "\t", " ", "-", ""])
    q = rng.choice(['"', "'", '"', "'", "~", "`"])
    q2 = "'" if q == '"' else '"'
    e = rng.choice(["\\", "\\", "/", "@"])
    r = rng.random()
    if r < 0.2:
        text = texts.tie(rng)
    elif r < 0.4:
        text = texts.table(rng, d or ",", rng.choice(["", q]), rng.choice(["", e]))
    else:
        nl = rng.choice(["\n", "\r\n"])
        lines = []
        for _ in range(rng.randint(1, 4)):
            cells = []
            for _ in range(rng.randint(1, 3)):
                k = rng.random()
                if k < 0.3:
                    cells.append(rng.choice(["ab", "1", "", "x y", "a-b"]))
                elif k < 0.55:
                    cells.append("".join(rng.choice(["a", e + q, e + q, e + e, e + (d or "b"), " "]) for _ in range(rng.randint(1, 4))))
                elif k < 0.75:
                    cells.append(q + "".join(rng.choice(["a", "a", e + q, q + q, e + q + "b" + e + q, d, " "]) for _ in range(rng.randint(0, 3))) + q)
                elif k < 0.85:
                    cells.append(q2 + "a" + q2)
                else:
                    cells.append(rng.choice(["a" + q + "b", "it" + q2 + "s", q, e, "-", "a,b"]))
            lines.append((d or ",").join(cells))
        text = nl.join(lines) + rng.choice(["", nl])
    qs = list(dict.fromkeys(["", q, q2, "~", "`", "'"]))
    es = ["", e, "§"]
    k = rng.choice([1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    mode = rng.randint(0, 6)
    if mode == 0:
        pool = [[d, x, ""] for x in qs]
    elif mode == 1:
        pool = [[d, x, e] for x in qs]
    elif mode == 2:
        q0, e0 = rng.choice([(q, ""), (q, ""), ("", ""), ("", e), (q, e)])
        pool = [[x, q0, e0] for x in [",", " ", "-", ";", "", "\t"]]
    elif mode == 3:
        pool = [[d, q, x] for x in es] + ([[d, "", x] for x in es] if k > 2 else [])
    elif mode == 4:
        pool = [[d, x, y] for x in qs[:3] for y in es[:2]]
    elif mode == 5:
        pool = [[d, "", ""], [d, q, e], [d, q, ""], [d, "", e]]
    else:
        c = [list(x) for x in refdetect.candidates(text[:300])]
        c.sort()
        pool = c or [[d, "", ""]]
    rng.shuffle(pool)
    return {"text": text[:1500], "dialects": pool[:k], "perm": rng.randint(0, 999)}


def gen_long(rng):
    while True:
        c = gen(rng)
        if len(c["dialects"]) > 1 and "\n" in c["text"][:-1]:
            break
    c["rep"] = [rng.choice([100, 500, 1100, 2000, 5000]), rng.randint(0, 5)]
    return c


PARTS = [Part("long", gen_long, check, 700, 20000, rule="one of the lines many times; at least two dialects and the tie is resolved"),
         Part("ties", gen, check, 100000, 3000000, rule="at least two dialects and the tie is resolved")]
