"""C02: clevercsv.reader against csv.reader on well-formed text."""
import csv
import io

import clevercsv
from clevercsv.dialect import SimpleDialect

from vlib import dialects, gens
from vlib.engine import Part, Violation, cut, eq, expect

ASSUMPTIONS = ["csv.reader of the running Python is the oracle; doublequote on, skipinitialspace off, "
               "escape characters only before the delimiter, quotechar or escapechar, no escaped line breaks"]
NLS = ["\n", "\r\n", "\r"]


class Text(str):
    """A subclass of str, as numpy.str_ is one."""

    def __str__(self):
        return "not this"


class Source:
    """Counts the lines that have been taken; seems to end after some of them, as a file does that still grows."""

    def __init__(self, lines, pauses=()):
        self.it = iter(lines)
        self.taken = 0
        self.pauses = set(pauses)

    def __iter__(self):
        return self

    def __next__(self):
        if self.taken in self.pauses:
            self.pauses.remove(self.taken)
            raise StopIteration
        x = next(self.it)
        self.taken += 1
        return x


def render(case):
    d, q, e = case["d"], case["q"], case["e"]
    special = set(x for x in (d, q, e) if x) | set("\r\n\0")
    out = []
    n = len(case["rows"])
    for i, row in enumerate(case["rows"]):
        cells = []
        for kind, parts in row:
            quoted = kind and q and not case["qnone"]
            s = []
            for p in parts:
                if isinstance(p, int):  # an escape/double/newline/delimiter token
                    t = p % 6
                    if t == 0:
                        s.append(e + d if e else "")
                    elif t == 1:
                        s.append(e + e if e else "")
                    elif t == 2:
                        s.append(e + q if e and q else "")
                    elif quoted:
                        s.append({3: q + q, 4: d, 5: NLS[(p // 6) % 3]}[t])
                else:
                    s.append("".join(c for c in p if c not in special))
            s = "".join(s)
            cells.append(q + s + q if quoted else s)
        line = d.join(cells)
        out.append(line)
        last = i == n - 1
        if not last or case["final"]:
            out.append(NLS[case["nl"] % 3 if case["nl"] < 3 else i % 3])
    return "".join(out)


def run_ops(make, lines, ops, pauses=()):
    """Run the iteration program; returns the observations."""
    src = Source(lines, pauses)
    r = make(src)
    obs = []

    def see(what):
        obs.append((what, r.line_num, src.taken))
    for op in ops:
        k, n = op % 4, op // 4
        if k == 0:
            try:
                see(("next", next(r)))
            except StopIteration:
                see("stop")
        elif k == 1:
            got = []
            for row in r:
                got.append(row)
                see("row")
                if len(got) > n:
                    break
            see(("for", got))
        elif k == 2:
            see(("iter", iter(r) is r))
        else:
            got = []
            for row, _ in zip(r, range(n)):
                got.append(row)
            see(("zip", got))
    see(("rest", list(r)))
    see(("again", list(r)))
    for _ in pauses:
        see(("grown", list(r)))
    return obs, r


def pauses_of(case, lines, dia, kw):
    """Where the source seems to end: only between records."""
    if not case.get("pauses"):
        return []
    ends, cr = [0], csv.reader(iter(lines), dia, **kw)
    for _ in cr:
        ends.append(cr.line_num)
    return sorted({ends[k % len(ends)] for k in case["pauses"] if isinstance(k, int)})


def check(case):
    d, q, e, strict = case["d"], case["q"], case["e"], bool(case["strict"])
    if not dialects.valid(d, q, e):
        return []
    text = render(case)
    if len(text) > 100000:
        return []
    lines = list(io.StringIO(text, newline=""))
    if case["noends"]:
        lines = [x.rstrip("\r\n") for x in lines]
    if case.get("sub"):
        lines = [Text(x) for x in lines]
    qnone = bool(case["qnone"] and q)
    # csv takes any true value for strict
    p = dialects.params(d, q, e, 1 if strict and case.get("s1") else strict, quoting=csv.QUOTE_NONE if qnone else case["quoting"] % 2 or None,
                        lineterminator=["\r\n", "\n"][case["quoting"] % 2])
    with dialects.Temp() as tmp:
        dia, kw = dialects.form(case["form"], p, tmp, bool(case["sattr"]))
        simple = SimpleDialect(d, q, e, strict=strict)
        if case["form"] % 9 == 7 and not qnone:
            cdia, ckw = simple, {}
        elif case["form"] % 9 >= 7:  # override some parameters of a SimpleDialect
            cdia = SimpleDialect("#", "%", "$", strict=not strict)
            ckw = {"delimiter": d, "quotechar": q, "escapechar": e, "strict": strict}
            if qnone:
                ckw["quoting"] = csv.QUOTE_NONE
        else:
            cdia, ckw = dia, kw
        before = dialects.snapshot(cdia) if cdia is not None else None
        pauses = pauses_of(case, lines, dia or "excel", kw)
        want, cr = run_ops((lambda s: csv.reader(s, dia, **kw)) if dia is not None else (lambda s: csv.reader(s, **kw)),
                           lines, case["ops"], pauses)
        got, vr = cut("clevercsv.reader", run_ops,
                      (lambda s: clevercsv.reader(s, cdia, **ckw)) if cdia is not None
                      else (lambda s: clevercsv.reader(s, **ckw)), lines, case["ops"], pauses)
        rows = lambda obs: [x[0] for x in obs]
        eq(rows(got), rows(want), "rows of the iteration program")
        eq([x[1] for x in got], [x[1] for x in want], "line_num after each step")
        eq([x[2] for x in got], [x[2] for x in want], "source lines consumed after each step")
        # the file object itself as the source
        if not case["noends"]:
            a = list(csv.reader(io.StringIO(text, newline=""), dia or "excel", **kw))
            b = cut("clevercsv.reader on a file", lambda: list(
                clevercsv.reader(io.StringIO(text, newline=""), cdia or "excel", **ckw)))
            eq(b, a, "rows from a file object")
        # the dialect that the reader shows can be changed without effect
        if case.get("later"):
            dialects.mutate(cut("reader.dialect", lambda: vr.dialect))
        # the dialect in use is the one at the time the reader was made
        own = dialects.mutable(cdia) if case.get("later") else None
        if own is not None:
            def changed():
                r2 = clevercsv.reader(iter(lines), own, **ckw)
                k = next(r2, None) if case["later"] == 2 else None
                dialects.mutate(own)
                return ([] if k is None else [k]) + list(r2)
            eq(cut("clevercsv.reader", changed), list(csv.reader(iter(lines), dia or "excel", **kw)), "rows after a change of the caller's dialect object")
        if before is not None:
            eq(dialects.snapshot(cdia), before, "the dialect object passed in")
        vd, cd = vr.dialect, cr.dialect
        for k in ("delimiter", "escapechar"):
            eq(getattr(vd, k), getattr(cd, k), "reader.dialect." + k)
        eq(bool(vd.strict), bool(cd.strict), "reader.dialect.strict")
        eq(vd.quoting == csv.QUOTE_NONE, cd.quoting == csv.QUOTE_NONE, "reader.dialect.quoting is QUOTE_NONE")
        if cd.quoting != csv.QUOTE_NONE:
            eq(vd.quotechar, cd.quotechar, "reader.dialect.quotechar")
    labels = ["form %d" % (case["form"] % 9)]
    if qnone:
        labels.append("QUOTE_NONE with a quotechar")
    table = a if not case["noends"] else []
    if len(table) > 1 and any(len(r) > 1 for r in table):
        labels.append("NT")
    if own is not None:
        labels.append("the dialect object changes later")
    if pauses:
        labels.append("the source goes on after it ended")
    if strict:
        labels.append("strict")
    if any("\n" in c or "\r" in c for r in table for c in r):
        labels.append("embedded newline")
    if q and q in text:
        labels.append("quotes")
    if e and e in text:
        labels.append("escapes")
    return labels


def gen_rows(rng, q, maxrows=6):
    rows = []
    for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, maxrows)])):
        row = []
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            parts = []
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                parts.append(rng.randint(0, 17) if rng.random() < 0.4 else gens.cell_plain(rng))
            row.append([1 if rng.random() < 0.45 else 0, parts])
        rows.append(row)
    if rng.random() < 0.04:
        rows.append([[1, ["z" * rng.choice([4094, 4095, 4096, 4097, 9000, 4096, 9000, rng.choice([16384, 40000, 66000, 131000])])]], [0, ["b"]]])
    return rows


def gen(rng):
    d, q, e = gens.triple(rng, empty_d=0)
    return {"d": d, "q": q, "e": e, "strict": rng.random() < 0.4, "s1": rng.random() < 0.15, "rows": gen_rows(rng, q),
            "nl": rng.randint(0, 3), "final": rng.random() < 0.6, "noends": rng.random() < 0.15,
            "form": rng.randint(0, 62), "qnone": rng.random() < 0.15, "sattr": rng.random() < 0.5, "sub": rng.random() < 0.1, "later": rng.choice([0, 0, 0, 1, 2]), "quoting": rng.randint(0, 1),
            "pauses": [rng.randint(0, 9) for _ in range(rng.randint(1, 3))] if rng.random() < 0.15 else [],
            "ops": [rng.randint(0, 15) for _ in range(rng.randint(0, 5))]}


def check_many(case):
    """Very many lines: the rows, and line_num after each of them."""
    units, n = case["units"], case["n"]
    if not (isinstance(units, list) and units and all(isinstance(u, str) and u.endswith("\n") and len(u) < 60 for u in units) and isinstance(n, int) and 0 <= n <= 300000):
        return []
    lines = [x for u in units for x in u.splitlines(keepends=True)]
    lines = lines * (n // len(lines) + 1)
    kw = {"strict": True} if case["strict"] else {}
    if case["esc"]:
        kw["escapechar"] = "\\"

    def steps(r):
        return [(row, r.line_num) for row in r]
    try:
        want = steps(csv.reader(iter(lines), **kw))
    except csv.Error:
        return []
    got = cut("clevercsv.reader", steps, clevercsv.reader(iter(lines), **kw))
    eq(got[-1], want[-1], "the last row and line_num of %d lines" % len(lines))
    eq(got, want, "rows and line_num of %d lines" % len(lines))
    return ["NT", "more than 65536 lines" if len(lines) > 65536 else "many lines"]


def gen_many(rng):
    units = [rng.choice(["a,b\n", "1\n", '"x\n\ny",2\n', '"q ""r"""\n', ",\n", "a b,c\r\n", "\n", '"\r\n"\n']) for _ in range(rng.randint(1, 4))]
    return {"units": units, "n": rng.choice([300, 32768, 65536, 65536, 131072, 200000]) + rng.randint(-3, 3), "strict": rng.random() < 0.3, "esc": rng.random() < 0.3}


def check_growing(case):
    """A list as the source, which is changed during the iteration."""
    lines = [x for x in case["lines"] if isinstance(x, str) and x.endswith("\n")]
    more = [x for x in case["more"] if isinstance(x, str) and x.endswith("\n")]

    def steps(make):
        src = list(lines)
        r = make(src)
        out = []
        for row in r:
            out.append((row, r.line_num))
            if len(out) == case["at"]:
                if case["how"] % 3 == 0:
                    src.extend(more)
                elif case["how"] % 3 == 1 and more:
                    src[-1] = more[0]
                else:
                    del src[case["at"] + 1:]
        return out, src
    try:
        want = steps(lambda s: csv.reader(s, strict=True))
    except csv.Error:
        return []
    eq(cut("clevercsv.reader", steps, lambda s: clevercsv.reader(s, strict=True)), want, "rows and line_num where the list of lines changes after %r rows" % case["at"])
    return ["NT"] if len(want[0]) != len(lines) or case["how"] % 3 == 1 else []


def gen_growing(rng):
    ls = ["a,b\n", "1\n", '"x y",2\n', "c,d,e\r\n", ",\n", '"q ""r"""\n']
    n = rng.randint(1, 6)
    return {"lines": [rng.choice(ls) for _ in range(n)], "more": [rng.choice(ls) for _ in range(rng.randint(1, 3))], "at": rng.randint(1, n), "how": rng.randint(0, 2)}


PARTS = [Part("growing", gen_growing, check_growing, 1500, 30000, rule="the change has an effect on the rows"),
         Part("many", gen_many, check_many, 40, 800, rule="every case", shrink_tries=40),
         Part("wellformed", gen, check, 120000, 2500000,
              rule="the table has at least two records and a record with at least two cells")]
