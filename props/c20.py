"""C20: has_header equals a reference vote over the reference's rows."""
import io

import clevercsv
from clevercsv.exceptions import NoDetectionResult

from vlib import gens, refparse, texts
from vlib.engine import Part, cut, eq, expect

ASSUMPTIONS = ["delimiter, quotechar and escapechar of the detected dialect are distinct", "a column without any comparable row counts for a header, as in CPython"]


def kind(cell):
    for t in (int, float, complex):
        try:
            t(cell)
            return t.__name__
        except (ValueError, OverflowError):
            pass
    return len(cell)


def vote(rows, maxrows):
    if not rows:
        return False, "empty"
    header = rows[0]
    body = [r for r in rows[1:maxrows + 2] if len(r) == len(header)]
    total = 0
    seen = set()
    for j, h in enumerate(header):
        kinds = {kind(r[j]) for r in body}
        if len(kinds) > 1:
            seen.add("inconsistent")
            continue
        if not kinds:
            total += 1
            continue
        k = kinds.pop()
        if isinstance(k, int):
            seen.add("length")
            total += 1 if len(h) != k else -1
        else:
            seen.add(k)
            try:
                {"int": int, "float": float, "complex": complex}[k](h)
                total -= 1
            except (ValueError, TypeError):
                total += 1
    return total > 0, seen


DET = []


def setup(cfg):
    DET.append(clevercsv.Detector())


def check(case):
    text = case["text"].replace("\0", "")
    if "unit" in case:
        u, n, tail = case["unit"]
        if not (isinstance(n, int) and 0 <= n <= 100000 and isinstance(u, str) and isinstance(tail, str)):
            return []
        text += u * min(n, 320000 // max(1, len(u))) + tail.replace("\0", "")
    m = case["max"]
    if not isinstance(m, int) or m < 0 or len(text) > 320000:
        return []
    if not DET:
        setup(None)
    d = clevercsv.Detector().detect(text)
    pos, kw = ((m,), {}) if len(text) % 2 else ((), {} if m == 20 else {"max_rows_to_check": m})
    lab = []
    for name, det in (("Detector", clevercsv.Detector()), ("Sniffer", clevercsv.Sniffer()), ("used Detector", DET[0])):
        if d is None:
            try:
                r = det.has_header(text, *pos, **kw)
            except NoDetectionResult:
                lab = ["no dialect"]
                continue
            expect(not text.strip("\r\n") and r is False, "has_header returned %r where no dialect is detected" % (r,))
            continue
        sp = [x for x in (d.delimiter, d.quotechar, d.escapechar) if x]
        if len(set(sp)) != len(sp):
            return ["overlapping components"]
        rows, err = refparse.parse(io.StringIO(text, newline=""), d.delimiter, d.quotechar, d.escapechar)
        want, seen = vote(refparse.plain(rows), m)
        got = cut(name + ".has_header", det.has_header, text, *pos, **kw)
        expect(type(got) is bool, "has_header returned %r" % (got,))
        eq(got, want, "%s.has_header with max_rows_to_check=%d, dialect %r" % (name, m, (d.delimiter, d.quotechar, d.escapechar)))
        lab = ["header" if want else "no header"]
        if len(rows) > 1 and rows[0]:
            lab.append("NT")
        if len(rows) > m + 2:
            lab.append("more rows than checked")
        lab += [str(x) for x in seen] if isinstance(seen, set) else []
        if any(len(r) != len(rows[0]) for r in rows):
            lab.append("ragged")
    return lab


CELLS = {
    "int": lambda r: str(r.randint(-99, 9999)), "float": lambda r: "%.2f" % r.uniform(-9, 99), "complex": lambda r: "%d+%dj" % (r.randint(0, 9), r.randint(1, 9)),
    "exp": lambda r: "%de%d" % (r.randint(1, 9), r.randint(0, 400)), "fix": lambda r: "".join(r.choice("abcd") for _ in range(4)),
    "fix2": lambda r: "".join(r.choice("abcd") for _ in range(2)), "word": lambda r: texts.TYPED["word"](r), "under": lambda r: "1_0", "inf": lambda r: r.choice(["nan", "inf", "-inf"]),
    "empty": lambda r: "", "num": lambda r: r.choice(["1", "1.5", "2j"]), "date": lambda r: texts.TYPED["date"](r), "long": lambda r: "".join(r.choice("abcd") for _ in range(300)), "arabic": lambda r: r.choice(["٣", "٤٥"]),
}


def gen(rng):
    r = rng.random()
    if r < 0.12:
        t = texts.text(rng)
    elif r < 0.2:
        t = rng.choice(["", "\n", "\r\n", "\r", "\n\n", "a", "a,b", "a,b\n", "1", "1,2\n", "\na,b\n1,2", "\n\na,b\n1,2\n", '"a"', "a,b\n\n", "x\n1\n2\n", "''"])
    else:
        d = rng.choice([",", ";", "\t", "|"])
        nl = rng.choice(["\n", "\r\n", "\r"])
        cols = rng.randint(1, 5)
        kinds = [rng.choice(sorted(CELLS)) for _ in range(cols)]
        q = rng.choice(["", "", '"'])
        rows = []
        if rng.random() < 0.7:
            rows.append([rng.choice([CELLS[rng.choice(["word", "fix", "fix2"])](rng), CELLS[kinds[j]](rng)]) for j in range(cols)])
        for _ in range(rng.choice([0, 1, 2, 3, 3, 5, 19, 20, 21, 22, 23, 30])):
            rows.append([CELLS[kinds[j] if rng.random() < 0.98 else rng.choice(sorted(CELLS))](rng) for j in range(cols)])
        if rng.random() < 0.15 and len(rows) > 1:
            i = rng.randrange(len(rows))
            rows[i] = rows[i][:-1] or rows[i] + ["x"]
        if rng.random() < 0.1:
            rows.insert(rng.randint(0, len(rows)), [""] if rng.random() < 0.5 else [])
        if rng.random() < 0.1 and q:
            rows[-1:] = [["a" + nl + "b"] * cols]
        t = nl.join(d.join(q + c + q for c in row) for row in rows) + rng.choice(["", nl])
    return {"text": t, "max": rng.choice([20, 20, 20, 0, 1, 2, 3, 5, 19, 21])}


def gen_long(rng):
    """A long text whose end decides the dialect."""
    size = rng.choice([8192, 16384, 32768, 65536, 65536, 100000]) + rng.randint(-20, 2000)
    a, b = rng.sample([",", ";", "|", "\t"], 2)
    if rng.random() < 0.5:
        head = "xy%s345%s5\n" % (a, b)
        unit = "12%s34%s5\n" % (a, b)
        tail = rng.choice(["", "1%s2\n1%s2%s3%s4\n" % (a, b, b, a), "1%s2\n" % a, "1%s2\n" % b, "1%s2\n1%s2%s3%s4\n" % (b, a, a, b)])
    else:
        head = rng.choice(["ab%scd%s5\n", "1%s2%sx\n"]) % (a, b)
        unit = gen(rng)["text"].replace("\0", "")[:300] or "1,2"
        unit += "\n"
        tail = rng.choice(["", gen(rng)["text"], "1%s2\n" % b * 3])
    return {"text": head, "unit": [unit, size // len(unit), tail], "max": rng.choice([20, 20, 0, 3, 5000, 100000])}


PARTS = [Part("long", gen_long, check, 60, 2000, setup=setup, rule="two rows at least and a header with cells", shrink_tries=40,
              fixed=[{"text": "ab,2;c\n", "unit": ["1,2;3\n", n, "1,2\n" * k + "1;2;3,4\n"], "max": 20} for n, k in ((23000, 1), (45000, 3))]),
         Part("vote", gen, check, 25000, 800000, setup=setup, rule="two rows at least and a header with cells")]
