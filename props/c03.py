"""C03: reading back what clevercsv.writer wrote."""
import io

import clevercsv
from clevercsv.dialect import SimpleDialect

from vlib import dialects, gens
from vlib.engine import Part, cut, eq

ASSUMPTIONS = ["doublequote dialects without skipinitialspace, or escape-only dialects; cells are strings without NUL"]
NLS = ["\n", "\r\n", "\r"]


def cells(case):
    d, q, e = case["d"], case["q"], case["e"]
    tok = [d, q, e, "\n", "\r\n", "\r", q + q, e + q, e + e, e + d, q + d, d + q, " ", e + "n"]
    return [["".join(tok[p % len(tok)] if isinstance(p, int) else p for p in c) for c in row] for row in case["rows"]]


def check(case):
    d, q, e = case["d"], case["q"], case["e"]
    if not dialects.valid(d, q, e):
        return []
    table = cells(case)
    if isinstance(case.get("rep"), int) and table:
        table = table[:-1] * (1 + abs(case["rep"]) % 3000) + table[-1:]
    if any("\0" in c for r in table for c in r):
        return []
    labels = []
    nl = NLS[case["nl"] % 3]
    quoting = dialects.QUOTING[case["quoting"] % 4]
    double = bool(case["double"]) or not e
    strict = bool(case["strict"])
    with dialects.Temp() as tmp:
        form = case["form"] % 9
        if form >= 7:
            dia = SimpleDialect(d, q, e, strict=strict)
            kw = {"lineterminator": nl} if form == 7 else {}
            rkw = {}
            if form == 8:
                nl = "\n"
            labels.append("SimpleDialect")
        else:
            p = dialects.params(d, q, e, strict, quoting=quoting, doublequote=double, lineterminator=nl)
            dia, kw = dialects.form(form, p, tmp)
            rkw = kw
        out = io.StringIO(newline="")
        args = (dia,) if dia is not None else ()
        written = []
        w = cut("writer", clevercsv.writer, out, *args, **kw)
        for row in table:
            pos = out.tell()
            try:
                w.writerow(row)
                written.append(row)
            except clevercsv.Error:
                # a refused row has written nothing
                eq(out.tell(), pos, "output position after a refused row")
                labels.append("refused row")
        text = out.getvalue()
        got = cut("reader", lambda: list(clevercsv.reader(io.StringIO(text, newline=""), *args, **rkw)))
        eq(got, written, "rows read back from %r" % text[:300])
        if case["aslist"]:
            lines = list(io.StringIO(text, newline=""))
            got = cut("reader", lambda: list(clevercsv.reader(lines, *args, **rkw)))
            eq(got, written, "rows read back from a list of lines")
    flat = [c for r in written for c in r]
    if any(x and x in c for c in flat for x in (d, q, e, "\n", "\r")):
        labels.append("NT")
    if any("\n" in c or "\r" in c for c in flat):
        labels.append("embedded newline")
    if not q:
        labels.append("no quotechar")
    return labels


def gen(rng):
    d, q, e = gens.triple(rng, empty_d=0, empty=0.2)
    rows = []
    for _ in range(rng.choice([0, 1, 2, 3, rng.randint(0, 7)])):
        row = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
            c = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                c.append(rng.randint(0, 13) if rng.random() < 0.5 else gens.cell_plain(rng))
            row.append(c)
        rows.append(row)
    if rng.random() < 0.03:
        rows.append([[gens.cell_plain(rng), "z" * rng.choice([4093, 4094, 4095, 4096, 8191, 8192, rng.choice([16384, 40000, 66000, 131000])]), rng.randint(0, 13), "b"], ["c"]])
    return {"d": d, "q": q, "e": e, "rep": rng.choice([300, 1100]) if rng.random() < 0.003 else 0, "strict": rng.random() < 0.4, "rows": rows, "nl": rng.randint(0, 2),
            "quoting": rng.randint(0, 3), "double": rng.random() < 0.7, "form": rng.randint(0, 62),
            "aslist": rng.random() < 0.3}


PARTS = [Part("roundtrip", gen, check, 120000, 2500000,
              rule="some accepted cell contains the delimiter, quotechar, escapechar or a line break")]
