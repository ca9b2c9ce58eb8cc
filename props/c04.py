"""C04: clevercsv.writer against csv.writer."""
import csv
import io

import clevercsv
from clevercsv.dialect import SimpleDialect

from vlib import dialects, gens
from vlib.engine import Part, eq, expect

ASSUMPTIONS = ["csv.writer of the running Python is the oracle; a SimpleDialect corresponds to QUOTE_MINIMAL (QUOTE_NONE "
               "without quotechar), doublequote and a newline as line terminator"]


class Weird:
    def __init__(self, s, fail):
        self.s, self.fail = s, fail

    def __str__(self):
        if self.fail:
            raise KeyError("weird")
        return self.s


class Sink:
    """A write target whose write() returns something and can fail."""

    def __init__(self, fail_at):
        self.buf, self.n, self.fail_at = [], 0, fail_at

    def write(self, s):
        self.n += 1
        if self.n == self.fail_at:
            raise OSError("sink")
        self.buf.append(s)
        return ("wrote", len(s))


def cell(spec, tok):
    k = spec[0] % 8
    v = spec[1] if len(spec) > 1 else 0
    if k == 0 or k == 7:
        return "".join(tok[p % len(tok)] if isinstance(p, int) else p for p in (v if isinstance(v, list) else [v]))
    n = v if isinstance(v, int) else len(v)
    if k == 1:
        return n
    if k == 2:
        return n / 7
    if k == 3:
        return None
    if k == 4:
        return bool(n % 2)
    if k == 5:
        return Weird(tok[n % len(tok)], n % 5 == 0)
    return b"by\"tes,"


def row_of(spec, kind, tok):
    cells = [cell(c, tok) for c in spec]
    k = kind % 12
    if k == 0:
        return iter(cells)
    if k == 1:
        return tuple(cells)
    if k == 2:
        return "".join(str(c) for c in cells if isinstance(c, str)) or "ab"
    if k == 3:
        return 5
    if k == 4:
        return (c for c in cells)
    return cells


def failing(rows, fail, sink, obs):
    """An iterable of rows that records how far it is read, and can fail."""
    for i, row in enumerate(rows):
        if fail == i + 1:
            raise KeyError("rows")
        obs.append(("row", len(sink.buf)))
        yield row
    if fail > len(rows):
        raise KeyError("rows")


def drive(case, make, err):
    d, q, e = case["d"], case["q"], case["e"]
    tok = [d, q, e, "\n", "\r\n", "\r", q + q, e + q, e + e, " ", "a", "é😀", '"', ","]
    sink = Sink(case["fail"])
    obs = []
    try:
        w = make(sink)
    except (TypeError, ValueError, csv.Error, clevercsv.Error) as ex:
        return [("constructor", type(ex).__name__)], sink.buf
    for op in case["ops"]:
        rows = [row_of(r, k, tok) for k, r in op[1]]
        try:
            if op[0] % 3 == 0:
                r = w.writerows(rows if op[0] % 2 else failing(rows, op[0] // 6, sink, obs))
            elif rows:
                r = [w.writerow(x) for x in rows]
            else:
                r = w.writerow([])
            obs.append(("ok", r))
        except err as ex:
            obs.append(("Error",))
        except Exception as ex:
            obs.append((type(ex).__name__,))
        obs.append(len(sink.buf))
    return obs, sink.buf


def check(case):
    d, q, e = case["d"], case["q"], case["e"]
    if not dialects.valid(d, q, e):
        return []
    nl = ["\n", "\r\n", "\r", "", "|EOL|"][case["nl"] % 5]
    p = dialects.params(d, q, e, bool(case["strict"]), quoting=dialects.QUOTING[case["quoting"] % 4],
                        doublequote=bool(case["double"]), lineterminator=nl)
    p["skipinitialspace"] = bool(case["skip"])
    form = case["form"] % 11
    labels = ["form %d" % form]
    extra = {}
    for k in case["override"]:  # explicit format parameters on top
        key, val = [("delimiter", "~"), ("quotechar", "%"), ("escapechar", "!"), ("lineterminator", "\r\n"),
                    ("quoting", csv.QUOTE_ALL), ("quoting", csv.QUOTE_NONE), ("doublequote", False), ("escapechar", None),
                    ("quotechar", None), ("quoting", csv.QUOTE_MINIMAL), ("strict", True)][k % 11]
        extra[key] = val
    with dialects.Temp() as tmp:
        if form >= 9:
            cdia, ckw = SimpleDialect(d, q, e, strict=bool(case["strict"])), dict(extra)
            base = dialects.params(d, q, e, bool(case["strict"]), lineterminator="\n")
            base.update(extra)
            if extra.get("quotechar", 0) is None and "quoting" not in extra:
                base["quoting"] = csv.QUOTE_NONE
            args, kw, cargs = (), base, (cdia,)
        elif form == 7:
            cdia = ["excel", "excel-tab", "unix"][case["nl"] % 3]
            args = cargs = (cdia,)
            kw, ckw = dict(extra), dict(extra)
        elif form == 8:
            cdia = [clevercsv.excel, clevercsv.excel_tab, clevercsv.unix_dialect][case["nl"] % 3]
            args, cargs = ([csv.excel, csv.excel_tab, csv.unix_dialect][case["nl"] % 3],), (cdia,)
            kw, ckw = dict(extra), dict(extra)
        else:
            cdia, k0 = dialects.form(form, p, tmp)
            args = cargs = (cdia,) if cdia is not None else ()
            kw = dict(k0, **extra)
            ckw = dict(kw)
            if case.get("nolt") and form in (1, 2):
                # a class that sets no line terminator; "\n" is written
                cdia = dialects.make_class(p, ("lineterminator",))
                cargs = (cdia,)
                kw.setdefault("lineterminator", "\n")
                labels.append("no line terminator")
        if args and kw.get("quotechar", 0) is None and "quoting" not in kw:
            # csv.writer accepts this only without a dialect; there it disables quoting
            kw["quoting"] = csv.QUOTE_NONE
        before = dialects.snapshot(cdia) if cdia is not None else None
        want, wbuf = drive(case, lambda f: csv.writer(f, *args, **kw), csv.Error)
        got, gbuf = drive(case, lambda f: clevercsv.writer(f, *cargs, **ckw), clevercsv.Error)
        eq("".join(gbuf), "".join(wbuf), "text written")
        eq(got, want, "results of the calls")
        # the dialect in use is the one at the time the writer was made
        own = dialects.mutable(cdia) if case.get("later") else None
        if own is not None:
            def make(f):
                w = clevercsv.writer(f, own, **ckw)
                dialects.mutate(own)
                return w
            got, gbuf = drive(case, make, clevercsv.Error)
            eq("".join(gbuf), "".join(wbuf), "text written after a change of the caller's dialect object")
            eq(got, want, "results of the calls after a change of the caller's dialect object")
            labels.append("the dialect object changes later")
        if before is not None:
            eq(dialects.snapshot(cdia), before, "the dialect object passed in")
    if extra:
        labels.append("overridden parameters")
    if any(o[0] == "Error" for o in want if isinstance(o, tuple)):
        labels.append("csv.Error")
    if any(o[0] == "constructor" for o in want if isinstance(o, tuple)):
        labels.append("constructor refuses")
    text = "".join(wbuf)
    if len(wbuf) >= 2 and any(x and x in text for x in (q, e)):
        labels.append("NT")
    return labels


def gen(rng):
    d, q, e = gens.triple(rng, empty_d=0)
    ops = []
    for _ in range(rng.randint(1, 4)):
        rows = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            row = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
                k = rng.choice([0, 0, 0, 0, 0, rng.randint(0, 7)])
                v = [rng.randint(0, 13) if rng.random() < 0.5 else gens.cell_plain(rng) for _ in range(rng.choice([0, 1, 1, 2, 4]))]
                row.append([k, v if k in (0, 7) else rng.randint(-3, 999)])
            rows.append([rng.randint(0, 11), row])
        ops.append([rng.choice([rng.randint(0, 5), rng.randint(0, 5), 6 * rng.randint(0, 4)]), rows])
    return {"d": d, "q": q, "e": e, "strict": rng.random() < 0.3, "ops": ops, "nl": rng.randint(0, 4),
            "quoting": rng.randint(0, 3), "double": rng.random() < 0.7, "skip": rng.random() < 0.1,
            "form": rng.randint(0, 65), "nolt": rng.random() < 0.2, "later": rng.random() < 0.25, "fail": rng.choice([0, 0, 0, 0, rng.randint(1, 6)]),
            "override": [rng.randint(0, 10) for _ in range(rng.choice([0, 0, 1, 2]))]}


PARTS = [Part("calls", gen, check, 120000, 2500000,
              rule="at least two writes and the output contains the quotechar or the escapechar")]
