"""C01: parse results equal an independent reference tokenizer."""
import io

import clevercsv
from clevercsv.cparser_util import parse_data
from clevercsv.dialect import SimpleDialect

from vlib import dialects, gens, refparse
from vlib.engine import Part, Skip, Violation, eq, expect

ASSUMPTIONS = ["delimiter, quotechar and escapechar are distinct and not line-break characters"]


def run_forms(lines, d, q, e, strict, form):
    """The reader with another form of the dialect: a csv dialect by name, class or instance, or format parameters."""
    with dialects.Temp() as tmp:
        try:
            dia, kw = dialects.form(form, dialects.params(d, q, e, strict), tmp)
        except (TypeError, ValueError):
            raise Skip("no csv dialect")
        rows, err = [], None
        try:
            for row in clevercsv.reader(lines, dia, **kw) if dia is not None else clevercsv.reader(lines, **kw):
                rows.append(row)
        except clevercsv.Error as ex:
            err = str(ex) or "error"
        return rows, err


def run_real(lines, d, q, e, strict, flags, via):
    rows, err = [], None
    try:
        if via == "reader":
            it = clevercsv.reader(lines, SimpleDialect(d, q, e, strict=strict))
        elif via == "args":
            it = parse_data(lines, delimiter=d, quotechar=q, escapechar=e, strict=strict, return_quoted=flags)
        elif isinstance(via, list):
            # arguments that aren't None override the components of the dialect
            o = {"delimiter": d, "quotechar": q, "escapechar": e, "strict": strict}
            base = dict(o)
            for name, other in via:
                base[name] = other
            kw = {name: o[name] for name, _ in via}
            it = parse_data(lines, SimpleDialect(base["delimiter"], base["quotechar"], base["escapechar"], strict=base["strict"]), return_quoted=flags, **kw)
        else:
            it = parse_data(lines, dialect=SimpleDialect(d, q, e, strict=strict), return_quoted=flags)
        for row in it:
            rows.append(row)
    except clevercsv.Error as ex:
        err = str(ex) or "error"
    return rows, err


def check(case):
    d, q, e, strict = case["d"], case["q"], case["e"], bool(case["strict"])
    sp = [x for x in (d, q, e) if x]
    if len(set(sp)) != len(sp) or any(x in "\r\n\0" or len(x) > 1 for x in sp):
        return []
    text = gens.text_of(case["toks"])
    if "\0" in text:
        return []
    lines = gens.lines_of(text, case["mode"], case["cuts"])
    want, werr = refparse.parse(lines, d, q, e, strict, 131072)
    src = {"list": lambda: list(lines), "gen": lambda: (x for x in lines),
           "file": lambda: io.StringIO(text, newline="")}[
        "file" if case["mode"] == "file" and case["src"] == 2 else ("gen" if case["src"] == 1 else "list")]
    via = ["dialect", "args", "reader"][case["via"] % 3]
    got, gerr = run_real(src(), d, q, e, strict, False, via)
    eq(got, refparse.plain(want), "rows (%s)" % via)
    expect((gerr is None) == (werr is None), "error: got %r, reference %r" % (gerr, werr))
    for r in got:
        expect(type(r) is list and all(type(c) is str for c in r), "row %r is not a list of str" % (r,))
    gotq, gerrq = run_real(src(), d, q, e, strict, True, "dialect")
    eq([[tuple(c) for c in r] for r in gotq], want, "rows with quoted flags")
    if case["src"] == 2 and len(text) < 5000:
        # a dialect with other components, and arguments that override them
        n = len(text) + case["via"]
        free = [x for x in dict.fromkeys(text[:50] + ",;|'\\^") if x not in (d, q, e, "\r", "\n")]
        others = {"delimiter": free[::-1], "quotechar": free + [""] * bool(q), "escapechar": [""] * bool(e) + free, "strict": [not strict]}
        via = [[name, vals[n % len(vals)]] for i, (name, vals) in enumerate(sorted(others.items())) if (n * 7 + len(lines)) >> i & 1]
        comps = dict(via)
        gota, gerra = run_real(src(), d, q, e, strict, False, via)
        eq(gota, refparse.plain(want), "rows of parse_data with a dialect whose %r the arguments override" % (comps,))
        expect((gerra is None) == (werr is None), "error of parse_data with overriding arguments: got %r, reference %r" % (gerra, werr))
    for r in gotq:
        expect(all(type(c) is tuple and type(c[1]) is bool for c in r), "flag of %r is not a bool" % (r,))
    expect((gerrq is None) == (werr is None), "error with flags: got %r, reference %r" % (gerrq, werr))
    labels = []
    if d and via == "reader" and dialects.valid(d, q, e):
        form = (len(case["toks"]) + case["src"]) % 7
        gotf, gerrf = run_forms(src(), d, q, e, strict, form)
        eq(gotf, refparse.plain(want), "rows of reader, form %d of the dialect" % form)
        expect((gerrf is None) == (werr is None), "error of reader, form %d of the dialect: got %r, reference %r" % (form, gerrf, werr))
        labels.append("csv dialect")
    cells = [c for r in want for c in r]
    if any(x and x in text for x in (d, q, e)) and cells:
        labels.append("NT")
    if any(f for _, f in cells):
        labels.append("quoted cell")
    if werr:
        labels.append("error " + werr)
    if any(len(c) > 4090 for c, _ in cells):
        labels.append("cell beyond buffer")
    if any("\n" in c or "\r" in c for c, _ in cells):
        labels.append("embedded newline")
    if q and any(q in c for c, _ in cells):
        labels.append("quotechar kept")
    if e and e in text:
        labels.append("escapechar in text")
    labels.append("mode " + case["mode"])
    if strict:
        labels.append("strict")
    return labels


def gen_small(rng):
    d, q, e = gens.triple(rng)
    n = rng.choice([rng.randint(0, 8), rng.randint(0, 20), rng.randint(10, 60)])
    return {"d": d, "q": q, "e": e, "strict": rng.random() < 0.2,
            "toks": gens.tokens(rng, d, q, e, n),
            "mode": rng.choice(["file", "file", "keepends", "noends", "whole", "cuts"]),
            "cuts": [rng.randint(0, 200) for _ in range(rng.randint(0, 4))],
            "src": rng.randint(0, 2), "via": rng.randint(0, 2)}


def gen_wellformed(rng):
    """Structured rows: quoted/unquoted/escaped cells; few errors, all states."""
    d, q, e = gens.triple(rng, empty=0.05)
    nl = rng.choice(["\n", "\r\n", "\r"])
    toks = []
    nrows = rng.randint(0, 5)
    for i in range(nrows):
        for j in range(rng.randint(0, 4)):
            if j:
                toks.append([d, 1])
            k = rng.random()
            body = [[rng.choice([gens.cell_plain(rng, d + q + e), d, nl, q + q, e + q, e + e, e + d, e + "b", " "]), 1]
                    for _ in range(rng.randint(0, 4))]
            if k < 0.5:
                toks += [[q, 1]] + body + [[q, 1]]
            elif k < 0.8:
                toks.append([gens.cell_plain(rng, d + q + e), 1])
            else:
                toks += [[rng.choice([gens.cell_plain(rng, d + q + e), e + q, e + d, e + e, e + "b", e + nl]), 1]
                         for _ in range(rng.randint(0, 3))]
        if i < nrows - 1 or rng.random() < 0.6:
            toks.append([nl, 1])
    return {"d": d, "q": q, "e": e, "strict": rng.random() < 0.4, "toks": toks,
            "mode": rng.choice(["file", "file", "file", "noends", "keepends"]), "cuts": [],
            "src": rng.randint(0, 2), "via": rng.randint(0, 2)}


def gen_long(rng):
    """Cells around the growing buffer's sizes."""
    c = gen_wellformed(rng) if rng.random() < 0.5 else gen_small(rng)
    d, q, e = c["d"], c["q"], c["e"]
    fill = rng.choice(["x", "é", "中", "😀", q + q or "y", e + e or "z", e + q or "w", "\n"])
    big = rng.choice([4096, 8192, 4096, 16384, 4096, 8192, rng.choice([32768, 65536, 131072])]) + rng.randint(-3, 3)
    if len(fill) > 1 and rng.random() < 0.5:
        big //= 2
    seq = [[fill, big], [rng.choice(["b", "中", q, d, q + q, e]), 1]]
    if rng.random() < 0.6:
        seq = [[q, 1]] + seq + [[q, 1]]
    p = rng.randint(0, len(c["toks"]))
    c["toks"] = c["toks"][:p] + seq + c["toks"][p:]
    if rng.random() < 0.3:
        p = rng.randint(0, len(c["toks"]))
        c["toks"] = c["toks"][:p] + [[rng.choice(["a" + d, "ab\n", "q" + d + "\n"]), rng.choice([rng.randint(50, 1500), rng.randint(50, 1500), 9000])]] + c["toks"][p:]
    return c


ALPHA = ["a", ",", '"', "\\", "\n"]


class Exhaustive(Part):
    """Every text up to a length over {a , " \\ newline}, strict and not."""

    def count(self, tier, scale=1.0):
        maxlen = 7 if tier == "quick" else 9
        self.starts = []
        tot = 0
        for n in range(maxlen + 1):
            self.starts.append((tot, n))
            tot += 5 ** n
        return tot

    def case(self, seed, i):
        if not hasattr(self, "starts"):
            self.count("thorough")
        st, n = [x for x in self.starts if x[0] <= i][-1]
        k = i - st
        s = []
        for _ in range(n):
            s.append(ALPHA[k % 5])
            k //= 5
        return {"d": ",", "q": '"', "e": "\\", "toks": [["".join(s), 1]]}


def check_exh(case):
    labels = []
    for strict in (False, True):
        for mode in ("file", "noends"):
            labels = check(dict(case, strict=strict, mode=mode, cuts=[], src=0, via=0))
    return labels


# several readers advanced in turn, also from within each other's source
def check_inter(case):
    rs = []
    for c in case["readers"][:4]:
        d, q, e = c["d"], c["q"], c["e"]
        sp = [x for x in (d, q, e) if x]
        if len(set(sp)) != len(sp) or any(x in "\r\n\0" or len(x) > 1 for x in sp):
            return []
        text = gens.text_of(c["toks"])
        if "\0" in text or len(text) > 100000:
            return []
        lines = gens.lines_of(text, c["mode"], c["cuts"])
        rs.append((c, lines))
    n = len(rs)
    if not n:
        return []
    its, rows, errs, busy, done = [], [[] for _ in rs], [None] * n, [False] * n, [False] * n

    def step(i):
        if busy[i] or done[i]:
            return
        busy[i] = True
        try:
            rows[i].append(next(its[i]))
        except StopIteration:
            done[i] = True
        except clevercsv.Error as ex:
            errs[i] = str(ex) or "error"
            done[i] = True
        finally:
            busy[i] = False

    def source(i, lines, nested):
        for j, x in enumerate(lines):
            if nested:
                step((i + 1 + j) % n)
            yield x

    for i, (c, lines) in enumerate(rs):
        src = source(i, lines, c["src"] == 1)
        dia = SimpleDialect(c["d"], c["q"], c["e"], strict=bool(c["strict"]))
        if c["via"] % 3 == 2:
            its.append(clevercsv.reader(src, dia))
        else:
            its.append(iter(parse_data(src, dia, return_quoted=c["via"] % 3 == 1)))
    for k in case["order"]:
        step(k % n)
    while not all(done):
        for i in range(n):
            step(i)
    for i, (c, lines) in enumerate(rs):
        want, werr = refparse.parse(lines, c["d"], c["q"], c["e"], bool(c["strict"]))
        if c["via"] % 3 == 1:
            eq([[tuple(x) for x in r] for r in rows[i]], want, "rows with flags of one of %d readers in turn" % n)
        else:
            eq(rows[i], refparse.plain(want), "rows of one of %d readers in turn" % n)
        expect((errs[i] is None) == (werr is None), "error: got %r, reference %r" % (errs[i], werr))
    return ["NT"] if n > 1 and sum(len(r) > 1 for r in rows) > 1 else []


def gen_inter(rng):
    return {"readers": [(gen_small if rng.random() < 0.3 else gen_wellformed)(rng) for _ in range(rng.choice([2, 2, 3, 4]))],
            "order": [rng.randint(0, 3) for _ in range(rng.randint(0, 12))]}


PARTS = [
    Part("interleaved", gen_inter, check_inter, 12000, 300000, rule="several readers advanced in turn, at least two of them with more than one row"),
    Part("structured", gen_wellformed, check, 40000, rule="rows of quoted, unquoted and escaped cells; non-trivial: at least one cell and one special character"),
    Part("soup", gen_small, check, 56000, rule="token soup biased to special characters, any chunking; non-trivial as above"),
    Part("long", gen_long, check, 2400, rule="cells around 4096/8192/16384 characters, many-cell rows; non-trivial as above"),
    Exhaustive("exhaustive", None, check_exh, 1, rule="every text up to length 7 (thorough 9) over {a , \" \\ LF}, strict and lenient, two chunkings"),
]
