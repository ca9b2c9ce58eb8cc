"""C22: the writing helpers write the whole table or refuse."""
import collections
import copy
import csv
import io
import os
import pathlib
import types

import clevercsv
from clevercsv.dialect import SimpleDialect

from vlib import dialects, files, gens
from vlib.engine import Part, Violation, cut, eq, expect, short

ASSUMPTIONS = ["cells and keys are strings without NUL, or numbers and None as the csv module converts them; dialects have a delimiter",
               "with the default encoding, cells are ASCII",
               "data that the dialect or the encoding cannot represent raises an error; no more is stated for it"]
PATH = "c22.csv"


def paths(case):
    """Choose the file of a case -> the forms its name can be given in."""
    global PATH
    for f in listing():
        os.unlink(f)
    PATH = files.NAMES[case.get("name", 0) % len(files.NAMES)]
    return [PATH, pathlib.Path(PATH), "./" + PATH, os.fsencode(PATH)]
OLD = b"old content\r\nkept,\xff\n"
ENCS = [None, "utf-8", "utf-8", "utf-8-sig", "utf-16", "latin-1", "gb18030"]


def cellval(x):
    return "" if x is None else x if isinstance(x, str) else str(x)


def iterable(kind, items):
    if kind == 9:
        return items
    k = kind % 8
    if k == 0:
        return list(items)
    if k == 1:
        return tuple(items)
    if k == 2:
        return iter(list(items))
    if k == 3:
        return (x for x in items)
    if k == 4:
        return collections.deque(items)
    if k == 5:
        return map(lambda x: x, items)
    if k == 6:
        return {i: x for i, x in enumerate(items)}.values()

    class Seq:
        def __len__(self):
            return len(items)

        def __getitem__(self, i):
            return items[i]

    return Seq()


def dialect_of(case, tmp):
    """-> object or None (default)"""
    s = case["dialect"]
    if s is None:
        return None, ("," , '"', "", False)
    d, q, e = s[:3]
    if not dialects.valid(d, q, e):
        return False, None
    k = case["form"] % 6
    if k == 5:
        return SimpleDialect(d, q, e, strict=False), (d, q, e, False)
    if k == 4:
        return ["excel", "excel-tab", "unix"][case["form"] % 3], None
    p = dialects.params(d, q, e, quoting=dialects.QUOTING[case["quoting"] % 4], doublequote=bool(case["double"]) or not e, lineterminator=["\n", "\r\n", "\r"][case["nl"] % 3])
    return dialects.form(k, p, tmp)[0], (d, q, e, False)


def listing():
    return sorted(x for x in os.listdir(".") if x != "tmp")


def encodable(x, enc):
    return files.encodable(x, enc or "ascii") == x


def put_old(case):
    if os.path.exists(PATH):
        os.unlink(PATH)
    if case["exists"]:
        files.write(PATH, OLD)


def untouched(case, what):
    if case["exists"]:
        eq(open(PATH, "rb").read(), OLD, "existing file after " + what)
    else:
        expect(not os.path.exists(PATH), "a file was created by " + what)
    eq(listing(), [PATH] if case["exists"] else [], "files after " + what)


def check_table(case):
    enc = ENCS[case["enc"] % len(ENCS)]
    table = case["rows"]
    rep = case.get("rep")
    if isinstance(rep, int) and isinstance(table, list) and len(table) > 1:
        table = table[:-1] * max(1, min(abs(rep) % 80000, 300000 // (1 + sum(len(r) if isinstance(r, list) else 1 for r in table)))) + table[-1:]
    if isinstance(case.get("wide"), int) and isinstance(table, list) and len(table) < 5 and all(isinstance(r, list) and len(r) < 6 for r in table):
        table = [r[:-1] * (abs(case["wide"]) % 6000) + r[-1:] for r in table]
    if not isinstance(table, list) or any(not isinstance(r, list) or any(not isinstance(c, (str, int, float, type(None))) or isinstance(c, str) and "\0" in c for c in r) for r in table):
        return []
    if enc is None and any(isinstance(c, str) and not c.isascii() for r in table for c in r):
        return []
    transpose = bool(case["transpose"])
    lengths = {len(r) for r in table}
    ways = paths(case)
    put_old(case)
    before = copy.deepcopy(table)
    inner = [[list, tuple, list][case["inner"] % 3](r) for r in table]
    if case["inner"] % 4 == 3 and case["kind"] % 8 not in (0, 1, 4, 6, 7):
        inner = [iter(r) for r in table]
    if case.get("reuse") and len(table) < 1000:
        # one list for all rows, filled anew each time
        def reused(rows=inner):
            row = []
            for r in rows:
                row[:] = list(r)
                yield row
        inner, case = reused(), dict(case, kind=9)
    kw = {}
    if enc:
        kw["encoding"] = enc
    if transpose or case["inner"] % 2:
        kw["transpose"] = transpose
    with dialects.Temp() as tmp:
        dia, comps = dialect_of(case, tmp)
        if dia is False:
            return []
        rkw = {"encoding": enc or "utf-8"}
        if dia is not None:
            kw["dialect"] = dia
        snap = None if dia is None else dialects.snapshot(dia)
        rkw["dialect"] = "excel" if dia is None else dia
        arg = iterable(case["kind"], inner)
        pos, kw = dialects.positional(case.get("pos", 0), [("dialect", "excel"), ("transpose", False), ("encoding", None)], kw)
        path = ways[case.get("pos", 0) % 4]
        if not table:
            r = cut("write_table", clevercsv.write_table, arg, path, *pos, **kw)
            untouched(case, "writing an empty table")
            return ["empty table"]
        if len(lengths) > 1:
            try:
                clevercsv.write_table(arg, path, *pos, **kw)
            except ValueError:
                pass
            else:
                raise Violation("write_table accepted rows of lengths %r (transpose=%r)" % (sorted(lengths), transpose))
            untouched(case, "refusing a table without constant row length")
            return ["NT", "refused"]
        try:
            clevercsv.write_table(arg, path, *pos, **kw)
        except clevercsv.Error as e:
            # the csv module has to refuse it too
            expect(refused_by_csv(table, transpose, dia), "write_table raised %s for a table csv.writer writes" % e)
            return ["not representable"]
        except UnicodeError:
            expect(not all(encodable(cellval(c), enc) for r in table for c in r) or comps and not encodable("".join(comps[:3]), enc), "UnicodeError for an encodable table")
            return ["not encodable"]
        eq(table, before, "the table passed in")
        if snap is not None:
            eq(dialects.snapshot(dia), snap, "the dialect passed in")
        want = [[cellval(c) for c in r] for r in table]
        if transpose:
            want = [list(r) for r in zip(*want)]
        got = cut("read_table", clevercsv.read_table, PATH, **rkw)
        eq(got, want, "rows read back (transpose=%r)" % transpose)
        if dia is None:
            out = io.StringIO(newline="")
            csv.writer(out).writerows(want)
            eq(open(PATH, "rb").read().decode(enc or "utf-8"), out.getvalue() if enc != "utf-16" else out.getvalue(), "text written by default")
        eq(listing(), [PATH], "files afterwards")
    os.unlink(PATH)
    lab = ["transposed" if transpose else "not transposed"]
    if len(table) > 500:
        lab.append("more than 500 rows")
    if len(table) > 1 and lengths != {0}:
        lab.append("NT")
    if any(isinstance(c, str) and ("\n" in c or "\r" in c or '"' in c) for r in table for c in r):
        lab.append("special characters")
    return lab


def refused_by_csv(table, transpose, dia):
    """Does csv.writer refuse the rows?"""
    rows = [list(r) for r in zip(*table)] if transpose else table
    out = io.StringIO(newline="")
    try:
        w = csv.writer(out, **({} if dia is None else {"dialect": dia.to_csv_dialect() if isinstance(dia, SimpleDialect) else dia}))
        w.writerows(rows)
    except csv.Error:
        return True
    return False


def mapping(kind, pairs):
    k = kind % 4
    d = dict(pairs)
    if k == 1:
        return collections.OrderedDict(pairs)
    if k == 2:
        return types.MappingProxyType(d)
    if k == 3:
        return collections.ChainMap(d)
    return d


def check_dicts(case):
    enc = ENCS[case["enc"] % len(ENCS)]
    items = case["items"]
    if not isinstance(items, list):
        return []
    rep = case.get("rep")
    if isinstance(rep, int) and len(items) > 1:
        items = items[:-1] * (1 + abs(rep) % 40000) + items[-1:]
    if isinstance(case.get("wide"), int) and len(items) < 5 and all(isinstance(it, list) and len(it) < 6 for it in items):
        n = abs(case["wide"]) % 3000
        items = [[[p[0] + str(j), p[1]] if isinstance(p, list) and len(p) == 2 and isinstance(p[0], str) else p for j in range(n) for p in it] for it in items]
    for it in items:
        if not isinstance(it, list) or not all(isinstance(p, list) and len(p) == 2 and all(isinstance(x, (str, int, float, type(None))) and "\0" not in cellval(x) for x in p) for p in it):
            return []
        if len({p[0] for p in it}) != len(it) or len({cellval(p[0]) for p in it}) != len(it):
            return []
        if enc is None and any(not cellval(x).isascii() for p in it for x in p):
            return []
    if items and not items[0]:
        return []
    ways = paths(case)
    put_old(case)
    maps = [mapping(case["mapping"] if case["mapping"] % 4 != 3 or len(it) == 1 else 0, [tuple(p) for p in it]) for it in items]
    if maps and isinstance(case.get("same"), list):
        # the very same object more than once
        again = [abs(k) % len(maps) for k in case["same"] if isinstance(k, int)][:9]
        items = items + [items[k] for k in again]
        maps += [maps[k] for k in again]
    before = [dict(m) for m in maps]
    kw = {"encoding": enc} if enc else {}
    with dialects.Temp() as tmp:
        dia, comps = dialect_of(case, tmp)
        if dia is False:
            return []
        if dia is not None:
            kw["dialect"] = dia
        arg = iterable(case["kind"], maps)
        pos, kw = dialects.positional(case.get("pos", 0), [("dialect", "excel"), ("encoding", None)], kw)
        path = ways[case.get("pos", 0) % 4]
        if not items:
            cut("write_dicts", clevercsv.write_dicts, arg, path, *pos, **kw)
            untouched(case, "writing no items")
            return ["no items"]
        header = [p[0] for p in items[0]]
        extra = any(p[0] not in header for it in items for p in it)
        try:
            clevercsv.write_dicts(arg, path, *pos, **kw)
        except clevercsv.Error as e:
            rows = [header] + [[dict(map(tuple, it)).get(h, "") for h in header] for it in items]
            expect(extra or refused_by_csv(rows, False, dia), "write_dicts raised %s for records csv.writer writes" % e)
            return ["not representable"]
        except UnicodeError:
            expect(not all(encodable(cellval(x), enc) for it in items for p in it for x in p) or comps and not encodable("".join(comps[:3]), enc), "UnicodeError for encodable items")
            return ["not encodable"]
        except ValueError as e:
            expect(extra, "write_dicts refused items without extra keys: %s" % e)
            return ["NT", "refused"]
        expect(not extra, "write_dicts accepted an item with a key that is not in the header")
        eq([dict(m) for m in maps], before, "the items passed in")
        want = [{cellval(h): cellval(dict(map(tuple, it)).get(h, "")) for h in header} for it in items]
        header = [cellval(h) for h in header]
        got = cut("read_dicts", clevercsv.read_dicts, PATH, dialect="excel" if dia is None else dia, encoding=enc or "utf-8")
        eq([dict(r) for r in got], want, "records read back")
        eq([list(r) for r in got], [header] * len(got), "order of the columns")
        if dia is None:
            out = io.StringIO(newline="")
            csv.writer(out).writerows([header] + [[r[h] for h in header] for r in want])
            eq(open(PATH, "rb").read().decode(enc or "utf-8"), out.getvalue(), "text written by default")
    os.unlink(PATH)
    return ["NT", "missing keys" if any(len(it) < len(header) for it in items) else "all keys"]


def text_cell(rng, d, q, e):
    return "".join(rng.choice([d, q, q + q, e, "\n", "\r\n", "\r", " ", "a", "é" if rng.random() < 0.3 else "b", gens.cell_plain(rng)]) for _ in range(rng.choice([0, 1, 1, 2, 3])))


def common(rng):
    d, q, e = gens.triple(rng, empty_d=0, empty=0.1)
    return {"dialect": None if rng.random() < 0.35 else [d, q, e], "form": rng.randint(0, 35), "quoting": rng.choice([0, 0, 1, 2, 3]), "double": rng.random() < 0.8, "nl": rng.randint(0, 2),
            "enc": rng.randint(0, 6), "exists": rng.random() < 0.5, "kind": rng.randint(0, 7), "pos": rng.choice([0, rng.randint(0, 35)]), "name": rng.choice([0, rng.randint(0, 99)])}


def gen_table(rng):
    c = common(rng)
    d, q, e = c["dialect"] or [",", '"', ""]
    n, m = rng.choice([0, 1, 2, 2, 3, 5]), rng.choice([0, 1, 1, 2, 3, 4])
    rows = [[text_cell(rng, d, q, e) if rng.random() < 0.93 else rng.choice([None, 1, -2, 1.5]) for _ in range(m)] for _ in range(n)]
    if rng.random() < 0.2 and rows:
        i = rng.randrange(len(rows))
        if rng.random() < 0.5:
            rows[i].append(text_cell(rng, d, q, e))
        elif rows[i]:
            rows[i].pop()
    if c["enc"] % len(ENCS) == 0:
        rows = [["".join(x for x in v if x.isascii()) if isinstance(v, str) else v for v in r] for r in rows]
    if rng.random() < 0.01 and n < 4:
        c["rep"] = rng.choice([100, 300, 700, 1200, 2500, 5000, 12000, 33000, 70000])
    if rng.random() < 0.01:
        c["wide"] = rng.choice([100, 1000, 5000])
    c.update(rows=rows, transpose=rng.random() < 0.4, inner=rng.randint(0, 3), reuse=rng.random() < 0.08)
    return c


def gen_dicts(rng):
    c = common(rng)
    d, q, e = c["dialect"] or [",", '"', ""]
    keys = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        k = text_cell(rng, d, q, e)
        if k not in keys:
            keys.append(k)
    items = []
    for i in range(rng.choice([0, 1, 2, 3, 6])):
        ks = list(keys)
        if i and rng.random() < 0.15:
            ks = ks[:-1]
        if i and rng.random() < 0.3:
            rng.shuffle(ks)
        if i and rng.random() < 0.06:
            ks.append("extra!")
        items.append([[k, text_cell(rng, d, q, e)] for k in ks])
    if rng.random() < 0.15 and keys:
        # keys that are not strings
        new = {k: rng.choice([k, i, i + 0.5, -i, None if not i else i]) for i, k in enumerate(keys)}
        items = [[[new.get(k, k), v if rng.random() < 0.7 else rng.choice([None, 1, -2, 1.5, 0])] for k, v in it] for it in items]
    if c["enc"] % len(ENCS) == 0 or rng.random() < 0.2:
        c["enc"] = 1
    if rng.random() < 0.01 and len(items) < 4:
        c["rep"] = rng.choice([100, 300, 700, 1200, 2500, 11000, 33000])
    if rng.random() < 0.02 and len(items) < 4:
        c["wide"] = rng.choice([30, 60, 100, 300, 1000, 2500])
    if rng.random() < 0.08 and items:
        c["same"] = [rng.choice([0, 0, rng.randint(0, 5)]) for _ in range(rng.randint(1, 3))]
    c.update(items=items, mapping=rng.randint(0, 3))
    return c


PARTS = [
    Part("table", gen_table, check_table, 20000, 600000, rule="a table of at least two rows with cells is written, or a ragged one refused"),
    Part("dicts", gen_dicts, check_dicts, 10000, 300000, rule="at least one item is written, or items refused"),
]
