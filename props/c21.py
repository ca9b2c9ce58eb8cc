"""C21: the reading helpers return what the file contains."""
import contextlib
import gc
import io
import os
import pathlib

import clevercsv
from clevercsv.encoding import get_encoding
from clevercsv.exceptions import NoDetectionResult

from vlib import dialects, files, gens, texts
from vlib.engine import Part, Violation, Skip, cut, eq, expect, short

ASSUMPTIONS = ["delimiter, quotechar and escapechar of the dialect are distinct; files decode to text without NUL"]


def outcome(f):
    """-> ("rows", rows so far, error type name or None)"""
    rows = []
    try:
        for r in f():
            rows.append(r)
        return rows, None
    except NoDetectionResult:
        return rows, "NoDetectionResult"
    except clevercsv.Error:
        return rows, "Error"
    except UnicodeError:
        return rows, "UnicodeError"


def comps(x):
    return None if x is None else (x.delimiter, x.quotechar, x.escapechar)


def dicts_of(text, dialect):
    return outcome(lambda: clevercsv.DictReader(files.lines(text), dialect=dialect))


def check(case):
    enc = case["enc"]
    PATH = files.NAMES[case.get("name", 0) % len(files.NAMES)]
    text = "".join(t * n for t, n in case["toks"] if isinstance(t, str) and isinstance(n, int) and 0 <= n < 100000)
    if "huge" in case:
        text += files.expand(case["huge"])
    text = files.encodable(text.replace("\0", ""), enc)
    if len(text) > 4000000:
        return []
    data = text.encode(enc)
    if case["bad"]:
        data += b"\xff\xfe\xfd\x80"
    files.write(PATH, data)
    n = case["num"]
    give_enc = enc if case["give"] else None
    real_enc = give_enc or get_encoding(PATH)
    try:
        dec = files.decoded(PATH, real_enc)
    except UnicodeError:
        dec = None
    if dec is not None and "\0" in dec:
        return ["NUL"]
    lab = ["encoding given" if give_enc else "encoding detected"]
    path = [PATH, pathlib.Path(PATH), os.path.abspath(PATH), os.fsencode(PATH)][case["pathkind"] % 4]
    kw = {"encoding": give_enc}
    if n is not None:
        kw["num_chars"] = n
    if case["verbose"]:
        kw["verbose"] = True
    with dialects.Temp() as tmp, contextlib.redirect_stdout(io.StringIO()) as out:
        dia = None
        if case["dialect"]:
            d, q, e, strict = case["dialect"]
            if not (d and files.distinct(d, q, e)):
                return []
            k = case["form"] % 6
            dia = clevercsv.dialect.SimpleDialect(d, q, e, strict=bool(strict)) if k == 5 else dialects.form(k % 4, dialects.params(d, q, e, strict=bool(strict)), tmp)[0]
            kw["dialect"] = dia
            want_c = (d, q, e)
        pos, pkw = dialects.positional(case.get("pos", 0), [("dialect", None), ("encoding", None), ("num_chars", None), ("verbose", False)], kw)
        # expected
        if dec is None:
            want, want_err, used = [], "UnicodeError", None
        elif dia is not None:
            used = dia
            want, err = files.rows_of(dec, d, q, e, bool(strict))
            want_err = "Error" if err else None
        else:
            used = clevercsv.Detector().detect(dec[:n] if n else dec)
            if used is None:
                want, want_err = [], "NoDetectionResult"
            else:
                if not files.distinct(*comps(used)):
                    return ["overlapping components"]
                want, err = files.rows_of(dec, *comps(used))
                want_err = "Error" if err else None
        if dia is None:
            dpos, dkw = dialects.positional(case.get("pos", 0), [("num_chars", None), ("encoding", None), ("verbose", False), ("method", "auto"), ("skip", True)], kw)
            if dec is None:
                try:
                    clevercsv.detect_dialect(path, *dpos, **dkw)
                    if not n:
                        raise Violation("detect_dialect decoded what cannot be decoded")
                except UnicodeError:
                    pass
            else:
                r = cut("detect_dialect", clevercsv.detect_dialect, path, *dpos, **dkw)
                eq(comps(r), comps(used), "detect_dialect with num_chars=%r, encoding=%r" % (n, give_enc))
        if dec is None:
            # how many rows come before the undecodable bytes is not stated
            for name, f in (("read_table", clevercsv.read_table), ("stream_table", clevercsv.stream_table),
                            ("read_dicts", clevercsv.read_dicts), ("stream_dicts", clevercsv.stream_dicts)):
                _, err = outcome(lambda: f(path, *pos, **pkw))
                expect(err in ("UnicodeError", "NoDetectionResult", "Error"), "%s of an undecodable file ended with %r" % (name, err))
                gc.collect()
                eq(files.open_fds(PATH), [], "descriptors left open by " + name)
            os.unlink(PATH)
            return lab + ["undecodable"]
        shows = None if case["verbose"] and (dia is not None or not dec) else bool(case["verbose"])
        for name, f in (("read_table", clevercsv.read_table), ("stream_table", clevercsv.stream_table)):
            out.seek(0), out.truncate()
            got, err = cut(name, outcome, lambda: f(path, *pos, **pkw))
            eq(bool(out.getvalue()) if shows is not None else None, shows, "whether %s (%s) shows the progress of a detection" % (name, short(repr(kw))))
            eq(err, want_err, "error of %s (%s)" % (name, short(repr(kw))))
            if name == "stream_table" or not err:
                eq(got, want, "rows of %s (%s, file encoding %s)" % (name, short(repr(kw)), enc))
            expect(type(clevercsv.read_table(path, *pos, **pkw)) is list if not err else True, "read_table does not return a list")
            eq(files.open_fds(PATH), [], "descriptors left open by " + name)
        if used is not None:
            dwant, dwerr = dicts_of(dec, used)
        else:
            dwant, dwerr = [], "NoDetectionResult"
        for name, f in (("read_dicts", clevercsv.read_dicts), ("stream_dicts", clevercsv.stream_dicts)):
            out.seek(0), out.truncate()
            got, err = cut(name, outcome, lambda: f(path, *pos, **pkw))
            eq(bool(out.getvalue()) if shows is not None else None, shows, "whether %s (%s) shows the progress of a detection" % (name, short(repr(kw))))
            eq(err, dwerr, "error of " + name)
            if name == "stream_dicts" or not err:
                eq(got, dwant, "records of %s" % name)
                eq([list(x) for x in got], [list(x) for x in dwant], "order of the keys of %s" % name)
            eq(files.open_fds(PATH), [], "descriptors left open by " + name)
        # a stream that is not read to the end
        if want and not want_err:
            for f in (clevercsv.stream_table, clevercsv.stream_dicts):
                s = f(path, *pos, **pkw)
                first = next(s, None)
                if f is clevercsv.stream_table:
                    eq(first, want[0], "first row of stream_table")
                s.close()
                eq(files.open_fds(PATH), [], "descriptors left open by a closed stream")
        # two streams of the same file, alternating
        if 1 < len(want) < 50 and not want_err:
            a, b = clevercsv.stream_table(path, *pos, **pkw), clevercsv.stream_table(path, *pos, **pkw)
            got = [x for pair in zip(a, b) for x in pair]
            eq(got, [x for r in want for x in (r, r)], "rows of two alternating streams")
            list(a), list(b)
    eq(open(PATH, "rb").read(), data, "bytes of the file afterwards")
    os.unlink(PATH)
    if want and want[0]:
        lab.append("NT")
    if want_err:
        lab.append(want_err)
    if any("\n" in c or "\r" in c for r in want for c in r):
        lab.append("embedded line break")
    if n:
        lab.append("num_chars" + (" below the length" if n < len(dec) else ""))
    if len(data) > 8192:
        lab.append("larger than a buffer")
    lab.append("dialect given" if dia is not None else "dialect detected")
    return lab


def gen(rng):
    enc = rng.choice(files.ENCODINGS)
    dialect = None
    if rng.random() < 0.35:
        d, q, e = gens.triple(rng, empty_d=0)
        dialect = [d, q, e, rng.random() < 0.2]
        t = texts.table(rng, d, q, e) if rng.random() < 0.7 else gens.text_of(gens.tokens(rng, d, q, e, rng.choice([3, 10, 30])))
    else:
        t = files.table_text(rng)
    t = files.wide(rng, t)
    toks = [[t, 1]]
    return {"enc": enc, "toks": toks, "dialect": dialect, "form": rng.randint(0, 5), "give": rng.random() < 0.5, "bad": rng.random() < 0.02 and enc == "utf-8",
            "num": rng.choice([None, None, None, 0, 1, 5, 10, 20, 30, 50, 100, len(t), len(t) - 1, len(t) + 1, 10 ** 6]), "verbose": rng.random() < 0.1, "pathkind": rng.randint(0, 3), "pos": rng.choice([0, 1, 2, 3, 4, 5]), "name": rng.choice([0, rng.randint(0, 99)])}


def gen_large(rng):
    """Files over one or several buffers, characters across the boundaries."""
    d = rng.choice([",", ";", "\t", "|"])
    q = rng.choice(["", '"'])
    nl = rng.choice(["\n", "\r\n", "\r"])
    w = rng.choice(["a", "ab", "été", "中", "Привет", "x1"])
    row = d.join([q + w + q] * rng.randint(2, 4)) + nl
    size = rng.choice([8192, 8192, 16384, 65536]) + rng.randint(-40, 40)
    toks = [[d.join([q + "h" + q] * row.replace(nl, "").split(d).__len__()) + nl, 1]]
    head = rng.randint(0, 5)
    toks.append([row, max(1, (size + head) // max(1, len(row.encode("utf-8"))))])
    if q and rng.random() < 0.6:
        toks.append([d.join([q + "a" + nl + "b" + d + q + q + "c" + q] * (row.count(d) + 1)) + nl, rng.choice([1, 3, 800])])
        toks.append([row, rng.choice([1, 400])])
    dialect = [d, q, "", False] if rng.random() < 0.5 or (q and len(toks) > 2) else None
    return {"enc": rng.choice(["utf-8", "utf-8", "utf-16", "utf-8-sig", "gb18030"]), "toks": toks, "dialect": dialect, "form": rng.randint(0, 5), "give": rng.random() < 0.7,
            "bad": False, "num": rng.choice([None, 100, 1000, 8192, 10000]), "verbose": False, "pathkind": rng.randint(0, 3), "pos": rng.choice([0, 1, 2, 3, 4, 5]), "name": rng.choice([0, rng.randint(0, 99)])}


def gen_huge(rng):
    h = files.huge(rng)
    return {"enc": rng.choice(["utf-8", "utf-8", "utf-16", "utf-8-sig"]), "toks": [], "huge": h, "dialect": [h["d"], '"', "", False] if rng.random() < 0.3 else None, "form": rng.randint(0, 5), "give": rng.random() < 0.6,
            "bad": False, "num": rng.choice([None, None, None, 0, 10 ** 6, 10 ** 7]), "verbose": False, "pathkind": rng.randint(0, 3), "pos": rng.choice([0, 1, 2, 3, 4, 5]), "name": rng.choice([0, rng.randint(0, 99)])}


PARTS = [
    Part("huge", gen_huge, check, 8, 160, rule="the file has a first row with cells", shrink_tries=40),
    Part("files", gen, check, 9000, 200000, rule="the file has a first row with cells"),
    Part("large", gen_large, check, 400, 8000, rule="the file has a first row with cells"),
]
