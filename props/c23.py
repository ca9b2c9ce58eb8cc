"""C23: read_dataframe against read_table."""
import copy
import csv
import os
import pathlib
import warnings

import clevercsv
from clevercsv.encoding import get_encoding
from clevercsv.exceptions import NoDetectionResult

from vlib import files, gens, texts
from vlib.engine import Part, Violation, Skip, cut, eq, expect, short

ASSUMPTIONS = ["regular tables: a header of distinct non-empty names, rows of the header's length, no blank lines, no byte order mark in the decoded text, "
               "and a text that is well-formed for the detected dialect (csv.reader reads the same rows), an escape character only before characters it escapes",
               "pandas keeps cells as strings (dtype=str, keep_default_na=False)"]
PATH = "c23.csv"


def comps(x):
    return None if x is None else (x.delimiter, x.quotechar, x.escapechar)


def frame(df):
    return list(df.columns), [list(r) for r in df.itertuples(index=False, name=None)]


def regular(rows):
    if not rows or not rows[0]:
        return False
    h = rows[0]
    if len(set(h)) != len(h) or any(not x or x.startswith("Unnamed:") for x in h):
        return False
    if any(len(r) != len(h) for r in rows):
        return False
    # pandas skips blank lines
    return len(h) > 1 or all(r[0].strip() for r in rows)


def call(f):
    try:
        return "ok", f()
    except NoDetectionResult:
        return "NoDetectionResult", None
    except clevercsv.Error:
        return "Error", None


def plain_escapes(text, d, q, e):
    """Does the escape character only stand before characters it escapes? (pandas drops it before others)"""
    i = 0
    while i < len(text):
        if text[i] == e:
            if i + 1 >= len(text) or text[i + 1] not in (d, q, e) or d == "":
                if text[i + 1:i + 2] not in (q, e) or not text[i + 1:]:
                    return False
            i += 1
        i += 1
    return True


def check(case):
    enc, n = case["enc"], case["num"]
    text = files.encodable(files.expand(case["text"]).replace("\0", "").replace("\ufeff", ""), enc)
    files.write(PATH, text.encode(enc))
    give = enc if case["give"] else None
    kw = {} if n is None else {"num_chars": n}
    try:
        dec = files.decoded(PATH, give or get_encoding(PATH))
        kind, rows = call(lambda: clevercsv.read_table(PATH, encoding=give, **kw))
    except UnicodeError:
        raise Skip("undecodable")
    path = [PATH, pathlib.Path(PATH), os.path.abspath(PATH)][case["pathkind"] % 3]
    fixed = dict(kw, dtype=str, keep_default_na=False)
    if give or case.get("none"):
        fixed["encoding"] = give

    def frame_of(**k):
        k = dict(fixed, **k)
        before = copy.deepcopy(k)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            df = clevercsv.read_dataframe(path, **k)
        eq(k, before, "the arguments")
        return df

    if kind == "NoDetectionResult":
        eq(call(frame_of)[0], kind, "read_dataframe where detection fails")
        return ["NoDetectionResult"]
    if kind == "Error" or not regular(rows) or dec.startswith("\ufeff"):
        return ["not a regular table"]
    dia = clevercsv.detect_dialect(PATH, encoding=give, **kw)
    d, q, e = comps(dia)
    if e and not plain_escapes(dec, d, q, e):
        return ["escape before other characters"]
    if not files.distinct(d, q, e):
        return ["overlapping components"]
    try:
        sep = d or next(c for c in map(chr, range(1, 2000)) if c not in dec and c not in "\r\n")
        if list(csv.reader(files.lines(dec), delimiter=sep, quotechar=q or None, escapechar=e or None, quoting=csv.QUOTE_MINIMAL if q else csv.QUOTE_NONE, strict=True)) != rows:
            return ["not well-formed"]
    except csv.Error:
        return ["not well-formed"]
    df = cut("read_dataframe", frame_of)
    cols, vals = frame(df)
    eq(cols, rows[0], "columns, dialect %r" % ((d, q, e),))
    eq(vals, rows[1:], "values, dialect %r, %s" % ((d, q, e), short(repr(fixed))))
    eq(files.open_fds(PATH), [], "descriptors left open")
    lab = ["single column" if len(cols) == 1 else "several columns", "delimiter %r" % d]
    opt = case["opt"] % 8
    if opt == 1:
        cols, vals = frame(cut("read_dataframe(header=None)", frame_of, header=None))
        eq((cols, vals), (list(range(len(rows[0]))), rows), "header=None")
    elif opt == 2:
        k = case["optn"] % (len(rows) + 1)
        eq(frame(cut("read_dataframe(nrows)", frame_of, nrows=k))[1], rows[1:][:k], "nrows=%d" % k)
    elif opt == 3:
        k = case["optn"] % len(rows[0])
        got = frame(cut("read_dataframe(usecols)", frame_of, usecols=[rows[0][k]]))
        eq(got, ([rows[0][k]], [[r[k]] for r in rows[1:]]), "usecols=[%r]" % rows[0][k])
    elif opt == 4:
        names = ["n%d" % i for i in range(len(rows[0]))]
        got = frame(cut("read_dataframe(names)", frame_of, names=names, header=0))
        eq(got, (names, rows[1:]), "names, header=0")
    elif opt == 5 and len(rows[0]) > 1:
        df = cut("read_dataframe(index_col)", frame_of, index_col=0)
        eq(frame(df), (rows[0][1:], [r[1:] for r in rows[1:]]), "columns left with index_col=0")
    elif opt == 6:
        size = case["optn"] % 4 + 1
        got = []
        for part in cut("read_dataframe(chunksize)", frame_of, chunksize=size):
            got += frame(part)[1]
        eq(got, rows[1:], "chunks")
    eq(open(PATH, "rb").read(), text.encode(enc), "bytes of the file afterwards")
    os.unlink(PATH)
    if len(rows) > 1:
        lab.append("NT")
    if any(x in c for r in rows for c in r for x in "\r\n"):
        lab.append("embedded line break")
    if n and n < len(dec):
        lab.append("num_chars below the length")
    if e:
        lab.append("escape character" if d else "escape character, single column")
    if opt:
        lab.append("pandas argument")
    return lab


def escapes(rng):
    """A table with escaped characters."""
    d, q, e = rng.choice(["", ",", ",", ";", "|", "\t"]), rng.choice(['"', "'", ""]), rng.choice("\\\\\\@§")
    m = 1 if not d else rng.choice([1, 2, 3])
    if not d:
        q = q or '"'
        cells = ["x", "ab", "12", "ab%s%sc" % (e, q), "ab%s%sc" % (e, q), "a%s%sb" % (e, e), "z z"]
        t = "\n".join(q + c + q for c in ["name"] + [rng.choice(cells) for _ in range(rng.randint(1, 4))])
        return t + rng.choice(["", "\n"])

    def word():
        return "".join(rng.choice("abcdefgh1") for _ in range(rng.randint(1, 5)))

    def cell():
        w = word()
        quoted = q and rng.random() < (0.6 if d else 0.9)
        r = rng.random()
        if r < 0.45:
            w += "".join(e + rng.choice([x for x in (d, q, q, e) if x]) + word() for _ in range(rng.choice([1, 1, 2])))
            if rng.random() < 0.3:
                w += e + rng.choice([x for x in (d, q, e) if x])
        elif r < 0.55 and quoted and d:
            w += d + word()
        elif r < 0.6:
            w += rng.choice([" ", "-", "."]) + word()
        return q + w + q if quoted else w

    rows = [[word() + str(j) for j in range(m)]] + [[cell() for _ in range(m)] for _ in range(rng.randint(1, 8))]
    return "\n".join(d.join(r) for r in rows) + rng.choice(["", "\n"])


def gen(rng):
    enc = rng.choice(files.ENCODINGS)
    r = rng.random()
    if r < 0.13:
        t = escapes(rng)
    elif r < 0.5:
        d = rng.choice(",,;\t||: ^~") if rng.random() < 0.9 else rng.choice("¦§")
        q = rng.choice(['"', '"', "'", ""])
        nl = rng.choice(["\n", "\n", "\r\n", "\r"])
        m, n = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 4, 8])
        kinds = [rng.choice(["int", "word", "words", "float", "date"]) for _ in range(m)]
        rows = [["%s%d" % (texts.TYPED["word"](rng), j) for j in range(m)]]
        for _ in range(n):
            row = [texts.TYPED[k](rng) for k in kinds]
            if rng.random() < 0.2 and m > 1:
                row[rng.randrange(m)] = ""
            if q and rng.random() < 0.35:
                row[rng.randrange(m)] += rng.choice([d + "x", q + "y" + q, q, nl + "z", "\n", "\r\n", " ", d])
            rows.append(row)
        all_q = rng.random() < 0.3
        t = nl.join(d.join(q + c.replace(q, q + q) + q if q and (all_q or any(x in c for x in (d, q, "\n", "\r"))) else c for c in row) for row in rows) + rng.choice(["", nl])
    else:
        t = files.table_text(rng, simple=0.8)
    if rng.random() < 0.08:
        # a single column with characters that may look free
        odd = rng.sample([chr(x) for x in [*range(1, 9), *range(0x0e, 0x20)]], rng.choice([1, 4, 8, 12]))
        if rng.random() < 0.5:
            odd = [chr(x) for x in range(0x1f, rng.choice([0x1b, 0x17, 0x11]), -1)]
        t = "\n".join(["name"] + [texts.TYPED["word"](rng) + "".join(rng.sample(odd, rng.randint(0, min(2, len(odd))))) for _ in range(6)] + ["a" + c + "b" for c in odd])
    if rng.random() < 0.3:
        t = files.wide(rng, t)
    if rng.random() < 0.03:
        t = files.long(rng, t)
    return {"enc": enc, "text": t, "give": rng.random() < 0.6, "num": rng.choice([None, None, None, 0, 5, 20, 50, len(t), 10 ** 6]),
            "pathkind": rng.randint(0, 2), "opt": rng.randint(0, 7), "optn": rng.randint(0, 9),
            "none": rng.random() < 0.3}


def check_path(case):
    k = case["kind"] % 4
    for p in ("c23d", "c23f", "c23l"):
        if os.path.isdir(p) and not os.path.islink(p):
            os.rmdir(p)
        elif os.path.lexists(p):
            os.unlink(p)
    if k == 0:
        path = "c23missing.csv"
    elif k == 1:
        os.mkdir("c23d")
        path = "c23d"
    elif k == 2:
        os.mkfifo("c23f")
        path = "c23f"
    else:
        os.symlink("c23missing.csv", "c23l")
        path = "c23l"
    path = [path, pathlib.Path(path), os.path.abspath(path)][case["form"] % 3]
    kw = [{}, {"encoding": "utf-8"}, {"num_chars": 10}][case["kw"] % 3]
    try:
        clevercsv.read_dataframe(path, **kw)
    except ValueError:
        return ["NT"]
    except OSError as e:
        raise Violation("read_dataframe raised %s" % type(e).__name__)
    raise Violation("read_dataframe read something that is no regular file")


def gen_path(rng):
    return {"kind": rng.randint(0, 3), "form": rng.randint(0, 2), "kw": rng.randint(0, 2)}


def gen_huge(rng):
    return dict(gen(rng), text=files.huge(rng), enc=rng.choice(["utf-8", "utf-8", "utf-16"]), num=rng.choice([None, None, None, 0, 10 ** 6, 10 ** 7]))


def check_undecodable(case):
    """Bytes that the given encoding cannot decode, after the ones that the dialect is detected on."""
    enc, n = case["enc"], case["n"]
    if enc not in ("ascii", "utf-8", "utf_8", "US-ASCII") or not isinstance(n, int) or not 0 <= n <= 20000:
        return []
    unit = case["unit"]
    if not isinstance(unit, str) or not unit.isascii() or not 2 <= len(unit) <= 80 or not unit.endswith("\n"):
        return []
    bad = [b"caf\xe9,1\n", b"\xff,2\n", b"a,\xe2\x82\n"][case["bad"] % 3]
    files.write(PATH, ("name,size\n" + unit * n).encode("ascii") + bad + unit.encode("ascii") * 3)
    kw = {"encoding": enc, "num_chars": case["num"]}
    try:
        clevercsv.read_table(PATH, **kw)
        return ["decodable"]
    except UnicodeError:
        pass
    except clevercsv.Error:
        return ["Error"]
    fixed = {} if case["plain"] else {"dtype": str, "keep_default_na": False}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            df = clevercsv.read_dataframe(PATH, **kw, **fixed)
    except Exception:
        return ["NT"]
    raise Violation("read_dataframe of a file that %s cannot decode (read_table raises UnicodeError) gave %d rows" % (enc, len(df)))


def gen_undecodable(rng):
    return {"enc": rng.choice(["ascii", "utf-8", "utf_8", "US-ASCII"]), "n": rng.choice([0, 3, 1200, 3000, 9000]), "num": rng.choice([20, 100, 1000]),
            "unit": rng.choice(["ab,12\n", "some words,3.5\n", "cd,7\n"]), "bad": rng.randint(0, 2), "plain": rng.random() < 0.5}


PARTS = [
    Part("huge", gen_huge, check, 8, 160, rule="a regular table with rows below the header", shrink_tries=40),
    Part("frames", gen, check, 7000, 150000, rule="a regular table with at least one row below the header"),
    Part("paths", gen_path, check_path, 100, 100, rule="every case"),
    Part("undecodable", gen_undecodable, check_undecodable, 120, 2000, rule="the file cannot be decoded in full"),
]
