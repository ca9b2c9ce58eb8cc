"""C26: standardize against csv.writer's excel dialect on the rows of read_table."""
import csv
import io
import itertools
import locale
import os
import shutil
import sys

import clevercsv
from clevercsv.encoding import get_encoding
from clevercsv.exceptions import NoDetectionResult

from vlib import cli, files, gens, texts
from vlib.engine import Part, Violation, Skip, cut, eq, expect, short

ASSUMPTIONS = ["files decode with the encoding given or detected, and have no NUL; outputs are no later inputs; reading the table raises no Error",
               "standard output has the encoding of the terminal, -E applies to files"]
BAD = "NoDetectionResult"
NAMES = ["c26a.csv", "c26 b.csv", "c26é漢.csv", "c26d/c26.csv"]
ODD = ["c26 $HOME.csv", "c26[ab]*?.csv", "c26%20{0}~.csv", "c26d/c26.csv"]


def standard(rows, transpose):
    if transpose:
        rows = [list(r) for r in itertools.zip_longest(*rows, fillvalue="")]
    out = io.StringIO(newline="")
    w = csv.writer(out, dialect="excel", lineterminator="\r\n", quoting=csv.QUOTE_MINIMAL)
    for r in rows:
        w.writerow(r)
    return out.getvalue(), rows


def rows_of(name, enc, n):
    kw = {}
    if enc:
        kw["encoding"] = enc
    if n is not None:
        kw["num_chars"] = n
    try:
        dia = clevercsv.detect_dialect(name, **kw)
        rows = clevercsv.read_table(name, **kw) if dia is not None else BAD
    except NoDetectionResult:
        return BAD, None
    except (UnicodeError, clevercsv.Error):
        raise Skip("not readable")
    if dia is not None and not files.distinct(dia.delimiter, dia.quotechar, dia.escapechar):
        raise Skip("overlapping components")
    return rows, dia


def snapshot():
    out = {}
    for top, dirs, names in os.walk("."):
        for f in names:
            p = os.path.join(top, f)
            if not os.path.basename(p).startswith("c26") and "c26d" not in p:
                continue
            st = os.stat(p)
            with open(p, "rb") as fp:
                out[p] = (fp.read(), st.st_mtime_ns, st.st_ino, st.st_mode)
    return out


def clear():
    for f in os.listdir("."):
        if f == "c26d":
            shutil.rmtree(os.path.abspath(f))
        elif f.startswith("c26") or f.startswith("clevercsv_"):
            os.unlink(f)
    os.mkdir("c26d")


def style_of(case):
    s = case["style"]
    return s if isinstance(s, list) and s and all(type(x) is int and x >= 0 for x in s) else [0]


def prepare(case):
    """Writes the inputs; -> names, encodings per file (None: detected), -e values, outputs."""
    fs = case["files"]
    names = (ODD if case.get("odd") else NAMES)[:len(fs)]
    if case.get("rep") and type(case["rep"]) is int and len(fs) > 1 and case["mode"] in ("stdout", "out"):
        # the same input more than once
        names[1:] = [names[0] if case["rep"] >> j & 1 else n for j, n in enumerate(names[1:])]
        if case["encs"] == "each":
            fs = [fs[names.index(n)] for n in names]
    how = case["encs"]
    if how == "one":
        fs = [dict(f, enc=fs[0]["enc"]) for f in fs]
    texts_ = []
    for n, f in zip(names, fs):
        t = files.encodable(files.expand(f["text"]).replace("\0", ""), f["enc"])
        texts_.append(t)
        files.write(n, t.encode(f["enc"]))
    encs = [f["enc"] if how != "none" else None for f in fs]
    flags = [] if how == "none" else [fs[0]["enc"]] if how == "one" else [f["enc"] for f in fs]
    return names, encs, flags


def command(case, names, flags, outputs, in_place):
    style = style_of(case)
    groups = cli.options(style, E=("-E", "--target-encoding", case["E"]), n=("-n", "--num-chars", case["num"]),
                         t=("-t", "--transpose", bool(case["t"])), i=("-i", "--in-place", in_place))
    k = style[0]
    o = [[("-o", "--output")[(k + j) % 2], x] for j, x in enumerate(outputs)]
    e = [[("-e", "--encoding")[(k // 2 + j) % 2], x] for j, x in enumerate(flags)]
    groups = groups + o + e if k % 3 else e + groups + o
    groups = [[*names], *groups] if k % 2 else [*groups, [*names]]
    return ["standardize"] + [x for g in groups for x in g]


def check(case):
    clear()
    if not case["files"]:
        return []
    names, encs, flags = prepare(case)
    mode = case["mode"]
    if mode not in ("stdout", "out", "inplace", "same"):
        return []
    if mode == "stdout":
        case = dict(case, E=None)
    outputs = ["c26out%d.csv" % j for j in range(len(names))] if mode == "out" else list(names) if mode == "same" else []
    if mode == "out" and case["pre"]:
        for j, o in enumerate(outputs):
            if case["pre"] == 2:
                # a link to the file that is to be written
                files.write("c26d/old%d.csv" % j, b"old content;" * 2000)
                os.symlink("c26d/old%d.csv" % j, o)
            else:
                files.write(o, b"old content;" * 2000)
    link = case.get("link", 0)
    if mode == "same" and link:
        # the outputs are the inputs under other names
        outputs = []
        for j, n in enumerate(names):
            o = "c26out%d.csv" % j
            if link == 1:
                os.symlink(n, o)
            elif link == 2:
                os.link(n, o)
            else:
                o = ["./" + n, os.path.abspath(n)][link % 2]
            outputs.append(o)
    want = []
    for n, e in zip(names, encs):
        rows, dia = rows_of(n, e, case["num"])
        if rows is BAD:
            want.append(None)
            break
        text, rows = standard(rows, case["t"])
        try:
            target = case["E"] or e or get_encoding(n) or locale.getpreferredencoding(False)
            data = io.TextIOWrapper(io.BytesIO(), encoding=target, newline="")
            data.write(text)
            data.flush()
            data = data.buffer.getvalue()
        except UnicodeError:
            raise Skip("the target encoding cannot represent the data")
        want.append((text, rows, dia, target, data))
    before = {n: open(n, "rb").read() for n in names}
    args = command(case, names, flags, outputs, mode == "inplace")
    r = cli.run(args)
    what = "clevercsv %s: " % short(" ".join(args), 120)
    if r.exc is not None:
        raise Violation(what + "raised %s: %s" % (type(r.exc).__name__, short(str(r.exc), 150)))
    good = [w for w in want if w is not None]
    if None in want:
        eq(r.code, 1, what + "exit code where detection fails")
        expect(r.err.strip(), what + "no error on standard error")
    else:
        # an encoding with a byte order mark leaves open whether it is written for an empty text
        now = {n: open(n, "rb").read() for n in names}
        changed = mode == "inplace" and any(before[n] != (w[4] if w[0] else now[n]) for n, w in zip(names, want))
        eq(r.code, 2 if changed else 0, what + "exit code")
        eq(r.err, "", what + "standard error")
    if mode == "stdout":
        eq(r.out, "".join(w[0] for w in good), what + "standard output")
    else:
        eq(r.out, "", what + "standard output")
    places = outputs if mode in ("out", "same") else names if mode == "inplace" else []
    for p, w in zip(places, good):
        with open(p, "rb") as fp:
            got = fp.read()
        if mode == "out" and case["pre"] == 2:
            with open("c26d/old%d.csv" % places.index(p), "rb") as fp:
                expect(fp.read() == got, what + "the file that %s links to was not written" % p)
        if got != w[4]:
            if w[0] == "" == got.decode(w[3]):
                continue
            try:
                eq(got.decode(w[3]), w[0], what + "content of %s" % p)
            except UnicodeError:
                pass
            raise Violation(what + "%s has the bytes %s, not %s in %s" % (p, short(got), short(w[4]), w[3]))
        back = list(csv.reader(io.StringIO(got.decode(w[3]), newline=""), dialect="excel"))
        eq(back, [list(x) for x in w[1]], what + "rows that csv.reader reads back")
    for n in names:
        if mode in ("stdout", "out"):
            expect(open(n, "rb").read() == before[n], what + "the input %s changed" % n)
    if None in want and mode in ("inplace", "same"):
        k = want.index(None)
        expect(open(names[k], "rb").read() == before[names[k]], what + "the input %s changed though detection failed" % names[k])
    left = sorted(os.listdir(".")) + sorted(os.listdir("c26d"))
    extra = [f for f in left if (f.startswith("c26") or f.startswith("clevercsv_")) and f not in outputs and f not in names and f not in ("c26d", "c26.csv")]
    eq(extra, [], what + "other files")
    lab = [mode] + (["NT"] if good else [])
    if None in want:
        lab.append("None")
    # once more, where the output is detected as what it is
    if good and mode == "inplace" and None not in want and not case["t"]:
        stable = []
        for n, w in zip(names, want):
            try:
                rows = clevercsv.read_table(n, encoding=w[3], **({} if case["num"] is None else {"num_chars": case["num"]}))
            except (NoDetectionResult, clevercsv.Error, UnicodeError):
                rows = None
            stable.append(rows == [list(x) for x in w[1]])
        for n, w, s in zip(names, want, stable):
            if not s or w[0] == "":
                continue
            st = os.stat(n)
            again = ["standardize", "-i", "-e", w[3], n] + ([] if case["num"] is None else ["-n", str(case["num"])])
            r = cli.run(again)
            if r.exc is not None:
                raise Violation("once more raised %s" % type(r.exc).__name__)
            eq(r.code, 0, "exit code of standardising once more")
            st2 = os.stat(n)
            eq((open(n, "rb").read(), st2.st_mtime_ns, st2.st_ino), (w[4], st.st_mtime_ns, st.st_ino), "file after standardising once more")
            lab.append("idempotent")
    if case["t"] and len({len(x) for w in good for x in w[1]}) and good:
        lab.append("transposed")
    if any(len(x) != len(w[1][0]) for w in good for x in w[1]):
        lab.append("ragged")
    if any('"' in w[0] for w in good):
        lab.append("quotes")
    return lab


def file_text(rng):
    r = rng.random()
    if r < 0.55:
        t = files.table_text(rng, 0.7)
    elif r < 0.7:
        # ragged, with blank lines and cells that need quotes
        d = rng.choice([",", ";", "|", "\t"])
        q = rng.choice(['"', '"', "'"])
        nl = rng.choice(["\n", "\r\n", "\r"])
        cells = ["1", "2", "", "", "word", q + "a" + d + "b" + q, q + "x" + nl + "y" + q, "a,b" if d != "," else "ab", q + q + q + "q" + q + q + q, " s", '"' if q != '"' else "'", "0.5", q + "\r" + q]
        t = nl.join(d.join(rng.choice(cells) for _ in range(rng.choice([1, 2, 3, 3, 3, 4]))) if rng.random() < 0.9 else "" for _ in range(rng.randint(1, 7))) + rng.choice(["", nl])
    elif r < 0.85:
        # standard already, or nearly
        rows = [[rng.choice(["1", "22", "word", "a,b", 'q"q', "x\ny", "", "x y"]) for _ in range(3)] for _ in range(rng.randint(1, 6))]
        t = standard(rows, False)[0]
        if rng.random() < 0.4 and t:
            k = rng.randrange(len(t))
            t = t[:k] + rng.choice(["", "\n", '"', "\r\n", ","]) + t[k + rng.randint(0, 1):]
    else:
        t = texts.text(rng)
    if rng.random() < 0.15:
        t = files.wide(rng, t)
    if rng.random() < 0.03:
        t = files.long(rng, t)
    return t


TARGETS = ["utf-8", "utf-16", "latin-1", "utf-8-sig", "gb18030", "ascii", "utf-32-be"]


def gen(rng):
    k = rng.choice([1, 1, 1, 2, 3, 4])
    fs = [{"enc": rng.choice(files.ENCODINGS), "text": file_text(rng)} for _ in range(k)]
    return {"odd": rng.random() < 0.15, "files": fs, "encs": rng.choice(["none", "one", "each", "each"]), "mode": rng.choice(["stdout", "out", "out", "inplace", "inplace", "same"]),
            "link": rng.randint(0, 4), "rep": rng.randint(1, 7) if rng.random() < 0.15 else 0, "E": rng.choice([None, None] + TARGETS), "t": rng.random() < 0.35, "pre": rng.choice([0, 0, 0, 1, 2]),
            "num": rng.choice([None, None, None, None, 0, 3, 10, 40, 10 ** 6]), "style": [rng.randint(0, 11) for _ in range(rng.randint(1, 3))]}


# ------------------------------------------------------------ conflicts

def gen_conflict(rng):
    c = gen(rng)
    c["files"] = c["files"][:rng.randint(1, 4)]
    c["kind"] = rng.choice(["io", "o", "e", "both"])
    c["m"] = rng.randint(1, 6)
    return c


def check_conflict(case):
    clear()
    if not case["files"]:
        return []
    names, encs, flags = prepare(dict(case, encs="each"))
    k, m, kind = len(names), case["m"], case["kind"]
    if type(m) is not int or m < 1:
        return []
    outputs, in_place = [], False
    if kind == "io":
        in_place, outputs = True, ["c26out%d.csv" % j for j in range(m)]
        flags = flags if case["t"] else []
    elif kind == "o":
        if m == k:
            return []
        outputs = ["c26out%d.csv" % j for j in range(m)]
    elif kind in ("e", "both"):
        if m == 1 or m == k:
            return []
        flags = ["utf-8"] * m
        in_place = kind == "both"
        if not in_place and case["pre"]:
            outputs = ["c26out%d.csv" % j for j in range(k)]
    if case["pre"]:
        for o in outputs:
            files.write(o, b"old content")
    before = snapshot()
    args = command(case, names, flags, outputs, in_place)
    r = cli.run(args)
    what = "clevercsv %s: " % short(" ".join(args), 120)
    if r.exc is not None:
        raise Violation(what + "raised %s: %s" % (type(r.exc).__name__, short(str(r.exc), 150)))
    eq((r.code, r.out), (1, ""), what + "exit code and standard output")
    expect(r.err.strip(), what + "no error on standard error")
    after = snapshot()
    eq(sorted(after), sorted(before), what + "files")
    for p in before:
        expect(before[p] == after[p], what + "%s changed" % p)
    return ["NT", kind]


# ------------------------------------------------------------ as a process

def check_process(case):
    clear()
    if not case["files"]:
        return []
    case = dict(case, files=case["files"][:2])
    names, encs, flags = prepare(case)
    want = b""
    for n, e in zip(names, encs):
        rows, dia = rows_of(n, e, case["num"])
        if rows is BAD:
            raise Skip("no dialect")
        want += standard(rows, case["t"])[0].encode("utf-8")
    args = command(dict(case, E=None), names, flags, [], False)
    r = cli.run_process(args, env={"PYTHONIOENCODING": "utf-8"})
    eq((r.code, r.err), (0, b""), "exit code and standard error of clevercsv %s" % short(" ".join(args), 120))
    eq(r.out, want, "bytes on standard output")
    return ["NT"]


def gen_huge(rng):
    c = gen(rng)
    fs = [{"enc": rng.choice(["utf-8", "utf-8", "utf-16"]), "text": files.huge(rng)} for _ in c["files"][:2]]
    return dict(c, files=fs, num=rng.choice([None, None, None, 0, 10 ** 6, 10 ** 7]))


PARTS = [
    Part("huge", gen_huge, check, 8, 160, rule="a dialect is detected for some file and its output is compared", shrink_tries=40),
    Part("standardize", gen, check, 3600, 120000, rule="a dialect is detected for some file and its output is compared"),
    Part("conflicts", gen_conflict, check_conflict, 500, 10000, rule="options conflict"),
    Part("process", gen, check_process, 24, 500, rule="the bytes of a process are compared", shrink_tries=40),
]
