"""C25: the programs of 'clevercsv code' and the session of 'clevercsv explore'."""
import contextlib
import io
import json
import os
import subprocess
import sys
import warnings

import clevercsv
from clevercsv.exceptions import NoDetectionResult

from vlib import cli, files, gens, texts
from vlib.engine import Part, Violation, Skip, cut, eq, expect, short

ASSUMPTIONS = ["files decode with the encoding given or detected, and have no NUL; the components of the detected dialect are distinct",
               "pandas code is compared where read_dataframe itself succeeds"]
BAD = "NoDetectionResult"


def name_of(case):
    name = case["name"].replace("/", "_").replace("\0", "_")[:40]
    try:
        os.fsencode(name)
    except UnicodeError:
        name = name.encode("utf-8", "replace").decode()
    return "./c25" + name


def setting(case):
    enc, n = case["enc"], case["num"]
    name = name_of(case)
    text = files.encodable(files.expand(case["text"]).replace("\0", ""), enc)
    files.write(name, text.encode(enc))
    give = enc if case["give"] else None
    kw = {}
    if n is not None:
        kw["num_chars"] = n
    if give:
        kw["encoding"] = give
    return name, give, kw


def arguments(case, command, name, give):
    style = case["style"] or [0]
    if not isinstance(style, list) or not all(isinstance(x, int) and x >= 0 for x in style):
        style = [0]
    groups = cli.options(style, e=("-e", "--encoding", give), n=("-n", "--num-chars", case["num"]), p=("-p", "--pandas", bool(case["pandas"])))
    groups.append([name])
    k = style[0]
    groups = groups[k % len(groups):] + groups[:k % len(groups)]
    return [command] + [x for g in groups for x in g]


def expected(case, name, kw):
    """-> kind, data: what the helper functions return."""
    try:
        if case["pandas"]:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    df = clevercsv.read_dataframe(name, **kw)
                except (NoDetectionResult, clevercsv.Error, UnicodeError):
                    raise
                except Exception:
                    raise Skip("not readable by pandas")
            return "df", df
        return "rows", clevercsv.read_table(name, **kw)
    except NoDetectionResult:
        return BAD, None
    except UnicodeError:
        raise Skip("undecodable")
    except clevercsv.Error:
        return "Error", None


def same(kind, got, want, what):
    if kind == "rows":
        eq(got, want, what)
    else:
        eq((list(got.columns), list(map(str, got.dtypes)), len(got)), (list(want.columns), list(map(str, want.dtypes)), len(want)), "columns, types and length of " + what)
        expect(got.equals(want), what + " is not equal to read_dataframe's")


def dialect_of(name, kw):
    try:
        return clevercsv.detect_dialect(name, **kw)
    except clevercsv.Error:
        raise Skip("a NUL after decoding")
    except UnicodeError:
        raise Skip("undecodable")


def check(case):
    name, give, kw = setting(case)
    try:
        dia = dialect_of(name, kw)
        kind, want = expected(case, name, kw)
        if dia is not None and not files.distinct(dia.delimiter, dia.quotechar, dia.escapechar):
            return ["overlapping components"]
        args = arguments(case, "code", name, give)
        r = cli.run(args)
        if r.exc is not None:
            raise Violation("clevercsv %r raised %s: %s" % (args, type(r.exc).__name__, r.exc))
        if kind == BAD:
            eq((r.code, r.out), (1, ""), "exit code and standard output where detection fails")
            expect(r.err.strip(), "no error on standard error")
            return ["None"]
        eq((r.code, r.err), (0, ""), "exit code and standard error")
        try:
            prog = compile(r.out, "generated", "exec")
        except (SyntaxError, ValueError) as e:
            raise Violation("the program doesn't compile (%s): %s" % (e, short(r.out)))
        ns = {"__name__": "__main__"}
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                exec(prog, ns)
        except clevercsv.Error as e:
            eq("Error", kind, "outcome of the program")
            return ["Error"]
        except Exception as e:
            raise Violation("the program raised %s (%s): %s" % (type(e).__name__, short(str(e), 100), short(r.out)))
        expect(kind != "Error", "the program succeeds where read_table raises Error")
        expect(kind in ns, "the program doesn't define %s: %s" % (kind, short(r.out)))
        same(kind, ns[kind], want, "%s of the program %s" % (kind, short(r.out)))
    finally:
        os.unlink(name)
    lab = ["NT", kind]
    if any(c in case["name"] for c in "\\\"'\t\n") or not case["name"].isascii():
        lab.append("unusual name")
    if any(x in ("\t", "\\", '"', "'") or x and not x.isascii() for x in (dia.delimiter, dia.quotechar, dia.escapechar)):
        lab.append("unusual dialect")
    if case["num"] or give:
        lab.append("options")
    return lab


def text_of(rng):
    r = rng.random()
    if r < 0.25:
        d = rng.choice(["\t", " ", "\\", "\u2028", "é", "=", "\u3000", "{", "\U0001f600", "%", "\x85", "\x0b", "\x07", "\x1b"])
        q = rng.choice(["", '"', "'", "`", "~"])
        e = rng.choice(["", "\\", "\\", "@"])
        cell = lambda: q + str(rng.randint(0, 99)) + (e + q + "x" + e + q if e and q and rng.random() < 0.5 else "") + q
        t = rng.choice(["\n", "\r\n", "\r"]).join(d.join(cell() for _ in range(3)) for _ in range(rng.randint(1, 5)))
    elif r < 0.4:
        t = texts.tie(rng)
    else:
        t = files.table_text(rng)
    if rng.random() < 0.2:
        t = files.wide(rng, t)
    if rng.random() < 0.03:
        t = files.long(rng, t)
    return t


def name_text(rng):
    r = rng.random()
    if r < 0.3:
        return ".csv"
    pool = ["'", '"', "\\", "\t", "\n", "é", "漢", "😀", " ", "{x}", "%s", "\\n", "\\t", "\\x", "\\N", "\\u", "a", '"""', "'''", "\u2028", "\x85", "#", "$", "\\'", '\\"', "\udcff", "\x1b", "\r", "`", ";"]
    return "".join(rng.choice(pool) for _ in range(rng.randint(1, 5))) + rng.choice([".csv", "", "\\"])


def gen(rng):
    t = text_of(rng)
    return {"enc": rng.choice(files.ENCODINGS), "text": t, "name": name_text(rng), "give": rng.random() < 0.6,
            "num": rng.choice([None, None, None, 0, 3, 5, 20, 50, len(t), 10 ** 6]), "pandas": rng.random() < 0.35, "style": [rng.randint(0, 5) for _ in range(rng.randint(1, 3))]}


# ------------------------------------------------------------ explore

def check_explore(case):
    name, give, kw = setting(case)
    out = "c25.out"
    if os.path.exists(out):
        os.unlink(out)
    stdin = sys.stdin
    try:
        kind, want = expected(case, name, kw)
        if kind == "Error":
            return ["Error"]
        dia = dialect_of(name, kw)
        if dia is not None and not files.distinct(dia.delimiter, dia.quotechar, dia.escapechar):
            return ["overlapping components"]
        dump = "_p.dump(%s, open('c25.out', 'wb'))" % ("df" if case["pandas"] else "rows")
        sys.stdin = io.StringIO("import pickle as _p\n" + dump + "\n")
        args = arguments(case, "explore", name, give)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = cli.run(args)
        if r.exc is not None:
            raise Violation("clevercsv %r raised %s: %s" % (args, type(r.exc).__name__, r.exc))
        if kind == BAD:
            eq(r.code, 1, "exit code where detection fails")
            expect(r.err.strip(), "no error on standard error")
            expect(not os.path.exists(out), "a session was started")
            return ["None"]
        eq(r.code, 0, "exit code")
        expect(os.path.exists(out), "no data in the session: %s %s" % (short(r.out), short(r.err)))
        import pickle

        with open(out, "rb") as fp:
            try:
                got = pickle.load(fp)
            except Exception:
                raise Violation("the session has no complete data: %s" % short(r.err))
        same(kind, got, want, kind + " of the session")
    finally:
        sys.stdin = stdin
        os.unlink(name)
    return ["NT", kind]


# ------------------------------------------------------------ as a process

def check_process(case):
    name, give, kw = setting(case)
    try:
        kind, want = expected(dict(case, pandas=False), name, kw)
        if kind != "rows":
            raise Skip("no rows")
        dia = clevercsv.detect_dialect(name, **kw)
        if not files.distinct(dia.delimiter, dia.quotechar, dia.escapechar):
            return ["overlapping components"]
        r = cli.run_process(arguments(dict(case, pandas=False), "code", name, give))
        eq(r.code, 0, "exit code of the process, standard error %r" % short(r.err.decode("utf-8", "replace")))
        files.write("c25prog.py", r.out + b"\nimport json\nprint(json.dumps(rows))\n")
        p = subprocess.run([sys.executable, "c25prog.py"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=dict(os.environ))
        eq(p.returncode, 0, "exit code of the program, standard error %r" % short(p.stderr.decode("utf-8", "replace")))
        eq(json.loads(p.stdout), want, "rows of the program")
    finally:
        os.unlink(name)
    return ["NT"]


def gen_huge(rng):
    return dict(gen(rng), text=files.huge(rng), enc=rng.choice(["utf-8", "utf-8", "utf-16"]), num=rng.choice([None, None, None, 0, 10 ** 6, 10 ** 7]))


PARTS = [
    Part("huge code", gen_huge, check, 8, 160, rule="a dialect is detected and the program is run", shrink_tries=40),
    Part("huge explore", gen_huge, check_explore, 8, 160, rule="a dialect is detected and a session is started", shrink_tries=40),
    Part("code", gen, check, 4000, 120000, rule="a dialect is detected and the program is run"),
    Part("explore", gen, check_explore, 1600, 40000, rule="a dialect is detected and a session is started"),
    Part("process", gen, check_process, 24, 500, rule="the program of a process is run in another process", shrink_tries=40),
]
