"""C28: the rows that 'clevercsv view' hands to the viewer, against read_table."""
import fcntl
import itertools
import os
import pty
import re
import select
import signal
import struct
import sys
import termios
import time

import clevercsv
from clevercsv.exceptions import NoDetectionResult

from vlib import cli, files, gens, texts
from vlib.engine import Part, Violation, Skip, cut, eq, expect, short

ASSUMPTIONS = ["files decode with the encoding given or detected, and have no NUL",
               "the viewer (tabview) is replaced by a recorder, except in the part 'terminal'",
               "a cell is compared as the text that the viewer shows, str(cell)"]
BAD = "NoDetectionResult"
NAMES = ["c28.csv", "c28 with space.csv", "c28-é漢.csv", "c28'\".csv", "./-c28.csv", "c28 $HOME.csv", "c28[1]*?.csv", "~c28.csv", "c28%20{0}.csv", "c28.csv.gz", "C28#;&.CSV", "c28\\n.csv"]


def setting(case):
    enc, n = case["enc"], case["num"]
    name = NAMES[case["name"] % len(NAMES)]
    files.write(name, files.encodable(files.expand(case["text"]).replace("\0", ""), enc).encode(enc))
    kw = {}
    if n is not None:
        kw["num_chars"] = n
    if case["give"]:
        kw["encoding"] = enc
    return name, kw


def want_rows(name, kw, t):
    try:
        rows = clevercsv.read_table(name, **kw)
    except NoDetectionResult:
        return BAD, BAD
    except UnicodeError:
        raise Skip("undecodable")
    except clevercsv.Error:
        raise Skip("not readable")
    return rows, [list(r) for r in itertools.zip_longest(*rows, fillvalue="")] if t else rows


def command(case, name):
    style = case["style"]
    if not (isinstance(style, list) and style and all(type(x) is int and x >= 0 for x in style)):
        style = [0]
    groups = cli.options(style, e=("-e", "--encoding", case["enc"] if case["give"] else None), n=("-n", "--num-chars", case["num"]), t=("-t", "--transpose", bool(case["t"])))
    groups.append([name])
    k = style[0]
    groups = groups[k % len(groups):] + groups[:k % len(groups)]
    return ["view"] + [x for g in groups for x in g]


def record(args):
    import tabview
    import tabview.tabview as inner

    seen = []

    def view(data, *a, **k):
        seen.append([[c for c in r] for r in data])

    old = tabview.view, inner.view
    tabview.view = inner.view = view
    try:
        return cli.run(args), seen
    finally:
        tabview.view, inner.view = old


def shown(rows):
    return [[str(c) for c in r] for r in rows]


def check(case):
    if type(case["name"]) is not int:
        return []
    name, kw = setting(case)
    try:
        rows, want = want_rows(name, kw, case["t"])
        args = command(case, name)
        r, seen = record(args)
        what = "clevercsv %s: " % short(" ".join(args), 120)
        if r.exc is not None:
            raise Violation(what + "raised %s: %s" % (type(r.exc).__name__, short(str(r.exc), 150)))
        if rows is BAD:
            eq((r.code, seen), (1, []), what + "exit code and views where detection fails")
            expect(r.err.strip(), what + "no error on standard error")
            return ["None"]
        eq(r.code, 0, what + "exit code")
        eq(len(seen), 1, what + "views")
        eq(shown(seen[0]), want, what + "rows shown")
    finally:
        os.unlink(name)
    lab = ["NT" if rows else "empty"]
    if case["t"]:
        lab.append("transposed")
    if len({len(x) for x in rows}) > 1:
        lab.append("ragged")
    if rows and [] in rows:
        lab.append("blank lines")
    return lab


def file_text(rng):
    r = rng.random()
    if r < 0.4:
        t = files.table_text(rng, 0.7)
    elif r < 0.75:
        d = rng.choice([",", ";", "|", "\t"])
        q = rng.choice(['"', '"', "'"])
        nl = rng.choice(["\n", "\r\n", "\r"])
        cells = ["1", "2", "", "", "word", "None", q + "a" + d + "b" + q, q + "x" + nl + "y" + q, " s", "0.5", q + q, "0"]
        t = nl.join(d.join(rng.choice(cells) for _ in range(rng.choice([1, 2, 3, 3, 3, 4]))) if rng.random() < 0.85 else "" for _ in range(rng.randint(1, 7))) + rng.choice(["", nl])
    elif r < 0.85:
        t = rng.choice(["", "\n", "\r\n\r\n", "\n\n\n", " ", "\t\n", '""', "''\n", "a", "a\n\n"])
    else:
        t = texts.text(rng)
    if rng.random() < 0.15:
        t = files.wide(rng, t)
    if rng.random() < 0.03:
        t = files.long(rng, t)
    return t


def gen(rng):
    t = file_text(rng)
    return {"enc": rng.choice(files.ENCODINGS), "text": t, "name": rng.randrange(len(NAMES)), "give": rng.random() < 0.6, "t": rng.random() < 0.5,
            "num": rng.choice([None, None, None, 0, 3, 10, 40, len(t), 10 ** 6]), "style": [rng.randint(0, 11) for _ in range(rng.randint(1, 3))]}


# ------------------------------------------------------------ in a terminal

def session(args):
    """-> exit code, bytes of the terminal; the viewer is left with 'q'."""
    env = dict(os.environ, TERM="vt100")
    pid, fd = pty.fork()
    if pid == 0:
        try:
            fcntl.ioctl(0, termios.TIOCSWINSZ, struct.pack("HHHH", 50, 200, 0, 0))
            os.execve(sys.executable, [sys.executable, "-m", "clevercsv", *args], env)
        finally:
            os._exit(99)
    out, start, keys = b"", time.time(), 0
    try:
        while time.time() - start < 60:
            r, _, _ = select.select([fd], [], [], 0.5)
            if r:
                try:
                    d = os.read(fd, 65536)
                except OSError:
                    break
                if not d:
                    break
                out += d
            elif out and keys < 20:
                os.write(fd, b"q")
                keys += 1
        else:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise Skip("no end of the session")
    finally:
        os.close(fd)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]), out


def check_terminal(case):
    if type(case["name"]) is not int:
        return []
    cells = case["cells"]
    if not all(isinstance(r, list) and all(isinstance(c, str) and (c == "" or re.fullmatch(r"[a-z][0-9a-z]{0,7}", c)) for c in r) for r in cells):
        return []
    case = dict(case, text="\n".join(",".join(r) for r in cells), num=None)
    name, kw = setting(case)
    try:
        rows, want = want_rows(name, kw, case["t"])
        args = command(case, name)
        if rows is BAD:
            r = cli.run_process(args)
            eq(r.code, 1, "exit code where detection fails")
            return ["None"]
        try:
            code, out = session(args)
        except OSError:
            raise Skip("no terminal")
        if not any(want):
            eq(code, 0, "exit code for a table without cells, terminal %s" % short(out))
            return ["NT", "empty"]
        eq(code, 0, "exit code, terminal %s" % short(out))
        text = re.sub(rb"\x1b[=>]|\x1b[()].|\x1b\[[0-9;?]*[A-Za-z]|\$<\d+>", b" ", out).decode("utf-8", "replace")
        words = set(re.findall(r"[a-z][0-9a-z]*", text))
        for row in want:
            for c in row:
                if re.fullmatch(r"[a-z][0-9a-z]*", c):
                    expect(c in words, "%r is not on the screen: %s" % (c, short(text)))
        expect("None" not in text, "a cell is shown that the file doesn't have")
    finally:
        os.unlink(name)
    return ["NT"]


def gen_terminal(rng):
    n = itertools.count(rng.randint(10, 99))
    cells = [[(rng.choice("abcdef") + str(next(n))) if rng.random() < 0.9 else "" for _ in range(rng.choice([1, 2, 3, 3]))] for _ in range(rng.randint(0, 5))]
    return {"enc": "utf-8", "cells": cells, "name": rng.randrange(len(NAMES)), "give": rng.random() < 0.5, "t": rng.random() < 0.5, "style": [rng.randint(0, 11)]}


def gen_huge(rng):
    return dict(gen(rng), text=files.huge(rng), enc=rng.choice(["utf-8", "utf-8", "utf-16"]), num=rng.choice([None, None, None, 0, 10 ** 6, 10 ** 7]))


PARTS = [
    Part("huge", gen_huge, check, 8, 160, rule="the viewer gets rows, which are compared", shrink_tries=40),
    Part("view", gen, check, 6000, 150000, rule="the viewer gets rows, which are compared"),
    Part("terminal", gen_terminal, check_terminal, 16, 240, rule="tabview shows the cells in a terminal", shrink_tries=10),
]
