"""C27: standardize -i with failures injected into its file operations."""
import csv
import io
import itertools
import json
import locale
import os
import shutil
import stat
import subprocess
import sys

import clevercsv
from clevercsv.encoding import get_encoding
from clevercsv.exceptions import NoDetectionResult

from vlib import cli, files, gens, texts
from vlib.engine import Part, Violation, Skip, cut, eq, expect, short
from props.c26 import standard

LEVEL = "fault_injection"
ASSUMPTIONS = ["failures are injected at the calls of the C library (open, read, write, close, rename, unlink, chmod and relatives) that touch the directory of the file, the temporary directory or the working directory; one failure per run, or a disk that stays full",
               "a file that cannot be removed (failing unlink), an ended process and an interrupt outside of the writing may leave a temporary file behind",
               "an interrupt after the replacement leaves the complete new content"]
SERVER = []
NAMES = ["c27.csv", "c27 b.csv", "c27é漢.csv"]
ODD = ["c27 $HOME.csv", "c27[ab]*?.csv", "~c27%20{0}.csv"]
# files of somebody else, with names that a careless temporary file might have
BYSTANDERS = ["c27.csv.tmp", "c27.csv~", "c27.csv.bak", "c27.csv.new", "c27.tmp", ".c27.csv.tmp", "clevercsv_c27.csv", "clevercsv_.csv", "tmp.csv", "tmp/clevercsv_.csv", "tmp/c27.csv"]
MODES = ["once", "sticky", "short", "kill", "killhalf", "intr"]


def setup(cfg):
    if SERVER:
        return
    import vlib

    here = os.path.dirname(vlib.__file__)
    so = os.path.abspath("faults.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(here, "faults.c"), "-ldl"], check=True)
    env = dict(os.environ, LD_PRELOAD=so)
    SERVER.append(subprocess.Popen([sys.executable, os.path.join(here, "faultserver.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env))


def ask(q):
    p = SERVER[0]
    p.stdin.write(json.dumps(q) + "\n")
    p.stdin.flush()
    r = p.stdout.readline()
    if not r:
        raise RuntimeError("the server died")
    return json.loads(r)


def content(f, enc):
    """-> bytes of the file: the text, a repeated row, and raw bytes."""
    text = files.encodable(f["text"], enc)
    row = files.encodable(f["row"], enc)
    out = text.encode(enc)
    if row and f["pad"]:
        bom = len("".encode(enc))
        out += (row * (f["pad"] // len(row) + 1)).encode(enc)[bom:]
    end = files.encodable(f["end"], enc)
    bom = len("".encode(enc))
    return out + end.encode(enc)[bom:] + f["raw"].encode("latin-1")


def expected(name, enc, n, target, t):
    """-> "fail" (no dialect), "error", or the bytes after standardising."""
    kw = {} if n is None else {"num_chars": n}
    try:
        if enc is not None:
            kw["encoding"] = enc
        dia = clevercsv.detect_dialect(name, **kw)
        if dia is None:
            return "fail"
        if not files.distinct(dia.delimiter, dia.quotechar, dia.escapechar):
            raise Skip("overlapping components")
        rows = clevercsv.read_table(name, **kw)
        tgt = target or enc or get_encoding(name) or locale.getpreferredencoding(False)
        text = standard(rows, t)[0]
        w = io.TextIOWrapper(io.BytesIO(), encoding=tgt, newline="")
        w.write(text)
        w.flush()
        return w.buffer.getvalue()
    except (UnicodeError, clevercsv.Error):
        return "error"
    except NoDetectionResult:
        return "fail"


def tree(top):
    out = {}
    for d, _, names in os.walk(top):
        for f in names:
            p = os.path.join(d, f)
            out[os.path.relpath(p, top)] = p
    return out


def judge(case, top, tmp, names, before, want, mode, a, op, what):
    """The predicate on the files after a run that went as 'a' says."""
    died = "died" in a
    code = None if died else a["code"]
    success = code in (0, 2)
    for n in BYSTANDERS:
        expect(os.path.exists(os.path.join(top, n)), what + "the unrelated file %s is gone" % n)
        with open(os.path.join(top, n), "rb") as fp:
            eq(fp.read(), b"unrelated", what + "content of the unrelated file %s" % n)
    perm = case["perm"] % len(PERMS)
    stopped = False
    altered = False
    for n, b, w in zip(names, before, want):
        p = os.path.join(top, n)
        expect(os.path.exists(p), what + "the file %s is gone" % n)
        with open(p, "rb") as fp:
            now = fp.read()
        if mode != "off" and op in "m" and now != b:
            pass
        else:
            eq(oct(stat.S_IMODE(os.stat(p).st_mode)), oct(PERMS[perm]), what + "permissions of %s" % n)
        if now == b:
            same = isinstance(w, bytes) and (w == b or not w.strip(b"\xff\xfe\xef\xbb\xbf\0"))
            if not same and success:
                raise Violation(what + "exit code %r, but %s was not standardised" % (code, n))
            if not isinstance(w, bytes) or not same:
                stopped = True
            continue
        altered = True
        if not isinstance(w, bytes):
            raise Violation(what + "%s changed though it cannot be standardised: %s" % (n, short(now)))
        if now != w:
            if len(now) < 8 and not w.strip(b"\xff\xfe\xef\xbb\xbf\0") and now.strip(b"\xff\xfe\xef\xbb\xbf\0") == b"":
                continue  # a byte order mark, or none
            raise Violation(what + "%s has neither its old content nor the complete new one: %d bytes (old %d, new %d)" % (n, len(now), len(b), len(w)))
    if success:
        eq(code, 2 if altered else 0, what + "exit code")
    elif not died:
        expect(code in (1, None), what + "exit code %r" % (code,))
        # the file at which it failed keeps its content
        goods = sum(isinstance(w, bytes) and w != b for b, w in zip(before, want))
        changed = 0
        for n, b in zip(names, before):
            with open(os.path.join(top, n), "rb") as fp:
                changed += fp.read() != b
        if mode not in ("off", "intr") and a["hit"] and op not in "ucs" and goods == len(names) and changed == goods:
            raise Violation(what + "fails after all files were changed")
    if not died and not (mode == "once" and op == "u") and not (mode == "intr" and (op != "w" or any(not isinstance(w, bytes) or w == b for b, w in zip(before, want)))):
        left = sorted(set(tree(top)) - set(names) - set(BYSTANDERS) - {"cwd/link.csv"}) + (sorted(tree(tmp)) if tmp else [])
        eq(left, [], what + "files left behind")


PERMS = [0o644, 0o600, 0o664, 0o755, 0o444, 0o640, 0o777, 0o400, 0o2644, 0o4711, 0o1600, 0o6755]


def check(case):
    fs = case["files"][:3]
    if not fs or not isinstance(case["perm"], int) or case["perm"] < 0:
        return []
    if not all(isinstance(f["pad"], int) and 0 <= f["pad"] <= 400000 and f["raw"].isascii() or max(map(ord, f["raw"]), default=0) < 256 for f in fs):
        return []
    if case["num"] is None and any(f["pad"] + len(f["end"]) + len(f["text"]) > 8000 for f in fs):
        return []  # detection on it would take long
    if case["mode"] not in MODES or not case["ks"]:
        return []
    names = (ODD if case.get("odd") else NAMES)[:len(fs)]
    top = os.path.abspath("c27")
    tmp = None
    if case.get("shm") and os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and os.stat("/dev/shm").st_dev != os.stat(".").st_dev:
        tmp = "/dev/shm/verif-c27-%d" % os.getpid()
    enc = case["enc"]

    def reset():
        if os.path.exists(top):
            shutil.rmtree(top)
        os.makedirs(top + "/tmp")
        os.makedirs(top + "/cwd")
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
        for n, b in zip(names, before):
            p = os.path.join(top, n)
            files.write(p, b)
            os.chmod(p, PERMS[case["perm"] % len(PERMS)])
        for n in BYSTANDERS:
            files.write(os.path.join(top, n), b"unrelated")
        if case["link"]:
            os.symlink(os.path.join("..", names[0]), top + "/cwd/link.csv")

    before = [content(f, enc) for f in fs]
    reset()
    try:
        give = enc if case["give"] else None
        want = []
        for n in names:
            want.append(expected(os.path.join(top, n), give, case["num"], case["E"], case["t"]))
        paths = [os.path.join("..", n) if case["rel"] else os.path.join(top, n) for n in names]
        if case["link"]:
            paths[0] = "link.csv"
        args = ["standardize", "-i", *paths]
        for o, v in (("-e", give), ("-E", case["E"]), ("-n", case["num"])):
            if v is not None:
                args += [o, str(v)]
        if case["t"]:
            args.append("-t")
        what = "standardize -i of %s" % short(" ".join(args[1:]).replace(top, ""), 100)
        q = {"args": args, "dir": top, "tmp": tmp or top + "/tmp", "cwd": top + "/cwd", "k": -1, "mode": "off"}
        a = ask(q)
        if "died" in a:
            raise Violation(what + ": the process died (%r)" % a["died"])
        bad = [w for w in want if not isinstance(w, bytes)]
        if bad:
            if bad[0] == "fail" or (a["exc"] is None and a["code"] == 1):
                eq((a["exc"], a["code"]), (None, 1), what + ": outcome where detection fails")
                expect(a["err"].strip(), what + ": no error on standard error")
            else:
                expect(a["exc"] is not None or a["code"] == 1, what + ": exit code %r where the input or the target encoding fails" % a["code"])
        else:
            expect(a["exc"] is None, what + ": raised %s" % a["exc"])
        judge(case, top, tmp, names, before, want, "off", a, "", what + ": ")
        lab = ["error" if bad else "changed" if any(w != b for w, b in zip(want, before)) else "standard already"]
        if tmp:
            lab.append("temporary directory on another device")
        if case["link"]:
            expect(os.path.exists(top + "/cwd/link.csv"), what + ": the link is gone")
        ops = a["ops"]
        mode = case["mode"]
        places = [j for j, c in enumerate(ops) if mode not in ("sticky", "short") or c == "w"]
        if len(places) > 24:
            # all kinds of operation, and some of the repeated ones
            keep = {places[k % len(places)] for k in case["ks"]}
            keep |= {j for j in places if ops[j] not in "rw"} | {max(j for j in places)}
            places = sorted(keep)[:40]
        n = 0
        for k in places:
            reset()
            a = ask(dict(q, k=k, mode=mode))
            op = ops[k]
            judge(case, top, tmp, names, before, want, mode, a, op, what + ", %s at operation %d of %s: " % (mode, k, short(ops, 120)))
            if mode in ("once", "sticky", "short") and not a["hit"]:
                continue
            n += 1
            lab.append("%s at %s" % (mode, op))
        if n:
            lab.append("NT")
    finally:
        shutil.rmtree(top)
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    return lab


def plain_file(rng, big):
    d = rng.choice([",", ",", ",", ";", "\t", "|"])
    q = rng.choice(["", '"', "'"])
    nl = rng.choice(["\r\n", "\r\n", "\n", "\n", "\r"])
    rows = [[texts.TYPED["word"](rng), str(rng.randint(0, 999)), texts.TYPED["word"](rng)] for _ in range(rng.randint(2, 5))]
    text = nl.join(d.join(q + c + q if j == 1 else c for j, c in enumerate(r)) for r in rows) + nl
    row = d.join(["ab", q + "77" + q, "cd"]) + nl
    if rng.random() < 0.4:
        # standard, up to the end
        d, q, nl = ",", "", "\r\n"
        text = nl.join(",".join(r) for r in rows) + nl
        row = "ab,77,cd" + nl
    end, raw = "", ""
    r = rng.random()
    if r < 0.3:
        end = rng.choice(["ab,77,cd", "ab,77,cd\n", 'ab,"77",cd\r\n', "ab%s77%scd" % (d, d), "\n", "\r\n"])
    elif r < 0.45:
        raw = rng.choice(["\xff", "\xc3", "\x80\x81", "\xed\xa0\x80", "\xff\xfe\xff"])
    elif r < 0.55:
        end = rng.choice(["é%s1%s2" % (d, d), "漢", "😀\r\n", "Привет"])
    elif r < 0.62:
        raw = "\0" + nl
    elif r < 0.67:
        end = "x" * 131080
    return {"text": text, "row": row, "pad": rng.choice([3000, 66000, 140000, 200000]) if big else rng.choice([0, 0, 0, 100]), "end": end, "raw": raw}


def gen(rng):
    big = rng.random() < 0.15
    fs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < 0.75:
            fs.append(plain_file(rng, big))
        else:
            fs.append({"text": files.table_text(rng, 0.8), "row": "", "pad": 0, "end": "", "raw": ""})
    big = big or any(len(f["end"]) > 1000 for f in fs)
    return {"files": fs, "enc": rng.choice(["utf-8", "utf-8", "utf-8", "latin-1", "utf-16", "cp1252", "gb18030", "utf-8-sig"]), "give": rng.random() < 0.75 or big,
            "E": rng.choice([None, None, None, None, None, None, "utf-8", "ascii", "latin-1", "utf-16", "cp1252"]), "t": rng.random() < 0.2, "num": rng.choice([40, 60, 100]) if big or rng.random() < 0.5 else None,
            "perm": rng.randrange(len(PERMS)), "odd": rng.random() < 0.15, "link": rng.random() < 0.15, "shm": rng.random() < 0.25, "rel": rng.random() < 0.4, "mode": rng.choice(MODES), "ks": [rng.randrange(1000) for _ in range(8)]}


def check_huge(case):
    """Files of some megabytes; what has to change comes at their end."""
    n, end = case["n"], case["end"]
    if not isinstance(n, int) or not 0 <= n <= 1000000 or not isinstance(end, str) or len(end) > 200:
        return []
    name = "c27huge.csv"
    files.write(name, ("word,12,cd\r\n" * n + end).encode("utf-8"))
    try:
        rows = clevercsv.read_table(name, encoding="utf-8", num_chars=1000)
        want = standard(rows, False)[0].encode("utf-8")
        with open(name, "rb") as fp:
            before = fp.read()
        r = cli.run(["standardize", "-i", "-e", "utf-8", "-n", "1000", name])
        what = "standardize -i of a file of %d bytes that ends in %r" % (len(before), end)
        if r.exc is not None:
            raise Violation(what + " raised %s" % type(r.exc).__name__)
        eq(r.code, 0 if want == before else 2, what + ": exit code")
        with open(name, "rb") as fp:
            expect(fp.read() == want, what + ": content")
    finally:
        os.unlink(name)
    return ["NT", "standard already" if want == before else "changed"]


HUGE = [{"n": n, "end": end} for n, end in ((400000, "ab,1,x\n"), (780000, "ab,'q',x"), (400000, ""), (100000, 'ab,"1",x\r\n'))]

PARTS = [
    Part("huge", lambda rng: {"n": rng.choice([5400, 90000, 180000, 400000]) + rng.randint(-9, 9), "end": rng.choice(["", "a,b,c\n", 'a,"b",c\r\n', "\r\n", "a,é,\r"])}, check_huge, 4, 60, fixed=HUGE,
         rule="every case", shrink_tries=10),
    Part("faults", gen, check, 560, 14000, rule="a failure took place at some file operation", setup=setup, shrink_tries=150),
]
