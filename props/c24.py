"""C24: the detect command against detect_dialect."""
import ast
import json
import os
import re

import clevercsv

from vlib import cli, files, gens, texts
from vlib.engine import Part, Violation, Skip, cut, eq, expect, short

ASSUMPTIONS = ["files decode with the encoding given or detected, and have no NUL"]
NAMES = ["c24.csv", "c24 with space.csv", "c24-é漢.csv", "c24'\".csv", "./-c24.csv", "c24 $HOME.csv", "c24[1]*?.csv", "~c24.csv", "c24%20{0}.csv", "c24.csv.gz", "C24#;&.CSV", "c24\\n.csv"]


def comps(x):
    return None if x is None else [x.delimiter, x.quotechar, x.escapechar]


def decode(out, mode, runtime, what):
    """The dialect that the output states, or a violation."""
    if mode == "json":
        try:
            o = json.loads(out)
        except ValueError:
            raise Violation("%s is no JSON: %r" % (what, short(out)))
        expect(isinstance(o, dict), "%s is no JSON object" % what)
        eq(sorted(o), sorted(["delimiter", "quotechar", "escapechar", "strict"] + ["runtime"] * runtime), "keys of " + what)
        if runtime:
            r = o["runtime"]
            expect(isinstance(r, (int, float)) and not isinstance(r, bool) and 0 <= r < 600, "runtime %r" % (r,))
        expect(o["strict"] is False, "strict is %r" % (o["strict"],))
        return [o["delimiter"], o["quotechar"], o["escapechar"]]
    expect(out.endswith("\n"), "%s doesn't end in a newline" % what)
    rest = out[:-1]
    if runtime:
        rest, _, last = rest.rpartition("\n")
        m = re.fullmatch(r"[Rr]untime(?: =|:) (\d[\d.e+-]*)(?: seconds)?", last)
        expect(m and float(m.group(1)) < 600, "runtime line %r" % last)
    if mode == "plain":
        vals = []
        for line, key in zip(rest.split("\n"), ("delimiter", "quotechar", "escapechar")):
            m = re.fullmatch(re.escape(key) + r" =(?: (.?))?", line, re.S)
            expect(m, "line %r in %s" % (line, what))
            vals.append(m.group(1) or "")
        eq(rest.count("\n"), 2, "line breaks in " + what)
        return vals
    m = re.fullmatch(r"Detected: SimpleDialect\((.*)\)", rest, re.S)
    expect(m, "%s: %r" % (what, short(out)))
    try:
        vals = list(ast.literal_eval("(" + m.group(1) + ",)"))
    except (ValueError, SyntaxError):
        raise Violation("%s cannot be read: %r" % (what, short(out)))
    return vals[:3]


def last_json(lines):
    """The shortest end of the output that is a JSON object (of any number of lines)."""
    for k in range(2, len(lines) + 1):
        out = "\n".join(lines[-k:])
        try:
            if isinstance(json.loads(out), dict):
                return out
        except ValueError:
            pass
    return "\n".join(lines[-2:])


def setting(case):
    enc, n = case["enc"], case["num"]
    name = NAMES[case["name"] % len(NAMES)]
    text = files.encodable(files.expand(case["text"]).replace("\0", ""), enc)
    files.write(name, text.encode(enc))
    give = enc if case["give"] else None
    kw = {"method": "consistency" if case["cons"] else "auto", "skip": not case["noskip"]}
    if n is not None:
        kw["num_chars"] = n
    if give:
        kw["encoding"] = give
    return name, give, kw


def arguments(case, name, give, mode, runtime, verbose):
    groups = cli.options(case["style"] or [0],
                         c=("-c", "--consistency", bool(case["cons"])), e=("-e", "--encoding", give), n=("-n", "--num-chars", case["num"]),
                         s=(None, "--no-skip", bool(case["noskip"])), p=("-p", "--plain", mode == "plain"), j=("-j", "--json", mode == "json"),
                         r=(None, "--add-runtime", runtime))
    groups.append([name])
    k = case["style"][0] if case["style"] else 0
    groups = groups[k % len(groups):] + groups[:k % len(groups)]
    return ["-v"] * verbose + ["detect"] + [x for g in groups for x in g]


def check(case):
    name, give, kw = setting(case)
    try:
        try:
            want = clevercsv.detect_dialect(name, **kw)
        except UnicodeError:
            raise Skip("undecodable")
        except clevercsv.Error:
            raise Skip("NUL")
        if not isinstance(case["style"], list) or not all(isinstance(x, int) and x >= 0 for x in case["style"]):
            return []
        mode = ["default", "plain", "json"][case["mode"] % 3]
        runtime, verbose = bool(case["runtime"]), bool(case["verbose"])
        args = arguments(case, name, give, mode, runtime, verbose)
        r = cli.run(args)
        if r.exc is not None:
            raise Violation("clevercsv %s raised %s" % (" ".join(args), type(r.exc).__name__))
        if want is None:
            eq(r.code, 1, "exit code where detection fails")
            expect(r.err.strip(), "no error on standard error where detection fails")
            if not verbose:
                eq(r.out, "", "standard output where detection fails")
            return ["None", "NT"]
        eq(r.code, 0, "exit code")
        eq(r.err, "", "standard error")
        out = r.out
        if verbose:
            # the dialect is what comes last
            parts = r.out.split("\n")
            if mode == "json":
                out = last_json(parts)
            else:
                lines = (1 if mode != "plain" else 3) + runtime
                out = "\n".join(parts[-lines - 1:])
        got = decode(out, mode, runtime, "the %s output of %s" % (mode, " ".join(args)))
        eq(got, comps(want), "dialect printed by clevercsv %s" % " ".join(args))
        # the options about output change nothing else
        if case["again"]:
            plainer = cli.run(arguments(case, name, give, mode, False, False))
            if runtime:
                if mode == "json":
                    o = json.loads(out)
                    o.pop("runtime")
                    eq(o, json.loads(plainer.out), "output without --add-runtime")
                else:
                    eq("".join(x + "\n" for x in out[:-1].split("\n")[:-1]), plainer.out, "output without --add-runtime")
            else:
                eq(out, plainer.out, "output without -v")
    finally:
        os.unlink(name)
    lab = ["NT", mode]
    if want.delimiter in ("\t", " "):
        lab.append("whitespace delimiter")
    if runtime:
        lab.append("runtime")
    if verbose:
        lab.append("verbose")
    return lab


def gen(rng):
    r = rng.random()
    if r < 0.15:
        t = texts.tie(rng)
    elif r < 0.3:
        d = rng.choice(["\t", " ", "\u2028", "\x0b", "\x1c", "\x85", "\\", "=", "é", "\u3000", "{", "'", "\U0001f600"])
        t = "\n".join(d.join(str(rng.randint(0, 99)) for _ in range(3)) for _ in range(rng.randint(1, 4)))
    elif r < 0.4:
        t = texts.mutate(rng, files.table_text(rng))
    else:
        t = files.table_text(rng)
    if rng.random() < 0.15:
        t = files.wide(rng, t)
    if rng.random() < 0.03:
        t = files.long(rng, t)
    return {"enc": rng.choice(files.ENCODINGS), "text": t, "give": rng.random() < 0.6, "num": rng.choice([None, None, None, 0, 1, 5, 20, 50, len(t), 10 ** 6]),
            "cons": rng.random() < 0.4, "noskip": rng.random() < 0.3, "mode": rng.randint(0, 2), "runtime": rng.random() < 0.35, "verbose": rng.random() < 0.2,
            "again": rng.random() < 0.3, "name": rng.choice([0, 0, 0, rng.randrange(len(NAMES))]), "style": [rng.randint(0, 5) for _ in range(rng.randint(1, 4))]}


# ------------------------------------------------------------ as a process

def check_process(case):
    """The command as it is run by a user: exit status and streams."""
    name, give, kw = setting(case)
    try:
        try:
            want = clevercsv.detect_dialect(name, **kw)
        except (UnicodeError, clevercsv.Error):
            raise Skip("undecodable or NUL")
        r = cli.run_process(arguments(case, name, give, "json", False, False), env={"PYTHONIOENCODING": "ascii"} if case.get("ascii") else None)
    finally:
        os.unlink(name)
    if want is None:
        eq((r.code, r.out), (1, b""), "exit code and standard output of the process")
        expect(r.err.strip(), "no error on standard error")
        return ["NT", "None"]
    eq(r.code, 0, "exit code of the process, standard error %r" % short(r.err.decode("utf-8", "replace")))
    eq(decode(r.out.decode("utf-8"), "json", False, "the output of the process"), comps(want), "dialect printed by the process")
    return ["NT"]


def gen_process(rng):
    c = gen(rng)
    if rng.random() < 0.3:
        c["text"] = rng.choice(["", "abc", "a b\n'c", "\n", "a,b;c\n"])
    if rng.random() < 0.5:
        # JSON needs nothing but ASCII
        c["ascii"] = 1
        d = rng.choice("é§¦、\U0001f600,")
        c["text"], c["enc"], c["give"], c["num"] = "1%s2\n3%s4\n" % (d, d), "utf-8", True, None
    return c


def gen_huge(rng):
    return dict(gen(rng), text=files.huge(rng), enc=rng.choice(["utf-8", "utf-8", "utf-16"]), num=rng.choice([None, None, None, 0, 10 ** 6, 10 ** 7]), cons=False, verbose=False)


PARTS = [
    Part("huge", gen_huge, check, 16, 320, rule="every case that is decodable", shrink_tries=40),
    Part("options", gen, check, 7000, 200000, rule="every case that is decodable"),
    Part("process", gen_process, check_process, 40, 800, rule="every case that is decodable", shrink_tries=60),
]
