"""C06: bad input raises ordinary errors and never corrupts the process."""
import ctypes
import gc
import io
import sys
import weakref

import clevercsv
from clevercsv.cparser import Error as ParserError
from clevercsv.cparser import Parser
from clevercsv.dialect import SimpleDialect
from clevercsv import cparser_util

from vlib import gens
from vlib.engine import Part, Violation, eq, expect

ASAN = True
ASSUMPTIONS = ["the C extensions are built with AddressSanitizer and UBSan (gcc); leaks are judged by reference counts and "
               "allocated bytes over repeated calls; allocation failures are injected with _testcapi.set_nomemory"]

try:
    _heap = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    _heap.restype = ctypes.c_size_t
except AttributeError:  # not a sanitizer build
    _heap = None
try:
    import _testcapi
except ImportError:
    _testcapi = None


class Weird(BaseException):
    pass


class Text(str):
    """A subclass of str, as numpy.str_ is one."""

    def __str__(self):
        return "not this"

    def __iter__(self):
        return iter("nor this")


class NoBool:
    def __bool__(self):
        raise KeyError("bool")


class NoIter:
    def __iter__(self):
        raise LookupError("iter")


EXC = [ValueError, KeyError, OSError, RuntimeError, MemoryError, Weird, KeyboardInterrupt, UnicodeError, ZeroDivisionError,
       AttributeError, TypeError, GeneratorExit, AssertionError, RecursionError]
NONSTR = [b"a,b\n", None, 5, 1.5, ["a"], ("a", "b"), object, bytearray(b"x"), {}, True]


class Source:
    """Lines, objects and exceptions in a given order; never stops by itself after an exception."""

    def __init__(self, items):
        self.items = items
        self.pos = 0
        self.reader = None
        self.raised = []

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.items):
            raise StopIteration
        x = self.items[self.pos]
        self.pos += 1
        if isinstance(x, str) or x[0] == "n":
            return x if isinstance(x, str) else NONSTR[x[1] % len(NONSTR)]
        if x[0] == "x":
            e = EXC[x[1] % len(EXC)]("boom", self.pos)
            self.raised.append(e)
            raise e
        # a source that uses the reader it feeds
        if self.reader is not None:
            try:
                next(self.reader)
            except BaseException:
                self.raised = []
        return "re,entered\n"


def build_items(case):
    out = []
    for it in case["items"]:
        if isinstance(it, int):
            out.append(("x" if it % 2 else "n", it // 2))
        elif it == ["g"]:
            out.append(("g", 0))
        elif isinstance(it, list):
            # a new string object, so that its references can be counted
            out.append(("".join(t * n for t, n in it if isinstance(t, str) and isinstance(n, int)) + "#")[:-1])
    return out


def good(case):
    d, q, e = case["d"], case["q"], case["e"]
    return all(isinstance(x, str) and len(x) <= 1 and x not in ("\n", "\r", "\0") or x == "" for x in (d, q, e))


def make(case, src):
    d, q, e, strict = case["d"], case["q"], case["e"], bool(case["strict"])
    k = case["api"] % 3
    if k == 0 and d:
        return clevercsv.reader(src, SimpleDialect(d, q, e, strict=strict)), (clevercsv.Error,)
    if k == 1:
        return iter(Parser(src, delimiter=d, quotechar=q, escapechar=e, strict=strict)), (ParserError,)
    return cparser_util.parse_data(src, SimpleDialect(d, q, e, strict=strict)), (clevercsv.Error,)


def drive(case, items, restart=True):
    """All rows with the source position, and the errors."""
    src = Source(items)
    r, errs = make(case, src)
    if any(not isinstance(x, str) and x[0] == "g" for x in items):
        src.reader = r
    out = []
    gen = type(r).__name__ == "generator"
    for _ in range(len(items) + 3):
        try:
            row = next(r)
            expect(type(row) is list and all(type(c) is str for c in row), "a row is not a list of strings: %r" % (row,))
            if not gen and not any(not isinstance(x, str) and x[0] == "g" for x in items):
                lines = sum(isinstance(x, str) for x in items[:src.pos])
                expect(r.line_num == lines, "line_num is %d after %d lines" % (r.line_num, lines))
            out.append((row, src.pos))
        except StopIteration:
            out.append(("stop", src.pos))
            break
        except BaseException as e:
            if any(e is x for x in src.raised):
                out.append(("own", src.pos))
                src.raised = []
            elif isinstance(e, errs):
                expect(not src.raised, "%s replaced the error of the source" % type(e).__name__)
                out.append(("error", src.pos))
            else:
                if src.raised:
                    raise Violation("%s(%s) came out instead of the source's own %s" % (
                        type(e).__name__, e, type(src.raised[0]).__name__))
                raise Violation("malformed data raised %s: %s" % (type(e).__name__, e))
            if gen:
                break
    src.reader = None
    return out


def check_kind(case, items, kind, got):
    """The same lines from another kind of source, reading on after every error."""
    if not all(isinstance(x, str) for x in items):
        return []
    if kind == "file":
        f = io.StringIO("".join(items), newline="")
        if list(f) != items:
            return []
        f.seek(0)
        src = f
    else:
        src = {"list": list, "tuple": tuple, "generator": lambda x: (y for y in x),
               "subclass": lambda x: [Text(y) for y in x]}[kind](items)
    r, errs = make(case, src)
    out = []
    over = 0
    for _ in range(len(items) + 5):
        try:
            out.append(next(r))
        except StopIteration:
            out.append("stop")
            over += 1
            if over == 3:
                break
        except errs:
            out.append("error")
    want = [x for x, _ in got]
    if type(r).__name__ == "generator" and want and want[-1] == "error":
        want.append("stop")
    if want and want[-1] == "stop":
        want += ["stop", "stop"]
    n = min(len(want), len(out))
    eq(out[:n], want[:n], "reading on with a %s as the source" % kind)
    return ["source " + kind]


def check_stream(case):
    if not good(case):
        return []
    if case["api"] % 3 == 0 and not case["d"]:
        return []
    items = build_items(case)
    reent = any(not isinstance(x, str) and x[0] == "g" for x in items)
    got = drive(case, items)
    labels = ["api %d" % (case["api"] % 3)]
    if reent:
        labels += ["re-entrant source", "NT"]
    else:
        gen = case["api"] % 3 == 2
        # expected: each stretch between failures read on its own
        start, want = 0, []
        n = len(items)
        done = False
        while not done:
            stop = start
            while stop < n and isinstance(items[stop], str) and "\0" not in items[stop]:
                stop += 1
            clean = items[start:stop]
            part = drive(case, clean)
            part = [(r, p + start) for r, p in part]
            # what is delivered before the end of the stretch is requested
            probe = drive(case, clean + [("x", 0)])
            probe = [(r, p + start) for r, p in probe]
            if stop == n:
                want += part
                done = True
            else:
                cut = [x for x in probe if x[1] <= stop]
                want += cut
                if gen and any(x[0] in ("error", "own") for x in cut):
                    done = True
                    break
                x = items[stop]
                kind = "own" if not isinstance(x, str) and x[0] == "x" else "error"
                want.append((kind, stop + 1))
                start = stop + 1
                if gen:
                    done = True
        # lengths beyond the loop bound cannot occur: one row or error per item
        eq(got, want[:len(got)] if len(got) == n + 3 else want, "rows and errors around the failures")
        if any(r in ("own", "error") for r, _ in got) and any(isinstance(r, list) for r, _ in got):
            labels.append("NT")
        for r, _ in got:
            if r in ("own", "error"):
                labels.append(r)
        for kind in ("list", "tuple", "generator", "subclass", "file"):
            labels += check_kind(case, items, kind, got)
    # a fresh reader afterwards
    eq(list(clevercsv.reader(["a,\"b,\"\n", "c\n"])), [["a", "b,"], ["c"]], "reading after an error")
    return sorted(set(labels))


SPECIAL = ["\0", "\ud800", "\udfff", "\U0010ffff", "\x80", "\xff", "\u0100", "\uffff"]


def gen_stream(rng):
    d, q, e = gens.triple(rng, empty_d=0.1)
    if rng.random() < 0.1:
        q = rng.choice(SPECIAL[1:])
    items = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.12:
            items.append(rng.randint(0, 40))
        elif r < 0.15:
            items.append(["g"])
        else:
            toks = gens.tokens(rng, d, q, e, rng.choice([0, 1, 3, 6, 10]))
            toks = [t for t in toks if t[0] not in ("\n", "\r\n", "\r") or rng.random() < 0.2]
            if rng.random() < 0.2:
                toks.insert(rng.randint(0, len(toks)), [rng.choice(SPECIAL), 1])
            if rng.random() < 0.05:
                toks.insert(rng.randint(0, len(toks)), [rng.choice(["z", "é", "😀", d, q, e]), rng.choice([4094, 4095, 4096, 4097, 8192, 20000])])
            if rng.random() < 0.8:
                toks.append([rng.choice(["\n", "\n", "\r\n", "\r"]), 1])
            items.append(toks)
    return {"d": d, "q": q, "e": e, "strict": rng.random() < 0.4, "api": rng.randint(0, 2), "items": items}


# ------------------------------------------------------------ ill-typed arguments

def value(v):
    """JSON -> argument value."""
    if isinstance(v, list):
        k, x = (v + [0, 0])[:2]
        if not isinstance(x, int) or not isinstance(k, int):
            return None
        k %= 8
        return [b",", NoBool(), NoIter(), 2 ** 80 + x, -x, object(), [","], "ab" * (x % 7 + 1)][k]
    return v


VALUES = [None, "", ",", "ab", "\0", "\ud800", "😀", 5, -1, 0, 1.5, True, [0, 0], [1, 0], [2, 0], [3, 1], [4, 5], [5, 0], [6, 0], [7, 3]]
NAMES = ["delimiter", "quotechar", "escapechar", "field_limit", "strict", "return_quoted", "quoting", "bogus"]


def call(case):
    f = case["f"] % 5
    args = [value(v) for v in case["args"]]
    kw = {NAMES[k % len(NAMES)]: value(v) for k, v in case["kw"]} if f < 3 else {}
    if f == 0:
        return list(Parser(*args, **kw))
    if f == 1:
        if kw.get("delimiter", ",") is None:
            kw.pop("delimiter")
        kw.pop("return_quoted", None)
        return list(clevercsv.reader(*args, **kw))
    if f == 2:
        p = iter(Parser(args[0] if args else [], **kw))
        out = [next(p, None), next(p, None)]
        class Sub(type(p)):
            pass
        try:
            Sub()
        except TypeError:
            pass
        return out
    from clevercsv import cabstraction
    if f == 3:
        return cabstraction.base_abstraction(*args)
    return cabstraction.c_merge_with_quotechar(*args)


def check_args(case):
    before = None
    labels = ["function %d" % (case["f"] % 5)]
    try:
        call(case)
        labels.append("returned")
    except Exception as e:
        labels += ["raised " + type(e).__name__, "NT"]
    eq(list(clevercsv.reader(["a,b\n"])), [["a", "b"]], "reading after a call with bad arguments")
    return labels


def gen_args(rng):
    f = rng.randint(0, 4)
    text = lambda: gens.text_of(gens.tokens(rng, ",", '"', "\\", rng.choice([0, 3, 8])))
    if f < 3:
        args = [[text(), text()]] if rng.random() < 0.7 else [rng.choice(VALUES + [[0, 0], text()])]
        if rng.random() < 0.1:
            args.append(rng.choice(VALUES))
        # keep lists of lines apart from encoded values
        args = [a if not (isinstance(a, list) and a and isinstance(a[0], str)) else text() for a in args]
        kw = [[rng.randint(0, len(NAMES) - 1 - (rng.random() < 0.9)), rng.choice(VALUES)] for _ in range(rng.choice([0, 1, 1, 2, 4]))]
        return {"f": f, "args": args, "kw": kw}
    n = rng.choice([4, 4, 4, 4, 0, 1, 3, 5]) if f == 3 else rng.choice([1, 1, 1, 0, 2])
    args = [text() if i == 0 and rng.random() < 0.7 else rng.choice(VALUES) for i in range(n)]
    return {"f": f, "args": args, "kw": []}


# ------------------------------------------------------------ abstraction helpers under the sanitizer

def check_abs(case):
    from clevercsv import cabstraction
    toks = [(t, n) for t, n in case["toks"] if isinstance(t, str) and isinstance(n, int)]
    text = "".join(t * n for t, n in toks)[:400000]
    d, q, e = (x if isinstance(x, str) and len(x) <= 1 else "" for x in (case["d"], case["q"], case["e"]))
    a = cabstraction.base_abstraction(text, d, q, e)
    expect(set(a) <= set("CDRQ"), "base abstraction has other characters: %r" % sorted(set(a)))
    m = cabstraction.c_merge_with_quotechar(a)
    expect(len(m) == len(a) and set(m) <= set("CDRQ"), "merged abstraction is not an abstraction")
    try:
        cabstraction.c_merge_with_quotechar(text)
    except ValueError:  # only markers are meaningful
        pass
    lab = []
    if len(a) >= 4096:
        lab += ["abstraction over 4096", "NT"]
    if a.count("Q") >= 8:
        lab += ["many blocks", "NT"]
    return lab


def gen_abs(rng):
    d, q, e = gens.triple(rng)
    if rng.random() < 0.5:
        n = rng.choice([4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 1000])
        toks = [[rng.choice([q + "a" + q + d, q + q + d, q + "a" + q + "\n", q + q]), n]]
        toks += gens.tokens(rng, d, q, e, rng.choice([0, 1, 2, 5]))
    else:
        n = rng.choice([2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 30000])
        toks = gens.tokens(rng, d, q, e, rng.choice([0, 1, 2, 3]))
        toks.append([rng.choice([d, q, "a" + d, e + d, e + q, "a\n", q + d]), n])
        toks += gens.tokens(rng, d, q, e, rng.choice([0, 1, 2, 3]))
    if rng.random() < 0.2:
        toks.append([rng.choice(SPECIAL), rng.choice([1, 2, 5000])])
    return {"d": d, "q": q, "e": e, "toks": toks}


# ------------------------------------------------------------ leaks

def check_leak(case):
    if _heap is None:
        raise RuntimeError("not a sanitizer build")
    kind = case["kind"] % 3
    if kind == 0:
        if not good(case["a"]) or (case["a"]["api"] % 3 == 0 and not case["a"]["d"]):
            return []
        items = [x if isinstance(x, str) else tuple(x) for x in build_items(case["a"])]
        objs = [x for x in items if isinstance(x, str) and len(x) > 1]
        objs += [x for x in NONSTR if type(x) in (bytes, list, tuple, bytearray, dict)]

        def once():
            try:
                drive(case["a"], items)
            except Violation:
                pass
    elif kind == 1:
        objs = []

        def once():
            try:
                call(case["b"])
            except Exception:
                pass
    else:
        objs = []

        def once():
            check_abs(case["c"])
    for _ in range(3):
        once()
    gc.collect()
    refs = [sys.getrefcount(o) for o in objs]
    n = 25
    for attempt in range(3):
        gc.collect()
        h0 = _heap()
        for _ in range(n):
            once()
        gc.collect()
        grow = _heap() - h0
        if grow < 12 * n:
            break
    else:
        raise Violation("memory grows by %d bytes in %d repetitions" % (grow, n))
    after = [sys.getrefcount(o) for o in objs]
    eq(after, refs, "references to the lines after %d repetitions" % n)
    return ["kind %d" % kind, "NT"]


def gen_leak(rng):
    k = rng.choice([0, 0, 1, 2])
    c = {"kind": k}
    if k == 0:
        c["a"] = gen_stream(rng)
    elif k == 1:
        c["b"] = gen_args(rng)
    else:
        c["c"] = gen_abs(rng)
        if rng.random() < 0.7:
            c["c"]["toks"] = c["c"]["toks"][-1:]
    return c


# ------------------------------------------------------------ no memory

def check_oom(case):
    if _testcapi is None:
        return []
    d, q, e = case["d"], case["q"], case["e"]
    if not good(case):
        return []
    text = [x for x in build_items(case) if isinstance(x, str)]
    want, err = None, None
    try:
        want = list(Parser(text, delimiter=d, quotechar=q, escapechar=e, strict=bool(case["strict"])))
    except Exception as ex:
        err = type(ex)
    kw = {"delimiter": d, "quotechar": q, "escapechar": e, "strict": bool(case["strict"])}
    start = case["start"] % 40
    stop = start + 1 + case["len"] % 3
    got = exc = None
    gc.disable()
    try:
        _testcapi.set_nomemory(start, stop)
        got = list(Parser(text, **kw))
    except BaseException as ex:
        exc = ex
    finally:
        _testcapi.remove_mem_hooks()
        gc.enable()
    if exc is None:
        eq(got, want, "rows with a failing allocation")
        lab = ["survived"]
    elif isinstance(exc, MemoryError):
        lab = ["MemoryError", "NT"]
    elif err is not None and isinstance(exc, err):
        lab = ["own error"]
    else:
        # another exception from the interpreter is ordinary
        lab = ["other " + type(exc).__name__]
    exc = None
    if err is None:
        eq(list(Parser(text, **kw)), want, "rows after a failed allocation")
    return lab


def gen_oom(rng):
    c = gen_stream(rng)
    c["items"] = [x for x in c["items"] if isinstance(x, list) and x != ["g"]]
    c["start"] = rng.randint(0, 39)
    c["len"] = rng.randint(0, 2)
    return c


# ------------------------------------------------------------ failing construction

def check_iter(case):
    """Errors while the source is turned into an iterator propagate unchanged."""
    e = EXC[case["x"] % len(EXC)]("iter")

    class S:
        def __iter__(self):
            raise e
    k = case["api"] % 3
    try:
        if k == 0:
            list(clevercsv.reader(S()))
        elif k == 1:
            list(Parser(S()))
        else:
            list(cparser_util.parse_data(S(), SimpleDialect(",", "", "")))
        raise Violation("no error from a source that cannot be iterated")
    except BaseException as x:
        if isinstance(x, Violation):
            raise
        expect(x is e, "%s(%s) instead of the source's own %s" % (type(x).__name__, x, type(e).__name__))
    return ["NT"]


# ------------------------------------------------------------ cycles

class Word(str):
    """A line that can refer to other objects."""


def check_cycle(case):
    """A source that refers to what reads it is collected once nothing else does."""
    if not good(case) or (case["api"] % 3 == 0 and not case["d"]):
        return []
    items = [x for x in build_items(case) if isinstance(x, str)]
    steps, form = case["steps"], case["form"] % 3
    if type(steps) is not int or not 0 <= steps <= 20:
        return []

    class Held:
        pass

    def build():
        held = Held()
        if form == 0:
            src = Source(items)
            r, errs = make(case, src)
            src.held, src.back = held, r
        elif form == 1:
            box = [held]

            def lines():
                for x in items:
                    if box:
                        yield x
            r, errs = make(case, lines())
            box.append(r)
        else:
            words = [Word(x) for x in items] or [Word("a")]
            r, errs = make(case, words)
            for w in words:
                w.held, w.back = held, r
            del w, words
        n = 0
        for _ in range(steps):
            try:
                next(r)
                n += 1
            except StopIteration:
                break
            except errs:
                pass
        return weakref.ref(held), n

    ref, n = build()
    gc.collect()
    expect(ref() is None, "a source that refers to its reader is never freed")
    return ["NT" if n else "not read", "form %d" % form]


def gen_cycle(rng):
    return dict(gen_stream(rng), steps=rng.choice([0, 1, 1, 2, 3, 10]), form=rng.randint(0, 2))


PARTS = [
    Part("stream", gen_stream, check_stream, 12000, 400000, rule="rows are delivered and an error occurs (or the source re-enters the reader)"),
    Part("arguments", gen_args, check_args, 12000, 300000, rule="the call raises an exception"),
    Part("abstraction", gen_abs, check_abs, 2500, 60000, rule="an abstraction of at least 4096 characters or at least 8 quotes"),
    Part("leak", gen_leak, check_leak, 2500, 60000, rule="every case repeats the call 25 times"),
    Part("no-memory", gen_oom, check_oom, 5000, 150000, rule="the failing allocation surfaces as MemoryError"),
    Part("cycles", gen_cycle, check_cycle, 1500, 40000, rule="a row was read before the objects were dropped"),
    Part("iter", lambda rng: {"x": rng.randint(0, 40), "api": rng.randint(0, 2)}, check_iter, 100, 1000, rule="every case"),
]
