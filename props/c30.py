"""C30: readers, writers, detectors and streams don't influence each other."""
import copy
import csv
import io
import os
import sys
import threading

import clevercsv
from clevercsv.dialect import SimpleDialect
from clevercsv.encoding import get_encoding

from vlib import dialects, files, gens, texts
from vlib.engine import Part, Violation, cut, eq, expect, short

ASSUMPTIONS = ["what each object does alone, in the same process, is the oracle; that it's right is the subject of C01-C28",
               "the field size limit and the registry of dialect names, which are global by design, are not changed meanwhile"]
KINDS = ["reader", "reader", "dictreader", "writer", "dictwriter", "detector", "detector", "sniff", "stream", "streamdicts", "table", "write_table", "write_dicts", "encoding", "dialect", "header"]


def comps(x):
    return None if x is None else (x.delimiter, x.quotechar, x.escapechar, x.strict)


def value(x):
    """What a result says now."""
    if isinstance(x, csv.Dialect):
        return [x.delimiter, x.quotechar, x.escapechar, x.strict, x.quoting, x.doublequote, x.lineterminator]
    return comps(x) if isinstance(x, SimpleDialect) else x


def spoil(x):
    if isinstance(x, (SimpleDialect, csv.Dialect)):
        x.delimiter, x.quotechar, x.escapechar, x.strict = "M", "U", "T", True
    elif isinstance(x, dict):
        x["MUT"] = "MUT"
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x[:] = ["MUT"]


class World:
    """What the actors of one run share: dialect objects and a detector."""

    def __init__(self, case, tag, tmp):
        self.tag = tag
        self.shared = []
        for k, (d, q, e, strict) in enumerate(case["dialects"]):
            if k % 3 == 0 or not d:
                self.shared.append(SimpleDialect(d, q, e, strict=bool(strict)))
            elif k % 3 == 1:
                self.shared.append(dialects.form(1, dialects.params(d, q, e, bool(strict)), tmp)[0])
            else:
                self.shared.append(dialects.form(2, dialects.params(d, q, e, bool(strict)), tmp)[0])
        self.detector = clevercsv.Detector()
        self.hook = lambda: None
        self.kept = []
        self.spoil = False

    def keep(self, x):
        """Remembers a result, to see if it's changed later."""
        v = copy.deepcopy(value(x))
        if self.spoil:
            # what was handed out belongs to the caller
            spoil(x)
        else:
            self.kept.append((x, v))
        return copy.deepcopy(v)

    def keep2(self, x):
        return None if x is None else self.keep(x)

    def changed(self):
        for x, was in self.kept:
            now = value(x)
            if now != was:
                return "%s became %s" % (short(repr(was)), short(repr(now)))
        return None

    def dialect(self, k):
        return self.shared[k % len(self.shared)]

    def lines(self, text):
        for line in text.splitlines(True) if "\r" not in text else io.StringIO(text, newline=""):
            self.hook()
            yield line


class Sink:
    def __init__(self, world):
        self.world, self.text = world, ""

    def write(self, s):
        self.world.hook()
        self.text += s
        return len(s)


def actor(world, a, i):
    """A generator: each step is one operation, and yields its result."""
    kind, text = a["kind"], a["text"]
    dia = world.dialect(a["dialect"])
    path = "c30-%s-%d.csv" % (world.tag, i)
    if kind == "reader":
        r = clevercsv.reader(world.lines(text) if a["opt"] % 2 else text.splitlines(True), dia)
        for row in r:
            yield world.keep(row), r.line_num
            if a["opt"] % 3 == 0:
                row = None
        yield "end", r.line_num, world.keep(r.dialect)
    elif kind == "dictreader":
        r = clevercsv.DictReader(world.lines(text) if a["opt"] % 2 else text.splitlines(True), dialect=dia, restkey="rest" if a["opt"] % 3 else None)
        if a["opt"] % 5 == 0:
            yield copy.copy(r.fieldnames)
        for row in r:
            yield world.keep(row), r.line_num
        yield copy.copy(r.fieldnames)
    elif kind == "writer":
        s = Sink(world)
        w = clevercsv.writer(s, dia)
        for row in a["rows"]:
            yield w.writerow(row)
            yield s.text
        yield w.writerows(world_rows(world, a["rows"]))
        yield s.text
    elif kind == "dictwriter":
        s = Sink(world)
        names = ["a", "b", "c"]
        w = clevercsv.DictWriter(s, names, dialect=dia, restval="-", extrasaction="ignore" if a["opt"] % 2 else "raise")
        yield w.writeheader()
        for row in a["rows"]:
            try:
                yield w.writerow(dict(zip(names + ["d"], row)))
            except ValueError:
                yield "ValueError"
            yield s.text
    elif kind in ("detector", "sniff"):
        d = world.detector if a["opt"] % 2 and not a["own"] else clevercsv.Detector()
        again = a["texts"] + a["texts"][:1] if a["opt"] % 2 == 0 else a["texts"]
        for t, method in zip(again, ["auto", "auto" if len(again) == 2 else "consistency", "normal", "auto"]):
            if kind == "sniff":
                yield world.keep2(d.sniff(t, delimiters=a["delims"]))
            else:
                yield world.keep2(d.detect(t, method=method, delimiters=a["delims"])), str(d.method_)
    elif kind == "header":
        for t in a["texts"]:
            try:
                yield clevercsv.Sniffer().has_header(t)
            except (clevercsv.Error, clevercsv.exceptions.NoDetectionResult) as e:
                yield type(e).__name__
    elif kind in ("stream", "streamdicts", "table", "encoding"):
        files.write(path, text.encode("utf-8", "replace"))
        kw = {"encoding": "utf-8"} if a["opt"] % 2 else {}
        if a["opt"] % 3 == 0 and isinstance(dia, SimpleDialect):
            kw["dialect"] = dia
        try:
            if kind == "encoding":
                for t in a["texts"]:
                    files.write(path, t.encode("utf-8", "replace"))
                    yield get_encoding(path)
            elif kind == "table":
                for _ in range(2):
                    yield world.keep(clevercsv.read_table(path, **kw))
                    yield world.keep(clevercsv.read_dicts(path, **kw))
                    yield comps(clevercsv.detect_dialect(path, **{k: v for k, v in kw.items() if k != "dialect"}))
            else:
                for row in (clevercsv.stream_table if kind == "stream" else clevercsv.stream_dicts)(path, **kw):
                    yield world.keep(row)
        finally:
            os.unlink(path)
    elif kind in ("write_table", "write_dicts"):
        rows = [(r + ["", "x"])[:2] for r in a["rows"]]
        for _ in range(2):
            if kind == "write_table":
                clevercsv.write_table(rows, path, encoding="utf-8", transpose=bool(a["opt"] % 2))
            else:
                clevercsv.write_dicts([{"k": x, "l": y} for x, y in rows], path, encoding="utf-8")
            out = None
            if os.path.exists(path):
                with open(path, "rb") as fp:
                    out = fp.read()
                os.unlink(path)
            yield out
    elif kind == "dialect":
        for d in world.shared:
            if isinstance(d, SimpleDialect):
                yield world.keep(d.to_csv_dialect())
                yield d.to_dict(), d.serialize(), hash(d) == hash(SimpleDialect(*comps(d)[:3], strict=d.strict))
            else:
                yield comps(SimpleDialect.from_csv_dialect(d))


def world_rows(world, rows):
    for r in rows:
        world.hook()
        yield r


def steps(gen):
    """All results of an actor; the error ends it."""
    try:
        yield from gen
    except (clevercsv.Error, clevercsv.exceptions.NoDetectionResult, UnicodeError, csv.Error) as e:
        yield type(e).__name__


def alone(case, tmp, tag):
    out = []
    for i, a in enumerate(case["actors"]):
        w = World(case, tag, tmp)
        out.append(list(steps(actor(w, a, i))))
        ch = w.changed()
        expect(not ch, "a result of %s was changed later: %s" % (a["kind"], ch))
    return out


def valid(case):
    for a in case["actors"]:
        if a["kind"] not in KINDS or any("\0" in t for t in [a["text"]] + a["texts"]) or not a["texts"]:
            return False
        if any(not isinstance(c, str) for r in a["rows"] for c in r):
            return False
    return bool(case["actors"]) and bool(case["dialects"]) and all(len(d) == 4 and all(isinstance(x, str) and len(x) < 2 for x in d[:3]) and files.distinct(*d[:3]) and not (d[3] and not d[0]) for d in case["dialects"])


def check(case):
    if not valid(case):
        return []
    with dialects.Temp() as tmp:
        want = alone(case, tmp, "a")
        w = World(case, "b", tmp)
        w.spoil = bool(case["spoil"])
        gens_ = [steps(actor(w, a, i)) for i, a in enumerate(case["actors"])]
        got = [[] for _ in gens_]
        open_ = set(range(len(gens_)))
        busy = set()
        sched = list(case["schedule"]) or [0]
        k = [0]
        nested = [0]

        def step(i):
            busy.add(i)
            try:
                got[i].append(next(gens_[i]))
            except StopIteration:
                open_.discard(i)
            finally:
                busy.discard(i)

        def hook():
            # another actor moves on while one is within a call
            k[0] += 1
            if len(busy) > 3 or sched[k[0] % len(sched)] % 3:
                return
            free = sorted(open_ - busy)
            if free:
                nested[0] += 1
                step(free[sched[k[0] % len(sched)] // 3 % len(free)])

        if case["nested"]:
            w.hook = hook
        switches, last = 0, None
        while open_:
            k[0] += 1
            free = sorted(open_)
            i = free[sched[k[0] % len(sched)] % len(free)]
            switches += last is not None and i != last
            last = i
            step(i)
        for a, g, x in zip(case["actors"], got, want):
            eq(g, x, "results of %s among %s" % (a["kind"], [b["kind"] for b in case["actors"]]))
        ch = w.changed()
        expect(not ch, "a result was changed by later operations: %s" % ch)
    lab = ["NT"] if switches > 1 and len(case["actors"]) > 1 else []
    if case["spoil"]:
        lab.append("results modified by the caller")
    if nested[0]:
        lab.append("nested calls")
    lab += sorted({a["kind"] for a in case["actors"]})
    return lab


def check_threads(case):
    if not valid(case):
        return []
    with dialects.Temp() as tmp:
        want = alone(case, tmp, "t")
        w = World(case, "u", tmp)
        acts = [dict(a, own=True) for a in case["actors"]]
        got = [None] * len(acts)
        fail = []
        start = threading.Barrier(len(acts))

        def work(i):
            try:
                start.wait()
                got[i] = list(steps(actor(w, acts[i], i)))
            except BaseException as e:
                fail.append("%s in a thread: %s: %s" % (acts[i]["kind"], type(e).__name__, e))

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(i,)) for i in range(len(acts))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        expect(not fail, "; ".join(fail))
        for a, g, x in zip(acts, got, want):
            eq(g, x, "results of %s in a thread, beside %s" % (a["kind"], [b["kind"] for b in acts]))
    return ["NT"] if len(acts) > 1 else []


def gen(rng):
    dias = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        d, q, e = gens.triple(rng, simple=0.8, empty_d=0)
        dias.append([d, q, e, rng.random() < 0.15])
    acts = []
    same = rng.random() < 0.3 and rng.choice(KINDS)
    for _ in range(rng.choice([2, 2, 3, 4, 6])):
        k = rng.randrange(len(dias))
        d, q, e = dias[k][:3]
        text = texts.table(rng, d, q, e) if rng.random() < 0.7 else gens.text_of(gens.tokens(rng, d, q, e, rng.choice([5, 15])))
        ts = [texts.tie(rng) if rng.random() < 0.3 else files.table_text(rng, 0.7) for _ in range(rng.choice([1, 2, 3]))]
        rows = [[rng.choice(["", "a", d, q, "x" + d + "y", "1\n2", "é", "b " + q, e or "z"]) for _ in range(rng.choice([1, 2, 2, 3, 4]))] for _ in range(rng.randint(0, 4))]
        acts.append({"kind": same or rng.choice(KINDS), "text": text.replace("\0", ""), "texts": [t.replace("\0", "") for t in ts], "dialect": k, "rows": rows, "opt": rng.randint(0, 29), "own": False,
                     "delims": rng.choice([None, None, None, ",;", "|\t,"])})
    return {"dialects": dias, "actors": acts, "schedule": [rng.randint(0, 11) for _ in range(rng.choice([3, 7, 20, 41]))], "nested": rng.random() < 0.5, "spoil": rng.random() < 0.3}


PARTS = [
    Part("interleaved", gen, check, 5000, 150000, rule="at least two objects, advanced in turn with more than one switch", shrink_tries=400),
    Part("threads", gen, check_threads, 1500, 40000, rule="at least two objects in threads of their own", shrink_tries=200),
]
