"""C08: dialect conversions, serialisation, equality, order, validation."""
import copy
import csv
import io
import itertools
import json
import pickle

from clevercsv.dialect import SimpleDialect

from vlib import gens
from vlib.engine import Part, Violation, cut, eq, expect

ASSUMPTIONS = ["conversion to a csv dialect is judged for the dialects the csv module of the running Python accepts"]
CHARS = [",", ";", "\t", "|", " ", ":", '"', "'", "`", "~", "\\", "/", "@", "a", "0", "é", "中", "😀", "\x01", "\x7f", "\u2028",
         "\ud800", "\n", "\r", "\0", "\x85", "\ufeff", "-", ".", "\udcff"]
BAD = [None, "ab", ",,", 5, 1.0, [","], [], b",", ("a",), {}, True, "é中", "\r\n"]
BADSTRICT = [2, -1, "yes", None, "", 0.5, "False", [], {}, (True,)]


def component(v):
    """JSON -> a component: a string of at most one character."""
    if isinstance(v, str) and len(v) <= 1:
        return v
    if isinstance(v, int):
        return CHARS[v % len(CHARS)]
    return ""


def dialect(v):
    v = (list(v) + [0, 0, 0, 0])[:4] if isinstance(v, list) else [0, 0, 0, 0]
    return SimpleDialect(component(v[0]), component(v[1]), component(v[2]), strict=bool(v[3]))


def comps(x):
    return (x.delimiter, x.quotechar, x.escapechar, x.strict)


def csv_ok(x):
    """Can the csv module express this dialect?  -> the equivalent parameters or None."""
    p = {"delimiter": x.delimiter, "quotechar": x.quotechar or None, "escapechar": x.escapechar or None, "doublequote": True,
         "quoting": csv.QUOTE_MINIMAL if x.quotechar else csv.QUOTE_NONE, "skipinitialspace": False, "lineterminator": "\n",
         "strict": x.strict}
    try:
        csv.reader([], **p)
        csv.writer(io.StringIO(), **p)
    except (TypeError, ValueError, csv.Error):
        return None
    return p


def check_convert(case):
    x = dialect(case["x"])
    before = comps(x)
    x.validate()
    labels = []
    y = SimpleDialect.from_dict(x.to_dict())
    eq(comps(y), before, "from_dict(to_dict())")
    d = x.to_dict()
    eq({k: d.get(k) for k in ("delimiter", "quotechar", "escapechar", "strict")},
       dict(zip(("delimiter", "quotechar", "escapechar", "strict"), before)), "to_dict")
    eq(comps(SimpleDialect.from_dict(json.loads(json.dumps(d)))), before, "from_dict of the dict through JSON")
    s = x.serialize()
    expect(isinstance(s, str), "serialize() is not a string")
    expect(isinstance(json.loads(s), dict), "serialize() is not a JSON object")
    z = SimpleDialect.deserialize(s)
    eq(comps(z), before, "deserialize(serialize())")
    for w, how in ((y, "to_dict"), (z, "serialize"), (copy.copy(x), "copy"), (copy.deepcopy(x), "deepcopy"), (pickle.loads(pickle.dumps(x)), "pickle")):
        expect(w == x and not w != x and hash(w) == hash(x), "the dialect after %s is not equal" % how)
    p = csv_ok(x)
    if p is None:
        if x.delimiter == "":
            try:
                csv.reader([], x.to_csv_dialect())
                raise Violation("a dialect without delimiter was converted to a csv dialect")
            except (csv.Error, TypeError, ValueError):
                labels.append("no delimiter")
    else:
        c = cut("to_csv_dialect", x.to_csv_dialect)
        expect(isinstance(c, csv.Dialect), "to_csv_dialect is not a csv.Dialect")
        w = SimpleDialect.from_csv_dialect(c)
        eq(comps(w), before, "from_csv_dialect(to_csv_dialect())")
        expect(w == x and hash(w) == hash(x), "the dialect converted to csv and back is not equal")
        # the csv module uses it, with the same meaning as the plain parameters
        sample = [t for t in case["sample"] if isinstance(t, str)]
        def read(*a, **k):
            try:
                return list(csv.reader(iter(sample), *a, **k))
            except csv.Error as ex:
                return "error"
        eq(read(c), read(**p), "csv.reader with the converted dialect")
        name = "verif-c08"
        csv.register_dialect(name, c)
        try:
            reg = csv.get_dialect(name)
            eq(comps(SimpleDialect.from_csv_dialect(reg)), before, "from_csv_dialect of the registered dialect")
            for k, v in p.items():
                if k != "lineterminator":
                    got = getattr(reg, k)
                    eq(bool(got) if isinstance(v, bool) else got, v, "%s of the converted dialect" % k)
        finally:
            csv.unregister_dialect(name)
        # other forms of the same dialect
        cls = type("K", (csv.Dialect,), dict(p))
        eq(comps(SimpleDialect.from_csv_dialect(cls)), before, "from_csv_dialect of a class")
        eq(comps(SimpleDialect.from_csv_dialect(cls())), before, "from_csv_dialect of an instance")
        eq(comps(SimpleDialect.from_csv_dialect(type("K", (csv.Dialect,), {k: v for k, v in p.items() if k != "delimiter"}))), ("",) + before[1:], "from_csv_dialect of a class without delimiter")
        noq = dict(p, quoting=csv.QUOTE_NONE)
        eq(comps(SimpleDialect.from_csv_dialect(type("K", (csv.Dialect,), noq))), (before[0], "") + before[2:], "from_csv_dialect without quoting")
        labels.append("csv")
    eq(comps(x), before, "the dialect after the conversions")
    eq(sorted(vars(x)), sorted(vars(SimpleDialect(",", "", ""))), "attributes after the conversions")
    if sum(1 for c in before[:3] if c) >= 2 or x.strict:
        labels.append("NT")
    return labels


def gen_component(rng):
    r = rng.random()
    if r < 0.15:
        return ""
    if r < 0.85:
        return rng.randint(0, 12) if r < 0.5 else rng.randint(0, len(CHARS) - 1)
    return chr(rng.randint(0, 0x10FFFF))


def gen_dialect(rng):
    return [gen_component(rng) for _ in range(3)] + [rng.random() < 0.4]


def gen_convert(rng):
    x = gen_dialect(rng)
    d, q, e = (component(c) or "," for c in x[:3])
    return {"x": x, "sample": [gens.text_of(gens.tokens(rng, d, q, e, rng.randint(1, 6))) for _ in range(2)]}


def related(rng, x):
    y = list(x)
    for _ in range(rng.choice([0, 1, 1, 2])):
        i = rng.randint(0, 3)
        y[i] = (not y[i]) if i == 3 else gen_component(rng)
    return y


def check_laws(case):
    xs = [dialect(v) for v in (case["xs"] + [0, 0, 0])[:3]]
    labels = set()
    rank = lambda x: 0 if x.delimiter == "," else 1 if x.delimiter == ";" else 2
    for a, b in itertools.product(xs, xs):
        same = comps(a) == comps(b)
        eq(a == b, same, "equality of %r and %r" % (comps(a), comps(b)))
        eq(a != b, not same, "inequality of %r and %r" % (comps(a), comps(b)))
        if same:
            eq(hash(a), hash(b), "hash of equal dialects")
        eq((a < b) + (b < a) + same, 1, "trichotomy of %r and %r" % (comps(a), comps(b)))
        eq(a > b, b < a, "a > b and b < a of %r and %r" % (comps(a), comps(b)))
        eq(a <= b, a < b or same, "a <= b of %r and %r" % (comps(a), comps(b)))
        eq(a >= b, b < a or same, "a >= b of %r and %r" % (comps(a), comps(b)))
        if rank(a) < rank(b):
            expect(a < b, "%r does not come before %r" % (comps(a), comps(b)))
        if not same:
            labels.add("NT")
    for a, b, c in itertools.product(xs, xs, xs):
        if a < b and b < c:
            expect(a < c, "transitivity of %r, %r, %r" % (comps(a), comps(b), comps(c)))
    eq(len(set(xs)), len(set(map(comps, xs))), "size of the set")
    want = sorted(xs)
    for perm in itertools.permutations(xs):
        eq(list(map(comps, sorted(perm))), list(map(comps, want)), "sorted, in another order")
    for other in (None, ",", 5, comps(xs[0]), xs[0].to_dict()):
        expect(not (xs[0] == other) and xs[0] != other, "a dialect equals %r" % (other,))
    # a subclass without anything of its own is the same dialect
    sub = type("Sub", (SimpleDialect,), {})
    for a in xs:
        for b in xs:
            s = sub(b.delimiter, b.quotechar, b.escapechar, strict=b.strict)
            same = comps(a) == comps(b)
            eq((a == s, s == a, a != s, s != a), (same, same, not same, not same), "equality of %r and a subclass with %r" % (comps(a), comps(b)))
            eq((a < s, s < a), (a < b, b < a), "order of %r and a subclass with %r" % (comps(a), comps(b)))
            if same:
                eq(hash(s), hash(a), "hash of a subclass")
    # undefined components, and 0 or 1 for strict
    hole = case.get("hole", 0)
    if isinstance(hole, int):
        ys = [SimpleDialect(*[None if hole >> i & 1 else c for i, c in enumerate(comps(x)[:3])], strict=int(x.strict) if hole & 8 else x.strict) for x in xs]
        for a, b in itertools.product(xs + ys, ys):
            same = comps(a) == comps(b)
            eq(a == b, same, "equality of %r and %r" % (comps(a), comps(b)))
            eq(b != a, not same, "inequality of %r and %r" % (comps(a), comps(b)))
            if same:
                eq(hash(a), hash(b), "hash of equal dialects %r and %r" % (comps(a), comps(b)))
        eq(len(set(xs + ys)), len(set(map(comps, xs + ys))), "size of the set")
    if len(set(map(comps, xs))) == 3:
        labels.add("three different")
    return sorted(labels)


def gen_laws(rng):
    a = gen_dialect(rng)
    b = related(rng, a)
    return {"xs": [a, b, related(rng, rng.choice([a, b]))], "hole": rng.randint(0, 15)}


def check_validate(case):
    vals, bad = [], False
    for i in range(4):
        v = (case["v"] + [0, 0, 0, 0])[i]
        if isinstance(v, list):
            k = v[0] if v and isinstance(v[0], int) else 0
            vals.append(BAD[k % len(BAD)] if i < 3 else BADSTRICT[k % len(BADSTRICT)])
            bad = True
        else:
            vals.append(component(v) if i < 3 else bool(v))
    x = SimpleDialect(vals[0], vals[1], vals[2], strict=vals[3])
    y = SimpleDialect(vals[0], vals[1], vals[2], vals[3])
    z = SimpleDialect(delimiter=vals[0], quotechar=vals[1], escapechar=vals[2], strict=vals[3])
    for name in ("delimiter", "quotechar", "escapechar", "strict"):
        expect(getattr(x, name) is getattr(y, name) is getattr(z, name), "%s depends on whether it is given by position or by name" % name)
    if not bad:
        eq(x.validate(), None, "validate()")
        x.to_dict(), x.serialize()
        return ["valid"]
    for name in ("validate", "to_dict", "serialize"):
        try:
            getattr(x, name)()
        except (ValueError, TypeError):
            continue
        raise Violation("%s accepts %r" % (name, vals))
    return ["NT", "invalid"]


def gen_validate(rng):
    v = gen_dialect(rng)
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        v[rng.randint(0, 3)] = [rng.randint(0, 40)]
    return {"v": v}


PARTS = [
    Part("convert", gen_convert, check_convert, 30000, 600000, rule="at least two components set, or strict"),
    Part("laws", gen_laws, check_laws, 30000, 600000, rule="at least two of the three dialects differ"),
    Part("validate", gen_validate, check_validate, 20000, 300000, rule="an invalid component"),
]
