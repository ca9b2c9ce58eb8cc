"""C16: the type of a cell, against grammars of the documented formats."""
import re
import unicodedata

from clevercsv.detect_type import TypeDetector

from vlib import texts, typeref
from vlib.engine import Part, Skip, cut, eq, expect

ASSUMPTIONS = ["the formats are stated as the grammars of vlib/typeref.py",
               "inside a cell the only white space is the space (and any, in JSON and byte arrays)",
               "characters not assigned in Python's Unicode version are left out"]
DETECTORS = []


def setup(cfg):
    DETECTORS.append(TypeDetector())
    DETECTORS.append(TypeDetector(strip_whitespace=False))


def domain(cell):
    return not any(unicodedata.category(c) in ("Cn", "Cs") or c.isspace() and c != " " and cell[:1] != "{" for c in cell)


def verify(cell, pads, td):
    quoted_known = None
    for quoted in (False, True):
        want = typeref.types_of(cell, quoted)
        for l, r in pads:
            c = l + cell + r
            got = cut("detect_type", td.detect_type, c, is_quoted=quoted)
            if not want:
                eq(got, None, "type of %r (quoted %r), which is of no known format" % (c, quoted))
            else:
                expect(got in want, "type of %r (quoted %r) is %r, expected %s" % (c, quoted, got, " or ".join(sorted(want))))
            known = cut("is_known_type", td.is_known_type, c, is_quoted=quoted)
            eq(known, bool(want), "is_known_type of %r (quoted %r)" % (c, quoted))
            eq(cut("detect_type", TypeDetector().detect_type, c, is_quoted=quoted), got, "type of %r with a new detector" % c)
            raw = cut("detect_type", DETECTORS[1].detect_type, c, is_quoted=quoted)
            if not any(x.isspace() for x in c):
                eq(raw, got, "type of %r without stripping" % c)
            elif raw is not None:
                expect(raw == "unicode_alphanum" or c == c.strip() and raw in want, "type of %r without stripping is %r" % (c, raw))
        for name, g in typeref.TYPES.items():
            f = getattr(td, {"json": "is_json_obj"}.get(name, "is_" + name), None)
            if f is None:
                continue
            got = cut("is_" + name, f, cell, is_quoted=quoted)
            eq(bool(got), name in want, "is_%s of %r (quoted %r)" % (name, cell, quoted))
        if quoted:
            expect(not quoted_known or want, "harness: quoting made %r unknown" % cell)
        quoted_known = bool(want)
    return typeref.types_of(cell, False)


def check(case):
    cell = case["cell"]
    if not isinstance(cell, str) or len(cell) > 300 or cell != cell.strip() or not domain(cell):
        return []
    if not DETECTORS:
        setup(None)
    pads = [("", "")] + [(p[0], p[1]) for p in case["pads"] if isinstance(p, list) and len(p) == 2 and not (str(p[0]) + str(p[1])).strip()]
    want = verify(cell, pads, DETECTORS[0])
    lab = ["NT"] if cell else []
    if len(want) == 1:
        lab.append("only " + next(iter(want)))
    elif want:
        lab.append("several types")
    else:
        lab.append("unknown")
    return lab


WS = [" ", "  ", "\t", "\n", "\r\n", "\x0b", "\x0c", "\u00a0", "\u3000", "\u2003 ", ""]


def pads(rng):
    return [[rng.choice(WS), rng.choice(WS)]]


def gen_member(rng):
    name = rng.choice(sorted(typeref.TYPES) + ["quoted"])
    g = typeref.alphanum_q if name == "quoted" else typeref.TYPES[name]
    return {"cell": g.make(rng).strip(), "pads": pads(rng)}


POOL = list("0123456789.,-+eE/:@%$€ TZ_()?!{}\"'#&=~abcxyzABC") + ["年", "월", "٣", "é", "中", "½", "00", "T0", "//", "://", "+0", "..", ",,", "%%", "na", "😀", "“", "\\", "*", ";", "|", "<", "^", "[", "]"]


def gen_near(rng):
    s = gen_member(rng)["cell"]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randint(0, len(s))
        r = rng.random()
        if r < 0.3:
            s = s[:i] + rng.choice(POOL) + s[i:]
        elif r < 0.55 and s:
            s = s[:i] + s[i + 1:]
        elif r < 0.8 and s:
            s = s[:i] + rng.choice(POOL) + s[i + 1:]
        elif r < 0.87 and s:
            j = min(len(s), i + rng.randint(1, 3))
            s = s[:j] + s[i:j] + s[j:]
        elif r < 0.9:
            s = s[:i] + s[i:i + 1].swapcase() + s[i + 1:] if rng.random() < 0.7 else s.swapcase()
        elif r < 0.94:
            s = s + gen_member(rng)["cell"]
        else:
            s = s[:i] + gen_member(rng)["cell"]
    if s[:1] == "{" and rng.random() < 0.4:
        # characters that JSON wants escaped, or doesn't know
        i = rng.randint(1, len(s))
        s = s[:i] + rng.choice(["\t", "\n", "\x01", "\x1f", "\x7f", "\\", "\\x", "\u2028", "NaN", "'", ",", "//"]) + s[i:]
    return {"cell": s.strip()[:250], "pads": pads(rng)}


# what spreadsheets and programs write for values of no documented format
ALMOST = ["#N/A", "#NA", "#NAN", "#NULL!", "#REF!", "<NA>", "<nan>", "N.A.", "n\\a", "n / a", "-nan", "+nan", "nan.", "n/a.", "(n/a)", "1.#QNAN", "1.#IND",
          "+inf", "-inf", "1e", "e+5", "--1", "+-1", "1..2", "1.2.3", "1,2,3", "0x1F", "#FF00FF", "1_000", "1'000", "1 000", "(12)", "12-", "1/2", "½", "1e5.5",
          "[]", "[1, 2]", '"a"', "{}", "{1}", "{'a': 1}", '{"a"}', '{"a": 1', "bytearray(1)", "bytearray('')", "bytearray(b'a'", "b'a'", "()", "<a>", "a=b", "a:b", "~", "!",
          "$", "€", "$$5", "5$", "5 €", "€ 5", "$-5", "-$5", "$5%", "%", "5%%", "%5", "5 %", "a@b", "@b.c", "a@b.c@d", "a@b..c", "a b@c.de", "http://", "http://a", "http:/a.de", "://a.de",
          "www.a", "a.b", "ftp://a.de:21", "1.2.3", "1.2.3.4.5", "1.2.3.4:80", "1.2.3.4/24", "1.2.3", "01.02.03.004", "1.2.3.4.", ".1.2.3.4", "~./a", "../a/b", "..", "1.2.3.1234", "a/b", "/", "//", "/a b", "\\a\\b", "C:\\a", "C:/a", "./a", "~/a", "../a",
          "12:60", "25:00", "1:2:3", "12:00:60", "12h", "12:00 PM", "12:00pm", "2019-13-01", "2019-1-32", "2019-02", "01-2019", "2019/01-02", "2019-01-02T", "T12:00", "2019-01-02 12:00 PM",
          "2019-01-02T12:00+", "2019-01-02T12:00ZZ", "2019-01-02t12:00", "2019-01-02T12:00z", "HTTP://A.DE", "BYTEARRAY(b'a')", "1E5", "$1E5", "2019-01-02  12:00", "2019-W01-1", "Jan 1, 2019", "1 Jan 2019", "2019年", "20190102T120000Z"]


def gen_soup(rng):
    r = rng.random()
    if r < 0.5:
        s = "".join(rng.choice(["0", "1", "2", "9", "12", "31", "2019", ".", ",", "-", "/", ":", "+", "e", "T", "Z", " ", "%", "$"]) for _ in range(rng.randint(1, 9)))
    elif r < 0.8:
        s = "".join(rng.choice(POOL) for _ in range(rng.randint(1, 8)))
    elif r < 0.9:
        s = rng.choice(ALMOST)
        s = rng.choice([s, s, s, s.upper(), s.lower(), s + rng.choice(POOL), rng.choice(POOL) + s])
    else:
        s = texts.arbitrary(rng)[:20]
    return {"cell": s.strip(), "pads": pads(rng)}


def gen_calendar(rng):
    """Dates, times and offsets of every day, month and minute, also just outside the calendar."""
    w = rng.choice(["%02d", "%02d", "%d"])
    n = lambda lo, hi, wrong: w % (rng.choice(wrong) if rng.random() < 0.04 else rng.randint(lo, hi))
    y = rng.choice([str(rng.randint(1000, 2999)), "%02d" % rng.randint(0, 99), "20" + "%02d" % rng.randint(0, 99)])
    m, d = n(1, 12, [0, 13, 19, 20]), n(1, 31, [0, 32, 40, 99])
    s = rng.choice(["-", "/", ".", " ", "", "", "", "年"])
    if s == "年":
        a, b, c = rng.choice(["年月日", "년월일"])
        date = y + a + m + b + d + c
    else:
        date = s.join(rng.choice([[y, m, d], [d, m, y], [m, d, y]]))
    def clock():
        h, mi, se = n(0, 23, [24, 25, 30, 99]), "%02d" % rng.choice([rng.randint(0, 59), rng.randint(0, 62)]), "%02d" % rng.choice([rng.randint(0, 59), rng.randint(0, 62)])
        return rng.choice([h + ":" + mi, h + ":" + mi, h + ":" + mi + ":" + se, h + mi, h])
    r = rng.random()
    if r < 0.3:
        s = date
    elif r < 0.45:
        s = clock()
    elif r < 0.8:
        s = date + rng.choice([" ", "T"]) + clock()
    else:
        s = date + "T" + clock() + rng.choice(["Z", "+" + clock(), "-" + clock()])
    if rng.random() < 0.1:
        s += rng.choice(["+", "-"]) + clock()
    return {"cell": s, "pads": pads(rng)}


# one character each: every character of Unicode
def gen_char(rng):
    r = rng.random()
    c = chr(rng.choice([rng.randint(0x20, 0x24f), rng.randint(0x250, 0x33ff), rng.randint(0xfe00, 0xffff), rng.randint(0x10000, 0x1ffff), rng.randint(0, 0x10ffff)]))
    if r < 0.5:
        s = c
    else:
        s = rng.choice(["a%sb", "1%s", "%s1", "a %s", "%s5%%", "http://a%s.com", "%sa"]).replace("%s", c).replace("%%", "%")
    return {"cell": s.strip(), "pads": []}


# long cells, whose type follows from how they are put together
LONG = [  # head, unit, tail, types
    ("1", "0", "", {"number"}), ("-1", "23", ".5", {"number"}), ("1", ",000", ".25", {"number"}), ("0.", "12", "", {"number"}), ("1", "9", "%", {"percentage"}),
    ("$1", "0", "", {"currency"}), ("€ 1", ".000", ",5", {"currency"}), ("a", "bc d", "", {"unicode_alphanum"}), ("a", "b c", "<", set()), ("x", "é中", "", {"unicode_alphanum"}),
    ("<", "a b", "", set()), ("a", "b 1", " ; ", set()), ("", "/ab", "", {"unix_path"}), ("", "/ab", "/", {"unix_path"}), ("", "/ab", "//", set()), ("", "/ab", "<", set()),
    ("http://a.com/", "b/c.", "x", {"url"}), ("http://a.com/", "b/c.", "<", set()), ("x@", "ab", ".com", {"email"}), ("", "ab.", "x@y.com", {"email"}), ("x@", "ab", ".c|m", set()),
    ("{\"a\": [", "1, ", "2]}", {"json"}), ("{\"a\": [", "1, ", "]}", set()), ("{\"", "é;", "\": 1}", {"json"}), ("bytearray(b'", "\\x00", "')", {"bytearray"}),
    ("bytearray(b'", "\\x00", "'", set()), ("", "\"<", "", set()), ("1", "1-", "1", {"unicode_alphanum"}), ("#", ", ", "#", set()),
]


def check_long(case):
    head, unit, tail, want = LONG[case["kind"] % len(LONG)]
    n = min(abs(case["n"]), 20000)
    cell = head + unit * max(n, 3) + tail
    td = TypeDetector()
    for pad in ("", " ", "\t" * 50):
        got = cut("detect_type", td.detect_type, pad + cell + pad)
        expect(got in want if want else got is None, "type of %r + %r * %d + %r is %r, expected %s" % (head, unit, max(n, 3), tail, got, want or None))
        eq(td.is_known_type(pad + cell), bool(want), "is_known_type")
        if want:
            expect(cut("is_known_type", td.is_known_type, cell, is_quoted=True), "quoting makes the cell unknown")
    return ["NT"] if len(cell) > 1000 else []


def gen_long(rng):
    return {"kind": rng.randint(0, len(LONG) - 1), "n": rng.choice([3, 10, 64, 100, 255, 256, 500, 1000, 1024, 3000, rng.randint(3, 6000)])}


# nesting of any depth: json until the JSON parser gives up, and never an error
def check_deep(case):
    n = min(abs(case["n"]), 60000)
    o, c = [('{"a":', "}"), ('{"a": [', "]}"), ('{"":{"b":', "}}")][case["kind"] % 3]
    td = TypeDetector()
    good = o * n + "1" + c * n
    got = cut("detect_type", td.detect_type, good)
    expect(got == "json" if 0 < n <= 300 else got in ("json", None, "number"), "type of an object nested %d deep: %r" % (n, got))
    got = cut("detect_type", td.detect_type, o * n + "1" + c * n + "}")
    expect(got in (None, "number") or n == 0, "type of a broken object nested %d deep: %r" % (n, got))
    eq(cut("detect_type", td.detect_type, '{"a": 1}'), "json", "type after that")
    return ["NT"] if n > 1000 else []


def check_own(case):
    """Changing the patterns of one detector changes no other one."""
    cell = case["cell"]
    if not isinstance(cell, str) or len(cell) > 300:
        return []
    a, b = TypeDetector(), TypeDetector()
    if not isinstance(getattr(a, "patterns", None), dict):
        return ["no patterns"]
    want = [b.detect_type(cell, is_quoted=q) for q in (False, True)]
    known = b.list_known_types()
    saved = dict(a.patterns)
    try:
        if case["how"] % 2:
            a.patterns.clear()
        else:
            for k in a.patterns:
                a.patterns[k] = re.compile("nothing of that kind")
        for det, what in ((b, "an older"), (TypeDetector(), "a newer")):
            eq([det.detect_type(cell, is_quoted=q) for q in (False, True)], want, "types of %r for %s detector" % (cell, what))
            eq(det.list_known_types(), known, "known types of %s detector" % what)
    except (KeyError, AssertionError) as e:
        expect(False, "a detector with other patterns disturbs the others: %s" % type(e).__name__)
    finally:
        a.patterns.update(saved)
    return ["NT"] if want[0] else ["unknown"]


PARTS = [
    Part("own", lambda rng: dict(gen_member(rng), how=rng.randint(0, 1)), check_own, 1000, 20000, rule="a cell of a known type"),
    Part("long", gen_long, check_long, 1200, 40000, rule="a cell of more than 1000 characters"),
    Part("deep", lambda rng: {"kind": rng.randint(0, 2), "n": rng.choice([1, 10, 100, 300, 1500, 20000, 50000])}, check_deep, 60, 1000, rule="more than 1000 levels"),
    Part("members", gen_member, check, 20000, 800000, setup=setup, rule="a non-empty member of one type's grammar"),
    Part("calendar", gen_calendar, check, 30000, 1500000, setup=setup, rule="a date, time or both"),
    Part("near", gen_near, check, 30000, 1500000, setup=setup, rule="a non-empty mutated member"),
    Part("soup", gen_soup, check, 20000, 1000000, setup=setup, rule="non-empty"),
    Part("chars", gen_char, check, 20000, 1000000, setup=setup, rule="one arbitrary character alone or within a cell"),
]
