"""C17: the potential dialects are exactly those the characters allow."""
import itertools
import re

from clevercsv import potential_dialects
from clevercsv.potential_dialects import get_dialects

from vlib import refdetect, texts, typeref
from vlib.engine import Part, cut, eq, expect

ASSUMPTIONS = ["where a URL starts and ends is taken from the code under test in the part 'sets'; the part 'urls' places "
               "generated URLs between characters that cannot belong to one, and states the result without it"]


def comps(ds):
    return [(d.delimiter, d.quotechar, d.escapechar) for d in ds]


def compare(got, want, what):
    expect(len(got) == len(set(got)), "%s: a dialect is returned twice: %r" % (what, sorted(x for x in set(got) if got.count(x) > 1)[:3]))
    missing, extra = set(want) - set(got), set(got) - set(want)
    expect(not missing, "%s: missing %r" % (what, sorted(missing)[:5]))
    expect(not extra, "%s: unexpected %r" % (what, sorted(extra)[:5]))


def as_kind(kind, delims):
    return [list, "".join, tuple, set, frozenset][kind % 5](delims)


def verify(text, delims, kind, want_all, f, masks=True):
    if delims is None:
        got = comps(cut("get_dialects", get_dialects, text))
    else:
        got = comps(cut("get_dialects", get_dialects, text, delimiters=as_kind(kind, delims)))
    compare(got, want_all, "dialects")
    for g in got:
        expect(all(isinstance(x, str) and len(x) <= 1 for x in g), "components of %r" % (g,))
    n = 0
    if masks:
        kw = {} if delims is None else {"delimiters": as_kind(kind, delims)}
        got = comps(cut("get_dialects", get_dialects, text, test_masked_by_quotes=True, **kw))
        # a delimiter that is also the quote or escape character: no statement
        clear = lambda x: x[0] not in (x[1], x[2]) or not x[0]
        want = [x for x in want_all if clear(x) and not refdetect.masked(text, x[1], x[2], x[0])]
        compare([g for g in got if clear(g)], want, "dialects not masked by quotes")
        n = len(want_all) - len(want)
    return n


def check(case):
    text = case["text"]
    if len(text) > 3000:
        return []
    delims = case["delims"]
    want = refdetect.candidates(text, delims)
    n = verify(text, delims, case["kind"], want, None, masks=len(want) * len(text) < 60000)
    f = potential_dialects.filter_urls(text)
    if delims is None:
        eq(set(cut("get_delimiters", potential_dialects.get_delimiters, f, "utf-8")), refdetect.auto_delims(text) | {""}, "get_delimiters")
    eq(set(cut("get_quotechars", potential_dialects.get_quotechars, f)), {c for c in f if c in refdetect.QUOTES} | {""}, "get_quotechars")
    lab = []
    if len(want) > 3:
        lab.append("NT")
    if any(e for _, _, e in want):
        lab.append("escape character")
    if n:
        lab.append("masked delimiters")
    if delims is not None:
        lab.append("explicit delimiters")
    return lab


def gen(rng):
    t = texts.text(rng)
    if rng.random() < 0.25:
        for _ in range(rng.randint(1, 3)):
            i = rng.randint(0, len(t))
            t = t[:i] + rng.choice([typeref.url.make(rng), "\\,", "@;", "/\t", "§|", "\\'", '\\"', "`", "~", "\\~", "¶¶", "\\\\,", chr(rng.randint(1, 0x2fff))]) + t[i:]
    delims = None
    if rng.random() < 0.35:
        pool = sorted(set(t))[:40] + [",", ";", "x", "\t", "|", "é", "\n", "'", "U"]
        delims = sorted(set(rng.choice(pool) for _ in range(rng.randint(0, 5))))
    return {"text": t[:1500], "delims": delims, "kind": rng.randint(0, 4)}


KINDS = {}


def gen_chars(rng):
    """Characters of every category, with their compatibility forms, in the places that count."""
    if not KINDS:
        for i in range(1, 0x110000):
            KINDS.setdefault(refdetect.unicodedata.category(chr(i)), []).append(chr(i))
    cs = [rng.choice(KINDS[rng.choice(["Po", "Po", "Po", "Pd", "Pc", "Ps", "Pe", "Pi", "Pf", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Mn", "Mc", "Nd", "Nl", "No", "Lo", "Lm", "Lt", "Lu", "Ll", "Co", "Cn", "Cs", "Me"])])
          for _ in range(rng.randint(1, 4))]
    cs += rng.sample([",", ";", "'", '"', "`", "~", "\t"], 2)
    return {"text": "".join(rng.choice(["a", "", " ", "\n"]) + rng.choice(cs) + rng.choice(cs) for _ in range(rng.randint(4, 14))), "delims": rng.choice([None, None, cs[:2]]), "kind": rng.randint(0, 4)}


# hosts that are URLs without a scheme
HOST = re.compile(r"(localhost|\d{1,3}(\.\d{1,3}){3})(:\d{1,5})?(/.*)?")
OUTSIDE = [" ", ";", "|", "\n", '"', "'", "`", ",", "\t", "{", "!", "^", "<", "é ", "a "]


def check_urls(case):
    text, plain = "", ""
    urls = []
    for p in case["pieces"]:
        if not (isinstance(p, list) and len(p) == 2 and isinstance(p[1], str)):
            return []
        if p[0]:
            u = p[1]
            if not u or not typeref.url.full(u) or "://" not in u and not HOST.fullmatch(u):
                return []
            text += ";" + u + ";"
            plain += ";U;"
            urls.append(u)
        else:
            if any(c not in 'ab1 ;|\n"\'`,\t{!^<é\\@' for c in p[1]):
                return []
            text += p[1]
            plain += p[1]
    if isinstance(case.get("rep"), int) and text:
        n = min(abs(case["rep"]), 400000 // len(text)) + 1
        text, plain = text * n, plain * n
        first = case.get("first")
        if isinstance(first, str) and not set(first) - set("ab \n;"):
            text, plain = first + text, first + plain
    # what a greedy match leaves of a URL is not stated: its parts must match whole
    want_chars = set(plain)
    got = potential_dialects.filter_urls(text)
    ds = {""} | {c for c in want_chars if c == "\t" or (c not in refdetect.BLOCK_CHARS and refdetect.unicodedata.category(c) not in refdetect.BLOCK)}
    qs = {""} | {c for c in want_chars if c in refdetect.QUOTES}
    pairs = set(zip(text, text[1:]))
    want = []
    for d, q in itertools.product(ds, qs):
        es = {""} | {u for u, v in pairs if refdetect.is_escape(u) and v in (d, q)}
        want += [(d, q, e) for e in es]
    del got
    compare(comps(cut("get_dialects", get_dialects, text)), want, "dialects of a text with URLs")
    return ["NT"] if urls and set("".join(urls)) - want_chars - set("/.") else []


def simple_url(rng):
    """A URL with path characters that would be delimiters elsewhere."""
    h = "".join(rng.choice("abcxyz") for _ in range(rng.randint(2, 6)))
    if rng.random() < 0.25:
        u = rng.choice(["localhost", "127.0.0.1", "10.20.30.255"])
        u += rng.choice(["", ":80", ":8080"])
        return u + rng.choice(["", "/", "/" + "".join(rng.choice("ab12_/()~?=&%-#.:") for _ in range(rng.randint(1, 8))) + "a"])
    u = rng.choice(["http://", "https://", "ftp://"]) + rng.choice(["www.", ""]) + h + rng.choice([".com", ".org", ".co.uk", ".local"])
    if rng.random() < 0.8:
        u += "/" + "".join(rng.choice("ab12_/()~?=&%-#.:") for _ in range(rng.randint(1, 10))) + rng.choice(["a", "1", "/"])
    return u


def gen_urls(rng):
    pieces = []
    for _ in range(rng.randint(1, 5)):
        if rng.random() < 0.5:
            pieces.append([1, simple_url(rng)])
        else:
            pieces.append([0, "".join(rng.choice('ab1 ;|\n"\'`,\t{!^<é\\@') for _ in range(rng.randint(0, 6)))])
    c = {"pieces": pieces}
    if rng.random() < 0.004:
        c["rep"] = rng.choice([300, 1100, 3000, 10000, 40000, 400000])
        c["first"] = rng.choice(["", "a", "ab ;", "b\n"])
    return c


def check_masked(case):
    t, q, e, d = case["text"], case["q"], case["e"], case["d"]
    if any(len(x) > 1 for x in (q, e, d)) or d and d in (q, e):
        return []
    if e and e == q:
        return []
    got = cut("masked_by_quotechar", potential_dialects.masked_by_quotechar, t, q, e, d)
    want = refdetect.masked(t, q, e, d)
    eq(bool(got), want, "masked_by_quotechar(%r, %r, %r, %r)" % (t, q, e, d))
    lab = ["masked" if want else "not masked"]
    if q and d and q in t and d in t:
        lab.append("NT")
    return lab


def gen_masked(rng):
    q, e, d = rng.choice(['"', "'", ""]), rng.choice(["\\", "\\", "", "/"]), rng.choice([",", ",", ";", ""])
    out = []
    inside = False
    for _ in range(rng.randint(0, 12)):
        r = rng.random()
        if r < 0.45 or not q:
            out.append(rng.choice(["a", "\n", e, e + e, "b"]) if not inside or rng.random() < 0.4 else d + "x")
        elif r < 0.75:
            out.append(q)
            inside = not inside
        elif r < 0.88:
            out.append(rng.choice([q + q, e + q, e + e + q, q + q + q]))
        else:
            out.append(rng.choice([d, e + d]) if rng.random() < 0.2 else "c")
    return {"text": "".join(out), "q": q, "e": e, "d": d}


# texts whose deciding characters come very late
def check_far(case):
    head, unit, tail, n = case["head"], case["unit"], case["tail"], case["n"]
    if not unit or len(head + unit + tail) > 200 or any("http" in x or "@" in x for x in (head, unit, tail)):
        return []
    n = min(abs(n), 1200000) // len(unit) + 3
    delims = case["delims"]
    want = refdetect.candidates(head + unit * 3 + tail, delims)
    kw = {} if delims is None else {"delimiters": as_kind(case["kind"], delims)}
    text = head + unit * n + tail
    compare(comps(cut("get_dialects", get_dialects, text, **kw)), want, "dialects of %r + %r * %d + %r" % (head, unit, n, tail))
    return ["NT"] if len(text) > 60000 and len(want) > len(refdetect.candidates(head + unit * 3, delims)) else []


def gen_far(rng):
    pick = lambda pool, k: "".join(rng.choice(pool) for _ in range(rng.randint(0, k)))
    unit = pick("ab1", 3) + rng.choice([" ", ",", "\n", ", ", "'x' "]) + pick(["b", "2", "\n"], 2)
    tail = pick(["a", ";", "|", "\t", '"', "'", "~", "`", "\\,", "\\'", "@;", "§|", "^", "é", "\n", "\u3001"], 6)
    delims = rng.choice([None, None, [",", ";"], ["|", "^", "a"]])
    return {"head": pick("ab\n,", 3), "unit": unit, "tail": tail, "delims": delims, "kind": rng.randint(0, 4),
            "n": rng.choice([100, 5000, 40000, 70000, 140000, 270000, 399999])}


def check_masked_far(case):
    q, e, d, body, unit = case["q"], case["e"], case["d"], case["text"], case["unit"]
    if d in unit or q in unit or e and e in unit or not unit:
        return []
    # plain characters change nothing, wherever they are
    k = min(max(0, case["at"]), len(body))
    if k and e and body[k - 1] == e:
        k -= 1
        if k and body[k - 1] == e:
            return []
    want = refdetect.masked(body[:k] + unit + body[k:], q, e, d)
    pad = unit * (min(abs(case["n"]), 200000) // len(unit) + 1)
    got = cut("masked_by_quotechar", potential_dialects.masked_by_quotechar, body[:k] + pad + body[k:], q, e, d)
    eq(bool(got), want, "masked_by_quotechar(%r + %d characters + %r, %r, %r, %r)" % (body[:k], len(pad), body[k:], q, e, d))
    return ["NT", "masked" if want else "not masked"] if d in body and len(pad) > 1000 else []


def gen_masked_far(rng):
    while True:
        case = gen_masked(rng)
        if case["q"] and case["d"] and case["q"] in case["text"] and case["d"] in case["text"]:
            break
    return dict(case, unit=rng.choice(["z", "z\n", "xyz ", "é"]), at=rng.randint(0, len(case["text"])), n=rng.choice([2000, 5000, 20000, 70000, 70000, 140000]))


PARTS = [
    Part("masked far", gen_masked_far, check_masked_far, 400, 8000, rule="a delimiter and thousands of characters"),
    Part("far", gen_far, check_far, 300, 6000, rule="more candidates than its first 60 000 characters have", fixed=[
        {"head": "a", "unit": "ab \n", "tail": "'x';\"y\\\"", "delims": None, "kind": 0, "n": 1100000},
        {"head": "a,b\n", "unit": "ab,b\n", "tail": "~x~\\,^", "delims": [",", "^"], "kind": 1, "n": 1100000}]),
    Part("characters", gen_chars, check, 8000, 200000, rule="more than three candidate dialects"),
    Part("sets", gen, check, 50000, 1500000, rule="more than three candidate dialects"),
    Part("urls", gen_urls, check_urls, 30000, 1000000, rule="a URL with characters that occur nowhere else"),
    Part("masked", gen_masked, check_masked, 60000, 2000000, rule="both the quotechar and the tested character occur"),
]
