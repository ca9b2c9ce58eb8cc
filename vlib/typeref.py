"""Formats of the cell types, as grammars that both recognise and generate."""
import json
import unicodedata

cat = unicodedata.category


class G:
    """A grammar: ends(s, i) -> set of end positions; make(rng) -> member."""

    def __init__(self, ends, make):
        self.ends, self.make = ends, make

    def full(self, s):
        return len(s) in self.ends(s, 0)


def lit(x):
    return G(lambda s, i: {i + len(x)} if s.startswith(x, i) else set(), lambda r: x)


def one(pred, sample):
    """One character; sample: characters to generate from."""
    return G(lambda s, i: {i + 1} if i < len(s) and pred(s[i]) else set(), lambda r: r.choice(sample))


def chars(cs):
    return one(lambda c: c in cs, sorted(cs))


def seq(*gs):
    def ends(s, i):
        cur = {i}
        for g in gs:
            cur = set().union(*(g.ends(s, j) for j in cur)) if cur else set()
        return cur

    return G(ends, lambda r: "".join(g.make(r) for g in gs))


def alt(*gs):
    return G(lambda s, i: set().union(*(g.ends(s, i) for g in gs)), lambda r: r.choice(gs).make(r))


def opt(g):
    return G(lambda s, i: {i} | g.ends(s, i), lambda r: g.make(r) if r.random() < 0.5 else "")


def rep(g, lo=0, hi=None, typ=4):
    def ends(s, i):
        cur, out, n = {i}, set(), 0
        if lo == 0:
            out.add(i)
        seen = set()
        while cur and (hi is None or n < hi):
            cur = set().union(*(g.ends(s, j) for j in cur))
            n += 1
            if n >= lo:
                out |= cur
                if hi is None:
                    cur -= seen
                    seen |= cur
        return out

    def make(r):
        top = hi if hi is not None else max(lo, r.choice([1, 2, typ]))
        return "".join(g.make(r) for _ in range(r.randint(lo, max(lo, top))))

    return G(ends, make)


def nat(lo, hi, width=None):
    """Numbers lo..hi in decimal; width 2: exactly two digits, "02": one or two."""
    if width == 2:
        words = ["%02d" % k for k in range(lo, hi + 1)]
    elif width == "02":
        words = sorted({w for k in range(lo, hi + 1) for w in ("%d" % k, "%02d" % k)})
    else:
        words = ["%d" % k for k in range(lo, hi + 1)]
    ws = set(words)
    return G(lambda s, i: {i + n for n in (1, 2) if s[i:i + n] in ws and i + n <= len(s)}, lambda r: r.choice(words))


digit = one(lambda c: c.isdecimal(), "0123456789")  # any script
digits = rep(digit, 1)
sign = opt(chars("+-"))
nonzero = chars("123456789")
integer = alt(lit("0"), seq(nonzero, rep(digit)))
exponent = seq(chars("eE"), sign, digits)

# numbers: integer, decimal point or comma, exponent
number_plain = seq(sign, alt(
    seq(integer, opt(exponent)),
    seq(integer, lit("."), rep(digit), opt(exponent)),
    seq(lit("."), digits, opt(exponent)),
    seq(opt(integer), lit(","), digits, opt(exponent)),
))
three = rep(digit, 3, 3)
group = seq(nonzero, rep(digit, 0, 2))
number_sep = alt(*(seq(sign, group, rep(seq(lit(t), three), 1), lit(m), rep(digit)) for t, m in ((",", "."), (".", ","))))
number = alt(number_plain, number_sep)
spaces = rep(lit(" "), 0)
percentage = seq(number, spaces, lit("%"))
currency = seq(one(lambda c: cat(c) == "Sc", "$€£¥₹"), spaces, number)

letnum = lambda c: cat(c)[0] in "LN"
label = rep(one(lambda c: letnum(c) or c == "-", "abcxyzAé中019-"), 1)
low = one(lambda c: "a" <= c <= "z", "abcdefmoqz")
port = seq(lit(":"), rep(digit, 1, 5))
quad = seq(*[x for k in range(4) for x in ([lit(".")] if k else []) + [rep(digit, 1, 3)]])
host = alt(
    seq(rep(seq(label, lit(".")), 1), alt(rep(low, 2), lit("local")), opt(seq(lit("."), rep(low, 2, 3)))),
    seq(lit("localhost"), opt(port)),
    seq(quad, opt(port)),
)
nodash = G(lambda s, i: set() if s.startswith("-", i) else {i}, lambda r: "")
url = seq(
    opt(seq(alt(lit("http"), lit("https"), lit("ftp")), lit("://"), nodash)),
    host,
    opt(seq(lit("/"), rep(one(lambda c: letnum(c) or c in "_/()~?=&%-#.:", "abzé0_/()~?=&%-#.:"), 0, None, 8))),
    opt(seq(lit("."), rep(low, 1))),
)
ASCII = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
email = seq(rep(chars(set(ASCII + "_.+-")), 1), lit("@"), rep(chars(set(ASCII + "-")), 1), lit("."), rep(chars(set(ASCII + "-.")), 1))
ipv4 = quad
unix_path = seq(opt(chars("~.")), rep(seq(lit("/"), rep(chars(set(ASCII + ".-_")), 1)), 1), opt(lit("/")))

# times
HH, MM, H = nat(0, 23, 2), nat(0, 59, 2), nat(0, 23)
hms = seq(HH, lit(":"), MM, lit(":"), MM)
hmsz = seq(hms, chars("+-"), nat(0, 19, 2), lit(":"), MM)
local = alt(seq(H, lit(":"), MM), seq(HH, lit(":"), MM), hms)
time = alt(local, hmsz)
offset = alt(local, seq(HH, MM), HH)

# dates
# digits that are not restricted to a range may be of any script
teen = G(seq(chars("12"), digit).ends, lambda r: str(r.randint(10, 29)))
month2, day2 = nat(1, 12, 2), alt(nat(1, 31, 2), teen)
month, day = nat(1, 12, "02"), alt(nat(1, 31, "02"), teen)
year = alt(seq(chars("12"), three), rep(digit, 2, 2))


def dates(seps):
    out = []
    for s in seps:
        s = lit(s)
        out += [seq(month, s, day, s, year), seq(day, s, month, s, year), seq(year, s, month, s, day)]
    out += [seq(month2, day2, year), seq(day2, month2, year), seq(year, month2, day2)]
    for a, b, c in ("年月日", "년월일"):
        out.append(seq(year, lit(a), month, lit(b), day, lit(c)))
    return alt(*out)


date = dates("-/. ")
date_ns = dates("-/.")
# a time with an offset is itself a time, so either side of a + may have one
west = seq(hms, lit("-"), nat(0, 19, 2), lit(":"), MM)
datetime = alt(seq(date_ns, lit(" "), time),
               seq(date_ns, lit("T"), alt(time, seq(time, lit("Z")), seq(local, chars("+-"), offset),
                                          seq(alt(local, west), lit("+"), alt(offset, west)))))

nan = G(lambda s, i: {i + len(w) for w in ("n/a", "na", "nan") if s[i:i + len(w)].lower() == w},
        lambda r: "".join(r.choice([c, c.upper()]) for c in r.choice(["n/a", "na", "nan"])))
SPECIALS = ("-_" "\u002e\u06d4\u3002\ufe52\uff0e\uff61" "()\u27ee\u27ef\uff08\uff09"
            "?\u00BF\u037E\u055E\u061F\u1367\u1945\u2047\u2048\u2049\u2CFA\u2CFB\u2E2E\uA60F\uA6F7\uFE16\uFE56\uFF1F\U00011143\U0001E95F"
            "!\u00A1\u01C3\u055C\u07F9\u109F\u1944\u203C\uAA77\uFE15\uFE57\uFF01\U0001E95E")
QSPECIALS = ",\u060C\u1363\u1802\u1808\uFF0C\uFE50"
alnum_sample = "abcXYZ0189éß中Ж٣½Ⅷ  " + SPECIALS
alphanum = rep(one(lambda c: letnum(c) or c == " " or c in SPECIALS, alnum_sample), 1, None, 8)
alphanum_q = rep(one(lambda c: letnum(c) or c == " " or c in SPECIALS or c in QSPECIALS, alnum_sample + QSPECIALS), 1, None, 8)
anychar = one(lambda c: True, "abc\\x01'\" ,;()")
bytearr = G(lambda s, i: {len(s)} if s.startswith("bytearray(b", i) and s.endswith(")") and len(s) > i + 11 else set(),
            lambda r: "bytearray(b" + rep(anychar, 0, 6).make(r) + ")")


def _json_make(r):
    def val(k):
        if k > 2 or r.random() < 0.5:
            return r.choice([1, -2.5, "x", "a,b", "", None, True, "é", "q\"q"])
        if r.random() < 0.5:
            return [val(k + 1) for _ in range(r.randint(0, 3))]
        return {r.choice("abcd"): val(k + 1) for _ in range(r.randint(0, 3))}

    return json.dumps({r.choice("abcd"): val(0) for _ in range(r.randint(0, 3))}, ensure_ascii=r.random() < 0.5,
                      indent=r.choice([None, None, 1]))


def _json_ends(s, i):
    if i or not (s.startswith("{") and s.endswith("}")):
        return set()
    try:
        json.loads(s)
    except (ValueError, RecursionError):
        return set()
    return {len(s)}


json_obj = G(_json_ends, _json_make)
empty = G(lambda s, i: {i}, lambda r: "")

TYPES = {"empty": empty, "url": url, "email": email, "ipv4": ipv4, "number": number, "time": time, "percentage": percentage,
         "currency": currency, "unix_path": unix_path, "nan": nan, "date": date, "datetime": datetime,
         "unicode_alphanum": alphanum, "bytearray": bytearr, "json": json_obj}


def types_of(cell, quoted):
    out = set()
    for name, g in TYPES.items():
        if name == "unicode_alphanum" and quoted:
            g = alphanum_q
        if g.full(cell):
            out.add(name)
    return out
