"""Texts for dialect detection: table-like, tie-prone, messy and arbitrary."""
import random

from vlib import gens

TYPED = {
    "int": lambda r: str(r.randint(-999, 99999)),
    "float": lambda r: "%.*f" % (r.randint(1, 3), r.uniform(-100, 100)),
    "comma": lambda r: "%d,%02d" % (r.randint(0, 999), r.randint(0, 99)),
    "word": lambda r: "".join(r.choice("abcdefgXYZ") for _ in range(r.randint(1, 7))),
    "words": lambda r: " ".join("".join(r.choice("abcdefg") for _ in range(r.randint(1, 5))) for _ in range(r.randint(2, 4))),
    "date": lambda r: "%04d-%02d-%02d" % (r.randint(1900, 2030), r.randint(1, 12), r.randint(1, 28)),
    "dmy": lambda r: "%d/%d/%d" % (r.randint(1, 28), r.randint(1, 12), r.randint(1990, 2030)),
    "time": lambda r: "%02d:%02d" % (r.randint(0, 23), r.randint(0, 59)),
    "datetime": lambda r: "%04d-%02d-%02d %02d:%02d:%02d" % (r.randint(1900, 2030), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)),
    "email": lambda r: "%s@%s.com" % (TYPED["word"](r), TYPED["word"](r)),
    "url": lambda r: r.choice(["http://www.%s.com", "https://%s.org/a,b;c", "www.%s.net", "http://%s.com/x?y=1&z=2|3"]) % TYPED["word"](r).lower(),
    "pct": lambda r: "%d%%" % r.randint(0, 100),
    "cur": lambda r: r.choice(["$%d", "€%d.00", "%d USD"]) % r.randint(0, 999),
    "na": lambda r: r.choice(["N/A", "n/a", "nan", "NULL", "-", ""]),
    "json": lambda r: r.choice(['{"a": 1}', '{"a": [1, 2], "b": {}}', "{}", '{"x": "y"}']),
    "ip": lambda r: "%d.%d.%d.%d" % tuple(r.randint(0, 255) for _ in range(4)),
    "odd": lambda r: "".join(r.choice("ab1 -_:#%&*()!?+=<>~^'") for _ in range(r.randint(1, 8))),
    "wide": lambda r: "".join(r.choice("éßЖ中日ñ“”«»—–…\u00a0") for _ in range(r.randint(1, 5))),
    "path": lambda r: "/" + "/".join(TYPED["word"](r) for _ in range(r.randint(1, 3))),
    "empty": lambda r: "",
}
NAMES = sorted(TYPED)
DELS = [",", ";", "\t", "|", " ", ":", "-", "^", "~", "*", "#", "&", "=", "§", "、", "·"]


def table(rng, d=None, q=None, e=None, nl=None, maxrows=8, kinds=None):
    """A table-like text in some dialect; sometimes ragged or damaged."""
    d = rng.choice(DELS[:6] if rng.random() < 0.7 else DELS) if d is None else d
    q = rng.choice(['"', '"', "'", "", "", "~", "`"]) if q is None else q
    e = rng.choice(["", "", "\\", "\\", "@", "/"]) if e is None else e
    if q == d:
        q = ""
    if e in (d, q):
        e = ""
    nl = nl or rng.choice(["\n", "\n", "\r\n", "\r"])
    cols = rng.choice([1, 2, 2, 3, 3, 4, 6])
    kinds = [rng.choice(kinds or NAMES) for _ in range(cols)]
    style = rng.choice(["none", "all", "some", "cols", "need"])
    qcols = [rng.random() < 0.5 for _ in range(cols)]
    rows = []
    n = rng.choice([1, 2, 3, 3, rng.randint(2, maxrows)])
    if rng.random() < 0.4:
        rows.append(d.join(TYPED["word"](rng) for _ in range(cols)))
    for _ in range(n):
        cells = []
        for j in range(cols):
            if rng.random() < 0.03:
                c = TYPED[rng.choice(NAMES)](rng)
            else:
                c = TYPED[kinds[j]](rng)
            r = rng.random()
            if r < 0.05:
                c += d + TYPED["word"](rng)
            elif r < 0.08 and q:
                c = c + q + q + "x"
            elif r < 0.11 and e:
                c = c + e + rng.choice([d, q or d, e]) + "y"
            elif r < 0.12:
                c = c + nl + "z"
            special = any(x and x in c for x in (d, q, "\n", "\r"))
            if q and (style == "all" or style == "some" and rng.random() < 0.5 or style == "cols" and qcols[j] or special and rng.random() < 0.8):
                c = q + c + q
            cells.append(c)
        if rng.random() < 0.04:
            cells = cells[:-1] or cells
        rows.append(d.join(cells))
    out = nl.join(rows)
    if rng.random() < 0.6:
        out += nl
    if rng.random() < 0.05:
        out = nl + out
    return out


def tie(rng):
    """Several delimiters or quotes with equal claims."""
    k = rng.randint(0, 7)
    w = TYPED[rng.choice(["word", "int", "odd", "words"])]
    n = rng.randint(1, 5)
    d1, d2 = rng.sample(DELS[:8], 2)
    if k == 0:
        return "\n".join(w(rng) + d1 + w(rng) + d2 + w(rng) for _ in range(n))
    if k == 1:
        return "\n".join(w(rng) + d1 + d2 + w(rng) for _ in range(n)) + "\n"
    if k == 2:
        q = rng.choice("\"'~`")
        return "\n".join(q + w(rng) + q + d1 + w(rng) for _ in range(n))
    if k == 3:
        return "\n".join("'" + w(rng) + "'" + d1 + '"' + w(rng) + '"' for _ in range(n))
    if k == 4:
        e = rng.choice("\\/@")
        return "\n".join(w(rng) + e + d1 + w(rng) + d1 + w(rng) + e + '"' for _ in range(n))
    if k == 5:
        return rng.choice(["#", "*", "?", "!"]) * rng.randint(1, 20) + "\n" + rng.choice(["~", "'", '"', "`"]) * rng.randint(0, 5)
    if k == 6:
        es = rng.sample(["\\", "/", "@", "§", "¡"], 2)
        return "\n".join(w(rng) + es[0] + d1 + w(rng) + es[1] + d1 + "'" + w(rng) + "'" for _ in range(n))
    return "\n".join(d1.join([w(rng) + d2 + w(rng)] * rng.randint(1, 3)) for _ in range(n))


def soup(rng, n=None):
    d, q, e = gens.triple(rng)
    return gens.text_of(gens.tokens(rng, d, q, e, n or rng.choice([0, 1, 2, 3, 5, 10, 20, 40])))


ALPH = ["\n", "\r", "\t", " ", '"', "'", ",", ";", "|", "\\", "a", "1", ".", "/", ":", "-", "é", "\x00", "\x1b", "\u2028", "\x85",
        "\x0b", "\x0c", "\ufeff", "😀", "{", "}", "[", "]", "(", ")", "<", ">", "@", "#", "~", "`", "%", "&", "=", "+", "_", "*", "^", "$", "€", "£",
        "\x1c", "\x1d", "\u00ad", "\u200b", "\ue000", "\U0010ffff", "٣", "½", "Ⅷ", "ǅ", "ʰ", "“", "„", "（", "）"]


def arbitrary(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 15, 40])
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.75:
            c = rng.choice(ALPH)
        elif r < 0.9:
            c = chr(rng.randint(0, 0x2FF))
        else:
            c = chr(rng.randint(0, 0x10FFFF))
        if (c == "\0" and rng.random() < 0.9):
            c = ","
        out.append(c)
    return "".join(out)


def mutate(rng, s):
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randint(0, len(s))
        r = rng.random()
        if r < 0.4 and s:
            s = s[:i] + s[i + rng.choice([1, 1, 2, 5]):]
        elif r < 0.8:
            s = s[:i] + rng.choice(['"', "'", "\\", ",", ";", "\n", "\r", "\t", " ", "~", '""', "/", "a", "é", "http://a.b/c,d "]) + s[i:]
        else:
            j = rng.randint(0, len(s))
            a, b = min(i, j), max(i, j)
            s = s[:b] + s[a:b] + s[b:] if b - a < 200 else s
    return s


def special(rng):
    k = rng.randint(0, 6)
    if k == 0:
        return rng.choice(["", " ", "\n", "\r\n", "\t", "\n\n\n", '"', '""', '"\n', "'", ",", ",,,\n,,,", "\\", "\\\n", "\ufeff", "\ufeffa,b\n1,2\n", "  \n  "])
    if k == 1:
        n = rng.choice([1, 5, 50, 500, 2000])
        return rng.choice(["[", '{"a":', "(", "[{"]) * n + rng.choice(["", "]" * n])
    if k == 2:
        return "a,b\n" + "x y " * rng.choice([10, 1000, 3000]) + ",c\n"
    if k == 3:
        return '"' + "a b\n" * rng.choice([10, 500]) + rng.choice(['"', '",c', ""])
    if k == 4:
        return "".join(chr(rng.randint(1, 255)) for _ in range(rng.choice([10, 60, 200])))
    if k == 5:
        return "int main(void) {\n  return f(a, b[%d]) ? \"x\" : 'y';\n}\n" % rng.randint(0, 9) * rng.randint(1, 3)
    return rng.choice([",", ";", '"', "'", "\\", "-", " ", "\n", "~"]) * rng.choice([1, 2, 3, 9, 100, 3000])


def text(rng, nul=False):
    r = rng.random()
    if r < 0.35:
        s = table(rng)
    elif r < 0.5:
        s = mutate(rng, table(rng))
    elif r < 0.65:
        s = tie(rng)
    elif r < 0.8:
        s = soup(rng)
    elif r < 0.93:
        s = arbitrary(rng)
    else:
        s = special(rng)
    return s if nul else s.replace("\0", "")
