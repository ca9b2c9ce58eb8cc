"""Shared generators. Everything draws from the random.Random passed in."""
import io

DELIMS = [",", ";", "\t", "|", " ", ":", "-", "^", "~", "a", "é", "—", "中", "😀", "\x01"]
QUOTES = ['"', "'", "`", "~", "q", "«", "“", "𝄞"]
ESCS = ["\\", "/", "@", "!", "^", "§", "x", "𝄢"]
LETTERS = "abcxyzAZ0189"
WIDE = ["é", "ß", "中", "Ж", "\u00a0", "😀", "\U0010ffff", "\u2028", "\x85", "\x0b", "\x0c", "\x1c"]


def triple(rng, empty=0.15, simple=0.5, empty_d=None):
    """Distinct delimiter, quotechar, escapechar (each possibly empty)."""
    while True:
        if rng.random() < simple:
            d, q, e = rng.choice([",", ";", "\t", "|"]), rng.choice(['"', "'"]), rng.choice(["\\", "\\", "", "/"])
        else:
            d, q, e = rng.choice(DELIMS), rng.choice(QUOTES), rng.choice(ESCS)
        if rng.random() < (empty if empty_d is None else empty_d):
            d = ""
        if rng.random() < empty:
            q = ""
        if rng.random() < empty * 2:
            e = ""
        s = [x for x in (d, q, e) if x]
        if len(set(s)) == len(s):
            return d, q, e


def tokens(rng, d, q, e, n, newline=None):
    """A token list biased to the special characters; mostly short."""
    nl = newline or rng.choice(["\n", "\n", "\r\n", "\r", "mix"])
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            t = d
        elif r < 0.38:
            t = q
        elif r < 0.44:
            t = q + q
        elif r < 0.52:
            t = e
        elif r < 0.58:
            t = e + rng.choice([q, d, e, "a", "\n"])
        elif r < 0.7:
            t = rng.choice(["\n", "\r\n", "\r"]) if nl == "mix" else nl
        elif r < 0.73:
            t = q + d
        elif r < 0.76:
            t = d + q
        elif r < 0.8:
            t = " "
        elif r < 0.86:
            t = rng.choice(WIDE)
        else:
            t = rng.choice(LETTERS)
        out.append([t, 1])
    return out


def text_of(toks):
    return "".join(t * n for t, n in toks)


BOUNDS = [1, 2, 3, 4, 5, 8, 16, 4095, 4096, 4097, 8191, 8192, 8193, 16384]


def lines_of(text, mode, cuts=()):
    """Turn a text into the iterable's items."""
    if mode == "file":
        return list(io.StringIO(text, newline=""))
    if mode == "keepends":
        return text.split("\n") and [x + "\n" for x in text.split("\n")[:-1]] + ([text.split("\n")[-1]] if text.split("\n")[-1] else [])
    if mode == "noends":
        return [x.rstrip("\r\n") for x in io.StringIO(text, newline="")]
    if mode == "whole":
        return [text]
    out, p = [], 0
    for c in sorted(c % (len(text) + 1) for c in cuts):
        out.append(text[p:c])
        p = c
    out.append(text[p:])
    return out


def cell_plain(rng, avoid="", maxlen=8):
    n = rng.choice([0, 1, 1, 2, 3, rng.randint(0, maxlen)])
    out = []
    for _ in range(n):
        c = rng.choice(LETTERS + "  .-_") if rng.random() < 0.85 else rng.choice(WIDE)
        if c not in avoid:
            out.append(c)
    return "".join(out)
