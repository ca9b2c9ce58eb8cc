"""Files for the helpers and commands: contents, encodings, names."""
import io
import os
import random

from vlib import gens, refparse, texts

ENCODINGS = ["utf-8", "utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-32", "latin-1", "cp1252", "cp1251", "shift_jis", "gb18030", "euc-kr", "iso2022_jp", "utf-16-be"]
NAMES = ["plain.csv", "a $HOME.csv", "$HOME", "${PATH}.csv", "b*.csv", "[ab].csv", "c%20d.csv", "~e.csv", "~", "f?.csv", "%HOME%.csv", "g{0}.csv", "-", "-h.csv", "#i.csv", "j;k.csv", "l.csv.gz", " m.csv ", "n.CSV", "file:o.csv", "p\\q.csv", "r&s.csv", "été.csv", "stdin", "0", "con"]
WIDEWORDS = ["été", "naïve", "Größe", "Привет", "мир", "日本", "中文字", "한국", "ñandú", "øre", "Ωμέγα", "données", "straße", "Łódź", "漢字かな", "данные", "é", "中"]


def encodable(text, enc):
    """The text without what the encoding cannot represent."""
    try:
        data = text.encode(enc)
        data.decode(enc)
        return text
    except UnicodeError:
        out = []
        for c in text:
            try:
                if c.encode(enc).decode(enc) == c:
                    out.append(c)
            except UnicodeError:
                pass
        return "".join(out)


def wide(rng, t, k=None):
    """Sprinkle words of other scripts over the text, inside the words."""
    for _ in range(k if k is not None else rng.choice([0, 3, 14, 25])):
        places = [i for i in range(1, len(t)) if t[i - 1].isalpha() and t[i].isalpha()]
        if not places:
            return t
        i = rng.choice(places)
        t = t[:i] + rng.choice(WIDEWORDS) + t[i:]
    return t


def long(rng, t):
    """A long file: the text many times, and something else at the end."""
    if not t or len(t) > 2000:
        return t
    nl = "\r\n" if "\r\n" in t else "\n" if "\n" in t else "\r"
    if t[-1] not in "\r\n":
        t += nl
    size = rng.choice([8192, 8192, 9000, 17000, 34000, 66000])
    return t * (size // len(t)) + (t if rng.random() < 0.5 else table_text(rng, 1.0))


def huge(rng):
    """A file of more than a megabyte whose end decides the dialect (quickly detected)."""
    size = rng.choice([1 << 20, 1 << 20, 1100000, 1 << 21]) + rng.randint(-2000, 200000)
    k = rng.choice([20, 30, 60])
    return {"w": k, "d": rng.choice(",;|\t"), "n": size // (20 * k + 2), "end": rng.choice(['"', "'"])}


def expand(x):
    """The text of a case: a string, or a repeated row and an end."""
    if isinstance(x, str):
        return x
    if not (isinstance(x, dict) and isinstance(x.get("w"), int) and isinstance(x.get("n"), int) and isinstance(x.get("d"), str) and len(x["d"]) == 1 and isinstance(x.get("end"), str)):
        return ""
    w = "abcdefghij" * min(max(0, x["w"]), 100)
    row = w + x["d"] + w + "\n"
    q = x["end"]
    return "one" + x["d"] + "two\n" + row * min(max(0, x["n"]), 4000000 // len(row)) + q + "ab" + q + x["d"] + q + "7" + q + "\n"


def open_fds(path):
    """Open descriptors of this process that refer to the path."""
    path = os.path.realpath(path)
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            if os.readlink("/proc/self/fd/" + f) == path:
                out.append(f)
        except OSError:
            pass
    return out


def decoded(path, enc):
    with io.open(path, "r", newline="", encoding=enc) as fp:
        return fp.read()


def lines(text):
    return io.StringIO(text, newline="")


def distinct(d, q, e):
    sp = [x for x in (d, q, e) if x]
    return len(set(sp)) == len(sp) and not any(len(x) > 1 or x in "\r\n\0" for x in sp)


def rows_of(text, d, q, e, strict=False, limit=131072):
    rows, err = refparse.parse(lines(text), d, q, e, strict, limit)
    return refparse.plain(rows), err


def write(path, data):
    with open(path, "wb") as fp:
        fp.write(data)


def table_text(rng, simple=0.5):
    """Text of a table, mostly one whose dialect can be detected."""
    r = rng.random()
    if r < simple:
        d = rng.choice([",", ";", "\t", "|"])
        q = rng.choice(["", '"', '"', "'"])
        nl = rng.choice(["\n", "\n", "\r\n", "\r"])
        cols = rng.choice([1, 2, 3, 3, 5])
        rows = []
        kinds = [rng.choice(["int", "word", "words", "float", "date", "word"]) for _ in range(cols)]
        rows.append(["%s%d" % (texts.TYPED["word"](rng), j) for j in range(cols)])
        for _ in range(rng.choice([1, 2, 3, 6, 12])):
            row = [texts.TYPED[k](rng) for k in kinds]
            if q and rng.random() < 0.3:
                j = rng.randrange(cols)
                row[j] += rng.choice([d + "x", q + q + "y" + q + q, nl + "z", " "])
            rows.append(row)
        quoted = [rng.random() < 0.5 for _ in range(cols)]
        out = []
        for row in rows:
            out.append(d.join(q + c + q if q and (quoted[j] or any(x in c for x in (d, q, "\n", "\r"))) else c for j, c in enumerate(row)))
        return nl.join(out) + rng.choice(["", nl, nl])
    if r < 0.85:
        return texts.table(rng)
    return texts.text(rng)
