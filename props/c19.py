"""C19: the detected encoding decodes the file, wherever the evidence lies."""
import codecs
import os
import random
import unicodedata

from clevercsv.encoding import get_encoding

from vlib import files, texts
from vlib.engine import Part, Skip, cut, eq, expect

ASSUMPTIONS = ["UTF-8 text: letters of the Basic Multilingual Plane (the detection libraries themselves miss text whose letters need four bytes)",
               "plain ASCII text: printable characters, tab and line ends, without '~' (which HZ text uses) and without NUL or ESC",
               "large files are filled with varied words: a run of one letter over tens of thousands of characters convinces the libraries of a language",
               "text with a byte order mark: without NUL characters, and not starting with one more byte order mark"]


def get(data, backend):
    PATH = files.NAMES[len(data) % 64 if len(data) % 64 < len(files.NAMES) else 0]
    with open(PATH, "wb") as fp:
        fp.write(data)
    st = os.stat(PATH)
    old = st.st_mtime_ns
    a = cut("get_encoding", get_encoding, PATH, try_cchardet=backend)
    b = cut("get_encoding (second call)", get_encoding, PATH, backend)
    eq(b, a, "encoding detected by a second call")
    if backend:
        eq(cut("get_encoding (by default)", get_encoding, PATH), a, "encoding detected by default and with cchardet")
    expect(os.stat(PATH).st_mtime_ns == old and open(PATH, "rb").read() == data, "the file was changed")
    expect(a is None or isinstance(a, str), "encoding is %r" % (a,))
    if a is not None:
        try:
            codecs.lookup(a)
        except LookupError:
            expect(False, "encoding %r is not known to Python" % a)
    os.unlink(PATH)
    return a


WORDS = ("name value date country of the and to in is total price region Germany France London quarter sales amount customer "
         "order product quantity report January February with from for each north south 2019 2020 17 3.25 0 100 unknown yes no").split()


def filler(n):
    """n characters of varied, table-like ASCII text."""
    if n > 500000:
        return (filler(400000) * (n // 400000 + 1))[:n]
    r = random.Random(n)
    out, k = [], 0
    while k < n:
        w = r.choice(WORDS) + r.choice([",", ",", " ", " ", "\n"])
        out.append(w)
        k += len(w)
    return "".join(out)[:n]


def build(case):
    return "".join(filler(n) if t == "#" else t for t, n in case["toks"])


def check_text(case):
    for x in case["toks"]:
        if not (isinstance(x, list) and len(x) == 2 and isinstance(x[0], str) and isinstance(x[1], int) and 0 <= x[1] <= 21000000):
            return []
    text = build(case)
    if len(text) > 22000000:
        return []
    kind = case["kind"]
    if "\0" in text or any(0xd800 <= ord(c) < 0xe000 for c in text):
        return []
    lab = ["NT" if text else "empty"]
    if kind == "ascii":
        if any(not (32 <= ord(c) < 126 or c in "\t\r\n") for c in text) or not text:
            return []
        data = text.encode("ascii")
    elif kind == "utf-8":
        letters = [c for c in text if ord(c) > 127]
        if len(letters) < 12 or any(c not in "".join(SCRIPTS) for c in letters) or any(ord(c) < 128 and not (32 <= ord(c) < 126 or c in "\t\r\n") for c in text):
            return []
        data = text.encode("utf-8")
        first = len(text[:text.index(letters[0])])
        if first >= 65536:
            lab.append("evidence beyond 64 KiB")
    else:
        bom, enc = {"utf-8-bom": (codecs.BOM_UTF8, "utf-8"), "utf-16-le": (codecs.BOM_UTF16_LE, "utf-16-le"), "utf-16-be": (codecs.BOM_UTF16_BE, "utf-16-be"),
                    "utf-32-le": (codecs.BOM_UTF32_LE, "utf-32-le"), "utf-32-be": (codecs.BOM_UTF32_BE, "utf-32-be")}[kind]
        if text.startswith("\ufeff") or not text:
            return []
        data = bom + text.encode(enc)
    for backend in (True, False):
        if not backend and len(data) > 3000 and case["slow"]:
            continue
        enc = get(data, backend)
        expect(enc is not None, "no encoding detected for %s text (%s)" % (kind, "cchardet" if backend else "chardet"))
        try:
            got = data.decode(enc)
        except UnicodeError as e:
            expect(False, "detected encoding %s cannot decode the %s text: %s" % (enc, kind, e))
        eq(got, text, "%s text decoded with the detected encoding %s" % (kind, enc))
    return lab + [kind]


ASCII = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789,;.:-_+*/\\'\"!?()[]{}<>=#%&$@^|` "


def ascii_text(rng):
    if rng.random() < 0.1:
        return rng.choice([" ", "\n", "\t", "\r\n", "  ", "\n\n"])
    return "".join(rng.choice(ASCII) for _ in range(rng.randint(1, 12))) + rng.choice(["\n", "\n", "\r\n", ",", "\t", ""])


SCRIPTS = ["éèàçüößñøåæœÉÜ", "абвгдежзийклмнАБВ", "αβγδεζηθλμνξω", "中文字符编码检测表格", "ひらがなカタカナ", "한국어데이터", "אבגדהוזח", "ابتثجحخ", "กขคงจฉช", "ąćęłńóśźżčřžőű"]


def gen_text(rng):
    kind = rng.choice(["ascii", "utf-8", "utf-8", "utf-8", "utf-8-bom", "utf-16-le", "utf-16-be", "utf-32-le", "utf-32-be"])
    toks = [[ascii_text(rng), 1] for _ in range(rng.randint(0, 6))]
    if rng.random() < 0.03:
        toks = [[rng.choice([" ", "\n", "\t", "\r\n", " \n"]), rng.choice([1, 2, 7, 4096, 65536])] for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.25:
        target = rng.choice([4096, 65536, 65536, 131072, 200000]) + rng.randint(-6, 6)
        toks.insert(rng.randint(0, len(toks)), ["#", target])
    if kind == "utf-8":
        s = rng.choice(SCRIPTS)
        for _ in range(rng.randint(12, 40)):
            if rng.random() < 0.1:
                s = rng.choice(SCRIPTS)
            at = len(toks) if rng.random() < 0.5 else rng.randint(0, len(toks))
            w = rng.choice(s)
            toks.insert(at, [w + rng.choice(["", "", w, "a", ",", "\n"]), 1])
    elif kind != "ascii":
        for _ in range(rng.randint(0, 5)):
            toks.insert(rng.randint(0, len(toks)), [rng.choice(["é", "中", "😀", "\x01", "~", "\x1b", "ß,", "“x”", "\u2028", "Ж\n"]), 1])
    return {"kind": kind, "toks": toks, "slow": rng.random() < 0.7}


def gen_late(rng):
    """ASCII for one or several blocks, then the letters; also straddling."""
    n = rng.choice([65536, 65536, 65536, 131072, 196608, 300000, 4096, 8192]) + rng.choice([0, 0, 1, -1, 2, -2, rng.randint(-20, 20)])
    toks = [["#", n]]
    s = rng.choice(SCRIPTS)
    for _ in range(rng.randint(12, 30)):
        toks.append([rng.choice(s) + rng.choice(["", "", "a", ",", "\n"]), 1])
    if rng.random() < 0.4:
        toks.append(["#", rng.choice([5, 1000, 65536])])
    return {"kind": "utf-8", "toks": toks, "slow": rng.random() < 0.9}


def check_bytes(case):
    data = bytes.fromhex(case["hex"]) if isinstance(case["hex"], str) and len(case["hex"]) % 2 == 0 and all(c in "0123456789abcdef" for c in case["hex"]) else None
    if data is None or len(data) > 4000:
        return []
    data = data * max(1, min(abs(case["rep"]), 20000 // max(1, len(data))))
    names = [get(data, b) for b in (True, False)]
    return ["NT" if data else "empty"] + ["%s: %s" % (b, n) for b, n in zip(("cchardet", "chardet"), names) if n in (None, "ascii", "ASCII", "UTF-8", "utf-8")]


LEGACY = ["latin-1", "cp1252", "cp1251", "koi8-r", "iso8859-2", "iso8859-5", "iso8859-7", "cp1253", "shift_jis", "euc-jp", "iso2022_jp", "gb2312", "gb18030", "big5", "euc-kr",
          "cp949", "utf-16-le", "utf-16-be", "utf-7", "hz", "cp1255", "iso8859-8", "tis-620", "cp866", "mac_cyrillic", "cp437", "johab", "iso2022_kr", "cp1258", "utf-32-le", "cp037"]


def gen_bytes(rng):
    r = rng.random()
    if r < 0.1:
        b = bytes(rng.choice([[], [0], [0xff], [0xff, 0xfe], [0xef, 0xbb, 0xbf], [0xfe, 0xff, 0, 0], [0, 0, 0xff, 0xfe], [0xef, 0xbb], [0x80], [27, 36, 66]]))
    elif r < 0.35:
        b = bytes(rng.randint(0, 255) for _ in range(rng.choice([1, 2, 3, 10, 50, 300])))
    elif r < 0.5:
        b = bytes(rng.choice([rng.randint(32, 126), rng.randint(32, 126), rng.randint(128, 255)]) for _ in range(rng.choice([3, 10, 50, 300])))
    else:
        t = "".join(rng.choice([rng.choice(rng.choice(SCRIPTS)), ascii_text(rng)]) for _ in range(rng.randint(1, 60)))
        b = t.encode(rng.choice(LEGACY), "ignore")
        if rng.random() < 0.3:
            i = rng.randint(0, len(b))
            b = b[:i] + bytes([rng.randint(0, 255)]) + b[i:]
    return {"hex": b.hex(), "rep": rng.choice([1, 1, 1, 2, 40])}


def gen_far(rng):
    n = rng.choice([1 << 20, 1000000, 1 << 21, 1 << 22, 1 << 23, 10000000, 1 << 24, 20000000]) + rng.randint(-3, 70000)
    toks = [["#", n]]
    s = rng.choice(SCRIPTS)
    for _ in range(rng.randint(12, 30)):
        toks.append([rng.choice(s) + rng.choice(["", "", "a", ",", "\n"]), 1])
    if rng.random() < 0.3:
        toks.append(["#", rng.choice([5, 65536])])
    return {"kind": "utf-8", "toks": toks, "slow": rng.random() < 0.7}


PARTS = [
    Part("text", gen_text, check_text, 4000, 80000, rule="non-empty text"),
    Part("late", gen_late, check_text, 500, 8000, rule="non-empty text"),
    Part("far", gen_far, check_text, 16, 300, rule="non-empty text"),
    Part("bytes", gen_bytes, check_bytes, 4000, 100000, rule="non-empty file"),
]
