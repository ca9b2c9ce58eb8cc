"""The planted bugs (see plant.py)."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo, sh=None):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, sh=sh))


W = "clevercsv/wrappers.py"

bug("c01-escaped-escape-in-quotes", "C01",
    [("src/cparser.c", "if (u != self->escapechar && u != self->delimiter &&\n\t\t\t\t\tu != self->quotechar && u != '\\0') {", "if (u != self->escapechar &&\n\t\t\t\t\tu != self->quotechar && u != '\\0') {")],
    "a quoted cell that contains the escape character directly before the delimiter",
    "inside quotes the escape character is kept before the delimiter, so the cell has an extra character",
    r'''
import io
import clevercsv
rows = list(clevercsv.reader(io.StringIO('"a\\,b",c\n'), delimiter=",", quotechar='"', escapechar="\\"))
assert rows == [["a,b", "c"]], rows
''')

bug("c04-empty-lineterminator", "C04",
    [("clevercsv/write.py", 'if "lineterminator" not in props or props["lineterminator"] is None:', 'if not props.get("lineterminator"):')],
    "the empty string as lineterminator",
    "an empty lineterminator is replaced by a newline, unlike in csv.writer",
    r'''
import csv, io
import clevercsv
a, b = io.StringIO(), io.StringIO()
clevercsv.writer(a, lineterminator="").writerows([["a", "b"], ["c"]])
csv.writer(b, lineterminator="").writerows([["a", "b"], ["c"]])
assert a.getvalue() == b.getvalue(), a.getvalue()
''')

bug("c04-writerows-collects", "C04",
    [("clevercsv/write.py", "return self._writer.writerows(rows)", "return self._writer.writerows(list(rows))")],
    "writerows with an iterable that raises after some rows",
    "rows before the failure of the iterable are no longer written",
    r'''
import io
import clevercsv
def rows():
    yield ["a", "b"]
    raise KeyError("x")
out = io.StringIO()
try:
    clevercsv.writer(out).writerows(rows())
except KeyError:
    pass
assert out.getvalue() == "a,b\r\n", out.getvalue()
''')

bug("c05-skip-empty-cells", "C05",
    [("clevercsv/dict_read_write.py", "while row == []:", "while not any(row):")],
    "a row that consists of empty cells only",
    "DictReader drops records whose cells are all empty",
    r'''
import csv, io
import clevercsv
t = "a,b\r\n1,2\r\n,\r\n3,4\r\n"
assert [dict(x) for x in clevercsv.DictReader(io.StringIO(t))] == list(csv.DictReader(io.StringIO(t)))
''')

bug("c06-leak-quoted-tuple", "C06",
    [("src/cparser.c", "\t\tPy_DECREF(tuple);\n\t} else {", "\t} else {")],
    "parsing with quoted flags (as detection does), many times",
    "every (cell, quoted) tuple is leaked",
    r'''
import gc, sys
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", '"', "")
def run():
    for _ in range(50):
        list(parse_string('a,"b"\nc,d\n', d, return_quoted=True))
run(); gc.collect(); a = sys.getallocatedblocks()
run(); gc.collect(); b = sys.getallocatedblocks()
assert b - a < 60, b - a
''')

bug("c06-quote-index-overflow", "C06",
    [("src/abstraction.c", "if (quote_idx == quote_idx_size) {", "if (quote_idx > quote_idx_size) {")],
    "a text with at least five quoted blocks; the write is outside the allocated array",
    "heap buffer overflow in c_merge_with_quotechar",
    r'''
import sys
sys.path.insert(0, sys.argv[1])
import cabstraction
for n in (3, 4, 5, 9, 17):
    s = "QCQD" * n
    assert len(cabstraction.c_merge_with_quotechar(s)) == len(s)
''',
    sh=r'''#!/bin/bash
# builds the extension with AddressSanitizer in a scratch directory
HERE=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
INC=$("$PY" -c 'import sysconfig; print(sysconfig.get_paths()["include"])')
gcc -g -O1 -fPIC -shared -fsanitize=address -DMODULE_VERSION='"0"' -I"$INC" -Isrc src/abstraction.c -o "$T/cabstraction.so" || exit 1
LD_PRELOAD=$(gcc -print-file-name=libasan.so) ASAN_OPTIONS=detect_leaks=0 PYTHONMALLOC=malloc "$PY" "$HERE/demo.py" "$T"
''')

bug("c07-limit-set-before-check", "C07",
    [("clevercsv/cparser_util.py", '    limit = all_args[0]\n    if not isinstance(limit, int):', '    limit = _FIELD_SIZE_LIMIT = all_args[0]\n    if not isinstance(limit, int):')],
    "setting the limit to something that is not an integer, and using the module afterwards",
    "a rejected limit is stored nevertheless",
    r'''
import clevercsv
before = clevercsv.field_size_limit()
for bad in ("1", 2.5, None, [1]):
    try:
        clevercsv.field_size_limit(bad)
    except TypeError:
        pass
    else:
        raise AssertionError("accepted %r" % bad)
    assert clevercsv.field_size_limit() == before, clevercsv.field_size_limit()
''')

bug("c08-order-ignores-strict", "C08",
    [("clevercsv/dialect.py", "return self.__key() < other.__key()", "return self.__key()[:3] < other.__key()[:3]")],
    "two dialects that differ in strict only",
    "neither is smaller than the other and they are not equal: the order is not total",
    r'''
from clevercsv.dialect import SimpleDialect
a, b = SimpleDialect("|", '"', "", strict=False), SimpleDialect("|", '"', "", strict=True)
assert a != b and (a < b) != (b < a)
''')

bug("c08-from-dict-strict", "C08",
    [("clevercsv/dialect.py", 'd["delimiter"], d["quotechar"], d["escapechar"], strict=d["strict"]', 'd["delimiter"], d["quotechar"], d["escapechar"] or d["quotechar"] and "", strict=bool(d["strict"]) and bool(d["quotechar"])')],
    "a strict dialect without a quote character",
    "strict is lost when such a dialect is converted from a dict or JSON",
    r'''
from clevercsv.dialect import SimpleDialect
a = SimpleDialect("|", "", "", strict=True)
assert SimpleDialect.deserialize(a.serialize()) == a
''')

bug("c10-type-cache", "C10",
    [("clevercsv/detect_type.py", "        return self.detect_type(cell, is_quoted=is_quoted) is not None\n", "        known = _KNOWN.get(cell)\n        if known is None:\n            known = _KNOWN[cell] = (\n                self.detect_type(cell, is_quoted=is_quoted) is not None\n            )\n        return known\n"),
     ("clevercsv/detect_type.py", "DEFAULT_EPS_TYPE: float = 1e-10\n", "DEFAULT_EPS_TYPE: float = 1e-10\n\n# Type detection is slow, so remember the cells we've seen\n_KNOWN: Dict[str, bool] = {}\n")],
    "a cell whose type is known only when quoted, seen unquoted by an earlier detection (or dialect)",
    "the detected dialect depends on what was detected before",
    r'''
from clevercsv.detect_type import TypeDetector
t = TypeDetector()
a = t.is_known_type("x, y", is_quoted=False)
b = t.is_known_type("x, y", is_quoted=True)
assert (a, b) == (False, True), (a, b)
''')

bug("c11-skip-ties", "C11",
    [("clevercsv/consistency.py", "if P < incumbent_score and self._skip:", "if P <= incumbent_score and self._skip:")],
    "a text for which a later dialect has a pattern score equal to the best consistency score so far",
    "skipping changes which dialects are tied, hence the detected dialect",
    r'''
import itertools, random
import clevercsv
r = random.Random(4)
det = clevercsv.Detector()
for i in range(4000):
    t = "".join(r.choice(["a", "b", ",", ";", "'", '"', "\n", "1", "-", " ", "^"]) for _ in range(r.randint(4, 24)))
    a = det.detect(t, method="consistency", skip=True)
    b = det.detect(t, method="consistency", skip=False)
    assert a == b, (t, a, b)
''')

bug("c12-known-cells", "C12",
    [("clevercsv/consistency.py", "        @lru_cache(cache_capacity)\n        def cached_is_known_type(cell: str, is_quoted: bool) -> bool:\n            return self._type_detector.is_known_type(cell, is_quoted)\n\n        self._cached_is_known_type = cached_is_known_type\n",
      "        @lru_cache(cache_capacity)\n        def cached_is_known_type(cell: str, is_quoted: bool) -> bool:\n            # short cells have the same type with or without quotes\n            return self._type_detector.is_known_type(\n                cell, is_quoted and len(cell) > 2\n            )\n\n        self._cached_is_known_type = cached_is_known_type\n")],
    "a quoted cell of one or two characters that is known only when quoted, such as a comma",
    "the type score of dialects with such cells is too low",
    r'''
from clevercsv.consistency import ConsistencyDetector
from clevercsv.detect_type import type_score
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(";", '"', "")
t = '"a,";"b"\n"c,";"d"\n'
assert ConsistencyDetector().compute_type_score(t, d) == type_score(t, d)
''')

bug("c13-leading-escape", "C13",
    [("src/abstraction.c", "\t\t\t\telse if (len == 0)\n\t\t\t\t\tstack[len++] = 'C';\n", "")],
    "a text that starts with an escaped escape character followed by a line end",
    "the first cell is missing from the abstraction",
    r'''
from clevercsv.detect_pattern import make_abstraction, pattern_score
from clevercsv.dialect import SimpleDialect
d = SimpleDialect(",", "", "\\")
assert make_abstraction("\\\\\na\n", d) == "CRC", make_abstraction("\\\\\na\n", d)
''')

bug("c12-line-ends", "C12",
    [("clevercsv/cparser_util.py", 'iter(io.StringIO(data, newline="")),', 'iter(data.splitlines(keepends=True)),')],
    "cells with characters such as form feed, U+0085 or U+2028, which are no line ends in a CSV file",
    "the text is split into lines at other characters too; the parser sees an unexpected number of lines",
    r'''
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect
for c in "\x0b\x0c\x1c\x85\u2028":
    rows = list(parse_string("a%sb,c\nd,e" % c, SimpleDialect(",", "", "")))
    assert rows == [["a%sb" % c, "c"], ["d", "e"]], rows
''')

bug("c15-crlf-last", "C15",
    [("clevercsv/normal_form.py", '    if "\\r\\n" in data:\n        return data.split("\\r\\n")\n    elif "\\n" in data:\n        return data.split("\\n")\n    elif "\\r" in data:\n        return data.split("\\r")\n', '    if "\\n" in data:\n        return data.replace("\\r\\n", "\\n").split("\\n")\n    elif "\\r" in data:\n        return [row for row in data.split("\\r") if row]\n')],
    "a file with CR line ends and blank lines",
    "blank lines are dropped in normal form detection of CR files only, so the dialect depends on the line ends",
    r'''
import clevercsv
for t in ("a,b\n\nc,d\n", '"a","b"\n\n"c","d"\n', "a b\n\n1 2\n"):
    want = clevercsv.Detector().detect(t, method="normal")
    got = clevercsv.Detector().detect(t.replace("\n", "\r"), method="normal")
    assert got == want, (t, got, want)
''')

bug("c16-date-day", "C16",
    [("clevercsv/_regexes.py", '    r"년(0?[1-9]|1[0-2])월(0?[1-9]|[12]\\d|3[01])일"\n', '    r"년(0?[1-9]|1[0-2])월(0?[1-9]|[12]\\d|3[1])일"\n')],
    "a Korean date on the 30th",
    "such dates are not recognised as dates",
    r'''
from clevercsv.detect_type import TypeDetector
assert TypeDetector().detect_type("2020년11월30일") == "date", TypeDetector().detect_type("2020년11월30일")
''')

bug("c17-quotes-in-urls", "C17",
    [("clevercsv/potential_dialects.py", "quotechars = get_quotechars(no_url)", "quotechars = get_quotechars(data)")],
    "a text with a tilde inside a URL and nowhere else",
    "the tilde becomes a candidate quote character",
    r'''
from clevercsv.potential_dialects import get_dialects
ds = get_dialects("a,http://example.com/~user\nb,c\n")
assert all(d.quotechar == "" for d in ds), ds
''')

bug("c17-escape-explicit", "C17",
    [("clevercsv/potential_dialects.py", "            if v == delim or v == quotechar:\n                escapechars[(delim, quotechar)].add(u)\n", "            if v == delim or (v == quotechar and delim):\n                escapechars[(delim, quotechar)].add(u)\n")],
    "a text in which a potential escape character precedes a quote",
    "the candidate with an empty delimiter, a quotechar and an escapechar is missing",
    r'''
from clevercsv.dialect import SimpleDialect
from clevercsv.potential_dialects import get_dialects
assert SimpleDialect("", '"', "\\") in get_dialects('"a\\"b"\n"c"\n')
''')

bug("c18-escape-shape", "C18",
    [("clevercsv/break_ties.py", "        if len(X) != len(Y):\n            return None\n        for row_X, row_Y in zip(X, Y):\n            if len(row_X) != len(row_Y):\n                return None\n\n        cells_escaped", "        for row_X, row_Y in zip(X, Y):\n            if len(row_X) != len(row_Y):\n                return None\n\n        cells_escaped")],
    "two dialects differing in the escape character that give a different number of rows",
    "a dialect with escapechar is chosen although the parsed shape differs",
    r'''
import itertools
from clevercsv.break_ties import tie_breaker
from clevercsv.cparser_util import parse_string
from clevercsv.dialect import SimpleDialect
a, b = SimpleDialect(",", '"', ""), SimpleDialect(",", '"', "\\")
for n in range(1, 10):
    for toks in itertools.product(['"', '\\"', "x", "\n"], repeat=n) if n < 8 else ():
        t = "".join(toks)
        if tie_breaker(t, [a, b]) == b:
            x, y = list(parse_string(t, a)), list(parse_string(t, b))
            assert list(map(len, x)) == list(map(len, y)), t
''')

bug("c19-first-block", "C19",
    [("clevercsv/encoding.py", "if len(chunk) < blk_size:", "if len(chunk) <= blk_size:")],
    "a file larger than 64 KiB whose first non-ASCII character lies beyond the first block",
    "only the first block is looked at",
    r'''
import os, tempfile
from clevercsv.encoding import get_encoding
text = "abc,def\n" * 9000 + "été, déjà vu, naïve, garçon, Größe, straße\n" * 20
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    open(p, "w", encoding="utf-8").write(text)
    for cc in (True, False):
        enc = get_encoding(p, try_cchardet=cc)
        assert open(p, newline="", encoding=enc).read() == text, enc
''')

bug("c20-row-limit", "C20",
    [("clevercsv/detect.py", "            checked += 1\n\n            if len(row) != columns:\n                continue  # skip rows that have irregular number of columns\n", "\n            if len(row) != columns:\n                continue  # skip rows that have irregular number of columns\n            checked += 1\n")],
    "a sample with irregular rows and more rows than max_rows_to_check",
    "irregular rows no longer count towards the number of rows that are checked",
    r'''
import clevercsv
body = "".join("1,2,3\n" if i % 2 else "1,2\n" for i in range(22)) + "x,y\n" * 8 + "z,1\n"
t = "a,b\n" + body
assert clevercsv.Sniffer().has_header(t) is True
''')

bug("c21-read-dicts-encoding", "C21",
    [(W, "    return list(\n        stream_dicts(\n            filename,\n            dialect=dialect,\n            encoding=encoding,\n", "    return list(\n        stream_dicts(\n            filename,\n            dialect=dialect,\n            encoding=encoding if dialect is None else None,\n")],
    "read_dicts with both a dialect and an encoding, on a file whose encoding is not detected correctly",
    "the encoding given is ignored",
    r'''
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    open(p, "wb").write("a,b\né,ü\n".encode("cp437"))
    got = clevercsv.read_dicts(p, dialect="excel", encoding="cp437")
    assert [dict(x) for x in got] == [{"a": "é", "b": "ü"}], got
''')

bug("c22-write-dicts-header", "C22",
    [(W, "        w = DictWriter(fp, fieldnames=fieldnames, dialect=dialect)\n", "        w = DictWriter(\n            fp,\n            fieldnames=fieldnames,\n            dialect=dialect,\n            extrasaction=\"raise\" if isinstance(items, list) else \"ignore\",\n        )\n")],
    "items that are not in a list, with a key that the first item doesn't have",
    "cells are silently dropped",
    r'''
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.csv")
    try:
        clevercsv.write_dicts(({"a": "1"}, {"a": "2", "b": "3"}), p)
    except ValueError:
        pass
    else:
        raise AssertionError(open(p).read())
''')

bug("c01-escape-before-two-delimiters", "C01",
    [("src/cparser.c", "\t\tif (u != self->escapechar && u != self->delimiter &&\n\t\t\t\t\tu != self->quotechar && u != '\\0') {", "\t\tif (u != self->escapechar && (u != self->delimiter || v == self->delimiter) &&\n\t\t\t\t\tu != self->quotechar && u != '\\0') {")],
    "a quoted cell with an escaped delimiter directly followed by one more delimiter",
    "the escape character stays in the cell",
    r"""
import io
import clevercsv
for cell in ["x,,y", "a,,", ",,,"]:
    text = '"' + cell.replace(",", "\\,", 1) + '",z\n'
    rows = list(clevercsv.reader(io.StringIO(text, newline=""), delimiter=",", quotechar='"', escapechar="\\"))
    assert rows == [[cell, "z"]], rows
""")

bug("c06-restart-after-error", "C06",
    [("clevercsv/read.py", "            raise Error(str(e))\n", "            self.parser_gen = None\n            raise Error(str(e)) from e\n")],
    "a reader over a list that raises a parse error and is used again afterwards",
    "after a parse error the reader starts from the beginning of a list instead of going on with the next line",
    r"""
import csv
import clevercsv
def run(m):
    r = m.reader(["a,b\n", "c,d\ne,f\n", "g,h\n"])
    out = []
    for _ in range(5):
        try:
            out.append(next(r))
        except m.Error:
            out.append("Error")
        except StopIteration:
            out.append("end")
    return out
assert run(clevercsv) == run(csv), (run(clevercsv), run(csv))
""")

bug("c26-target-encoding", "C26",
    [("clevercsv/console/commands/standardize.py", "                target_encoding=target_encoding,\n            )\n", "                target_encoding=target_encoding or encodings[0],\n            )\n")],
    "several files with different encodings, given with one -e for each",
    "all outputs have the encoding of the first file",
    r"""
import os, tempfile
from clevercsv.console import build_application
d = tempfile.mkdtemp()
a, b = os.path.join(d, "a.csv"), os.path.join(d, "b.csv")
t = "x;y;z\n1;2;\xe9\n3;4;5\n"
open(a, "w", encoding="utf-8").write(t)
open(b, "w", encoding="latin-1").write(t)
build_application().run(["standardize", "-e", "utf-8", "-e", "latin-1", "-o", a + ".out", "-o", b + ".out", a, b])
got = [open(a + ".out", "rb").read().decode("utf-8"), open(b + ".out", "rb").read().decode("latin-1")]
for f in os.listdir(d):
    os.unlink(os.path.join(d, f))
os.rmdir(d)
assert got == [t.replace(";", ",").replace("\n", "\r\n")] * 2, got
""")

bug("c26-transposed-newline", "C26",
    [("clevercsv/console/commands/standardize.py", "        with open(path, \"r\", newline=\"\", encoding=encoding) as fp:\n            read = reader(fp, dialect=dialect)\n            rows = list(read)\n", "        with open(path, \"r\", encoding=encoding) as fp:\n            read = reader(fp, dialect=dialect)\n            rows = list(read)\n")],
    "--transpose on a file with CRLF or CR inside a quoted cell",
    "line breaks inside of cells are changed to LF",
    r"""
import contextlib, io, os, tempfile
from clevercsv.console import build_application
d = tempfile.mkdtemp()
p = os.path.join(d, "f.csv")
open(p, "w", newline="").write('a;"b\r\nb";c\r\n1;2;3\r\n4;5;6\r\n')
out = io.StringIO(newline="")
with contextlib.redirect_stdout(out):
    build_application().run(["standardize", "-t", p])
os.unlink(p)
os.rmdir(d)
assert out.getvalue() == 'a,1,4\r\n"b\r\nb",2,5\r\nc,3,6\r\n', out.getvalue()
""")

bug("c27-sha1-first-block", "C27",
    [("clevercsv/utils.py", "        while len(buf) > 0:\n            hasher.update(buf)\n            buf = fp.read(blocksize)\n", "        while buf:\n            hasher.update(buf)\n            buf = fp.read(blocksize)\n            if len(buf) < blocksize:\n                break\n")],
    "an in-place standardization of a file whose only differences lie behind the last full block of 64 KiB",
    "the file counts as standard already and is not changed",
    r"""
import os, tempfile
from clevercsv.console import build_application
d = tempfile.mkdtemp()
p = os.path.join(d, "f.csv")
open(p, "w", newline="").write("ab,cd,ef\r\n" * 7000 + "ab,cd,ef\n")
code = build_application().run(["standardize", "-n", "100", "-i", p])
n = os.path.getsize(p)
os.unlink(p)
os.rmdir(d)
assert (code, n) == (2, 70010), (code, n)
""")

bug("c28-encoding-dropped", "C28",
    [("clevercsv/console/commands/view.py", "                encoding=self.args.encoding,\n                num_chars=num_chars,\n", "                encoding=self.args.encoding if num_chars is None else None,\n                num_chars=num_chars,\n")],
    "both --encoding and --num-chars, for a file whose encoding is detected otherwise",
    "the given encoding is ignored when the number of characters is given",
    r"""
import os, tempfile
import tabview
from clevercsv.console import build_application
seen = []
tabview.view = lambda rows: seen.append(rows)
d = tempfile.mkdtemp()
p = os.path.join(d, "f.csv")
t = "naam;waarde;rest\n\u0436\u0438\u0437\u043d\u044c;2;3\n4;5;6\n"
open(p, "w", encoding="cp1251", newline="").write(t)
build_application().run(["view", "-e", "latin-1", "-n", "20", p])
os.unlink(p)
os.rmdir(d)
assert seen == [[r.split(";") for r in t.encode("cp1251").decode("latin-1").split("\n")[:-1]]], seen
""")

bug("c24-consistency-no-skip", "C24",
    [("clevercsv/console/commands/detect.py", "        method = \"consistency\" if self.args.consistency else \"auto\"\n        skip = not self.args.no_skip\n", "        skip = not self.args.no_skip\n        method = \"consistency\" if self.args.consistency and skip else \"auto\"\n")],
    "--consistency together with --no-skip, on a file where the two methods differ",
    "the method asked for is not the one used",
    r"""
import contextlib, io, os, tempfile
import clevercsv
from clevercsv.console import build_application
d = tempfile.mkdtemp()
p = os.path.join(d, "f.csv")
for text in ["a,b;c;d\n1,2;3;4\n", "a-1,b\nb-2,c\nc-3,d\n", "a b,c\nd e,f\n", "1-2-3\n4-5-6\n", "ab_1\ncd_2\n", "a&b\nc&d\n"]:
    open(p, "w", newline="").write(text)
    for c in ([], ["-c"]):
        want = clevercsv.detect_dialect(p, method="consistency" if c else "auto")
        for n in ([], ["--no-skip"]):
            out = io.StringIO()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                code = build_application().run(["detect"] + c + n + [p])
            exp = "" if want is None else "Detected: %s\n" % want
            assert out.getvalue() == exp, (text, c, n, out.getvalue(), exp)
os.unlink(p)
os.rmdir(d)
""")

bug("c23-encoding-num-chars", "C23",
    [("clevercsv/wrappers.py", "    enc = kwargs.get(\"encoding\") or get_encoding(filename)\n    kwargs[\"encoding\"] = enc\n", "    enc = kwargs.get(\"encoding\")\n    if enc is None and not num_chars:\n        enc = get_encoding(filename)\n    kwargs[\"encoding\"] = enc\n")],
    "num_chars given and a file that is not UTF-8",
    "the file is read with the wrong encoding",
    r"""
import os, tempfile
import clevercsv
d = tempfile.mkdtemp()
p = os.path.join(d, "f.csv")
open(p, "wb").write("naam,stad\nJan,Köln\nPiet,Zürich\n".encode("utf-16"))
rows = clevercsv.read_table(p, num_chars=20)
try:
    df = clevercsv.read_dataframe(p, num_chars=20)
finally:
    os.unlink(p)
    os.rmdir(d)
assert [list(df.columns)] + df.values.tolist() == rows, df
""")

bug("c25-pandas-num-chars", "C25",
    [("clevercsv/console/commands/code.py", "            num_chars=num_chars,\n            encoding=encoding,\n", "            num_chars=None if self.args.pandas else num_chars,\n            encoding=encoding,\n")],
    "--pandas with --num-chars where the prefix has another dialect than the file",
    "the generated program reads with a dialect that is not the one of the options",
    r"""
import contextlib, io, os, tempfile
import clevercsv
from clevercsv.console import build_application
d = tempfile.mkdtemp()
p = os.path.join(d, "f.csv")
open(p, "w", newline="").write("a;b\n1;2\n3;4\n" + "1,2,3\n" * 12)
a = clevercsv.detect_dialect(p, num_chars=11)
assert a != clevercsv.detect_dialect(p)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    build_application().run(["code", "-p", "-n", "11", p])
os.unlink(p)
os.rmdir(d)
assert "delimiter=\";\"" in out.getvalue(), out.getvalue()
""")

bug("c14-two-row-column", "C14",
    [("clevercsv/normal_form.py", "    assert dialect.quotechar is not None\n\n    if len(rows) <= 1:\n        return False\n\n    unquoted_search", "    assert dialect.quotechar is not None\n\n    if len(rows) <= 2:\n        return False\n\n    unquoted_search")],
    "a single column of exactly two rows with a regular symbol in the cells",
    "the column is split at the symbol",
    r"""
import clevercsv
for text in ["ab-12\ncd-34\n", "ab_12\ncd_34", "a&b\r\nc&d\r\n", "1-2-3\r4-5-6\r"]:
    d = clevercsv.Detector().detect(text)
    assert d is not None and d.delimiter == "", (text, d)
""")

bug("c03-escaped-cr-before-lf", "C03",
    [("src/cparser.c", "\t\tcase AFTER_ESCAPED_CRNL:\n\t\t\tif (u == '\\0')\n\t\t\t\tbreak;\n", "\t\tcase AFTER_ESCAPED_CRNL:\n\t\t\tif (u == '\\0' || (u == '\\n' && self->field[self->field_len - 1] == '\\r'))\n\t\t\t\tbreak;\n")],
    "an unquoted last cell that ends in an escaped carriage return, with LF as the line terminator",
    "the line feed that ends the row is taken as a part of the escaped line break, and two rows are merged",
    r"""
import csv, io
import clevercsv
rows = [["a", "b\r"], ["c", "d"]]
f = io.StringIO(newline="")
w = clevercsv.writer(f, delimiter=",", quotechar=None, escapechar="\\", lineterminator="\n", quoting=csv.QUOTE_NONE)
w.writerows(rows)
got = list(clevercsv.reader(io.StringIO(f.getvalue(), newline=""), delimiter=",", quotechar="", escapechar="\\"))
assert got == rows, (f.getvalue(), got)
""")

bug("c09-no-cells", "C09",
    [("clevercsv/consistency.py", "        if not total:\n            return eps\n        return max(eps, known / total)\n", "        if not total and not data:\n            return eps\n        return max(eps, known / total)\n")],
    "a text of line ends only",
    "detection raises ZeroDivisionError",
    r"""
import clevercsv
for text in ["", "\n", "\r\n\r\n", "\n\n\n\n"]:
    for method in ("auto", "normal", "consistency"):
        clevercsv.Detector().detect(text, method=method)
""")

bug("c29-version-strings", "C29",
    [("clevercsv/_optional.py", "    if Version(version) < Version(dependency.min_version):\n", "    if Version(version).release[:2] and version < dependency.min_version:\n")],
    "a version whose order as a string differs from the order as a version, such as tabview 1.10",
    "a recent version of an optional package is refused as too old",
    r"""
import tabview
from clevercsv._optional import import_optional_dependency
for v in ("1.4", "1.10", "10.0"):
    tabview.__version__ = v
    import_optional_dependency("tabview")
""")

bug("c29-pandas-at-import", "C29",
    [("clevercsv/wrappers.py", "if TYPE_CHECKING:\n    import pandas as pd\n", "try:\n    import pandas as pd\nexcept ModuleNotFoundError:\n    pass\n")],
    "a pandas that is installed and can't be imported",
    "clevercsv can't be imported at all",
    r"""
import importlib.abc, sys
class Broken(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "pandas":
            raise ImportError("numpy.core.multiarray failed to import")
sys.meta_path.insert(0, Broken())
import clevercsv
assert list(clevercsv.reader(["a,b"])) == [["a", "b"]]
""")

bug("c30-cached-csv-dialect", "C30",
    [("clevercsv/dialect.py", "        return dialect()\n", "        return _CSV_DIALECTS.setdefault(self.__key(), dialect())\n"),
     ("clevercsv/dialect.py", "excel_tab = csv.excel_tab\n", "excel_tab = csv.excel_tab\n_CSV_DIALECTS: Dict[Any, csv.Dialect] = {}\n")],
    "a caller that modifies the csv dialect it got, and another conversion of an equal dialect",
    "later conversions return the modified object",
    r"""
from clevercsv.dialect import SimpleDialect
a = SimpleDialect(",", "'", "").to_csv_dialect()
a.quotechar = '"'
b = SimpleDialect(",", "'", "").to_csv_dialect()
assert b.quotechar == "'", b.quotechar
""")

bug("c30-first-buffer-shared", "C30",
    [("src/cparser.c", "\tPy_UCS4 *field_new = self->field;\n\tPyMem_Resize(field_new, Py_UCS4, field_size_new);\n", "\tstatic Py_UCS4 first[4096];\n\tPy_UCS4 *field_new = first;\n\tif (self->field_size) {\n\t\tfield_new = self->field_size == 4096 ? NULL : self->field;\n\t\tPyMem_Resize(field_new, Py_UCS4, field_size_new);\n\t\tif (field_new != NULL && self->field_size == 4096)\n\t\t\tmemcpy(field_new, first, sizeof(first));\n\t}\n"),
     ("src/cparser.c", "\tif (self->field != NULL)\n\t\tPyMem_Free(self->field);\n\tPyObject_GC_Del(self);\n", "\tif (self->field != NULL && self->field_size > 4096)\n\t\tPyMem_Free(self->field);\n\tPyObject_GC_Del(self);\n")],
    "a cell that spans lines, and a line source that itself uses a reader (or another thread)",
    "the cell's beginning is overwritten by the other reader",
    r"""
import clevercsv
def source():
    yield 'a,"first line\n'
    list(clevercsv.reader(["x,y,zzzzzzzzzzzz"]))
    yield 'second line",b\n'
rows = list(clevercsv.reader(source()))
assert rows == [["a", "first line\nsecond line", "b"]], rows
""")

bug("c31-escape-before-delimiter", "C31",
    [("clevercsv/normal_form.py", "    if delim not in data and quotechar not in data:\n        return False\n", "    if delim not in data or quotechar not in data:\n        return False\n")],
    "a file with an escape before a quote, and without the delimiter or the other quote character",
    "an escaped quote is taken for a normal form",
    r"""
import clevercsv
for text in ["'a\\\\',x'|b\n'c'|d\n", "ab/,cd\nef/,gh\n"]:
    d = clevercsv.Detector().detect(text, method="normal")
    assert d is None, (text, d)
""")

bug("c31-whole-row-short", "C31",
    [("clevercsv/normal_form.py", "        if not (\n            len(row) > 2\n", "        if not (\n            len(row) > 3\n")],
    "quoted rows that hold two empty cells",
    "the form is not recognised",
    r"""
import clevercsv
d = clevercsv.Detector().detect('"a,b"\n","\n"c,d"\n', method="normal")
assert d is not None and d.delimiter == ",", d
""")

bug("c02-str-subclass-lines", "C02",
    [("src/cparser.c", "\t\tif (!PyUnicode_Check(lineobj)) {", "\t\tif (!PyUnicode_CheckExact(lineobj)) {")],
    "lines that are instances of a subclass of str",
    "such lines are refused, while csv.reader reads them",
    r"""
import csv, clevercsv
class Line(str):
    pass
lines = [Line("a,b\n"), Line("c,d\n")]
assert list(clevercsv.reader(lines)) == list(csv.reader(lines))
""")

bug("c06-leak-wrong-line", "C06",
    [("src/cparser.c", "\t\t\tPy_DECREF(lineobj);\n\t\t\tgoto err;\n\t\t}\n\t\tif (PyUnicode_READY", "\t\t\tgoto err;\n\t\t}\n\t\tif (PyUnicode_READY")],
    "a line source that gives something else than strings",
    "a reference to that object is leaked",
    r"""
import clevercsv, gc, weakref
class NoString:
    pass
obj = NoString()
ref = weakref.ref(obj)
try:
    list(clevercsv.reader([obj]))
except clevercsv.Error:
    pass
del obj
gc.collect()
assert ref() is None
""")

bug("c05-restkey-by-position", "C05",
    [("clevercsv/dict_read_write.py", "        restkey: Optional[str] = None,\n        restval: Optional[str] = None,", "        restval: Optional[str] = None,\n        restkey: Optional[str] = None,")],
    "restkey and restval given by position, as the csv module allows",
    "the two are swapped",
    r"""
import csv, clevercsv
lines = ["a,b\n", "1,2,3\n", "4\n"]
assert list(map(dict, clevercsv.DictReader(lines, None, "more", "none"))) == list(csv.DictReader(lines, None, "more", "none"))
""")

bug("c05-fieldnames-reset", "C05",
    [("clevercsv/dict_read_write.py", "        self._fieldnames = value\n", "        self._fieldnames = list(value)\n")],
    "assigning None to fieldnames, which makes the next record the header",
    "a TypeError",
    r"""
import csv, clevercsv
out = []
for module in (csv, clevercsv):
    r = module.DictReader(["a,b\n", "1,2\n", "c,d\n", "3,4\n"])
    rows = [dict(next(r))]
    r.fieldnames = None
    rows.append(r.fieldnames)
    rows += [dict(row) for row in r]
    out.append(rows)
assert out[0] == out[1], out
""")

bug("c08-hash-of-strict", "C08",
    [("clevercsv/dialect.py", "        return hash(self.__key())", "        return hash(json.dumps(self.__key()))")],
    "equal dialects with strict given as True and as 1",
    "their hashes differ",
    r"""
from clevercsv.dialect import SimpleDialect
a, b = SimpleDialect(",", '"', "", strict=True), SimpleDialect(",", '"', "", strict=1)
assert a == b and hash(a) == hash(b)
""")

bug("c11-long-single-column", "C11",
    [("clevercsv/detect.py", "            if dialect is not None:\n                self.method_ = DetectionMethod.NORMAL\n                return dialect", "            if dialect is not None and (\n                dialect.delimiter\n                or method == DetectionMethod.NORMAL\n                or len(sample) < 10000\n            ):\n                self.method_ = DetectionMethod.NORMAL\n                return dialect")],
    "a single column of more than 10 000 characters",
    "method 'auto' doesn't give the normal-form result although there is one",
    r"""
import clevercsv
text = "".join("a-b\n" if i % 2 else "word\n" for i in range(4000))
d = clevercsv.Detector()
auto = d.detect(text)
assert d.method_ == "normal", d.method_
assert auto == clevercsv.Detector().detect(text, method="normal")
""")

bug("c12-long-cell-prefix", "C12",
    [("clevercsv/consistency.py", "            return self._type_detector.is_known_type(cell, is_quoted)", "            return self._type_detector.is_known_type(cell[:1024], is_quoted)")],
    "a cell of more than 1024 characters whose beginning alone has a known type",
    "the type score counts the cell as known",
    r"""
from clevercsv.consistency import ConsistencyDetector
from clevercsv.dialect import SimpleDialect
text = "a" * 1024 + "\x01\x02,b\n"
T = ConsistencyDetector().compute_type_score(text, SimpleDialect(",", "", ""))
assert T == 0.5, T
""")

bug("c18-first-thousand-rows", "C18",
    [("clevercsv/break_ties.py", "            if X == Y:\n                # quotechar has no effect", "            if X[:1000] == Y[:1000]:\n                # quotechar has no effect")],
    "a quote character that has an effect after the first 1000 rows only",
    "the dialect without quote character is chosen",
    r"""
from clevercsv.break_ties import tie_breaker
from clevercsv.dialect import SimpleDialect
A, B = SimpleDialect(",", "", ""), SimpleDialect(",", '"', "")
text = "a,b\n" * 1500 + '"a","b"\n'
assert tie_breaker(text, [A, B]) == B
""")

bug("c19-first-megabytes", "C19",
    [("clevercsv/encoding.py", "        while (not final_chunk) and (not detector.done):", "        while (\n            (not final_chunk)\n            and (not detector.done)\n            and fid.tell() < 1 << 22\n        ):")],
    "a file of which the first 4 MiB are ASCII",
    "the detected encoding can't decode the file",
    r"""
import os, shutil, tempfile
from clevercsv.encoding import get_encoding
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "f.csv")
    text = "some,plain,words\n" * 260000 + "žluťoučký,kůň,úpěl,ďábelské,ódy\n" * 50
    with open(p, "w", encoding="utf-8", newline="") as fp:
        fp.write(text)
    with open(p, encoding=get_encoding(p), newline="") as fp:
        assert fp.read() == text
finally:
    shutil.rmtree(d)
""")

bug("c22-first-rows-compared", "C22",
    [("clevercsv/wrappers.py", "    if len(set(map(len, list_table))) > 1:", "    if len(set(map(len, list_table[:10000]))) > 1:")],
    "a table of more than 10 000 rows with one of another length near its end, transposed",
    "cells are lost instead of the table being refused",
    r"""
import os, shutil, tempfile, clevercsv
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "f.csv")
    try:
        clevercsv.write_table([["a", "b"]] * 12000 + [["c"]], p, transpose=True)
    except ValueError:
        pass
    else:
        raise SystemExit("not refused")
    assert not os.path.exists(p)
finally:
    shutil.rmtree(d)
""")

bug("c22-many-keys-sorted", "C22",
    [("clevercsv/wrappers.py", "    fieldnames = list(first.keys())", "    fieldnames = (\n        sorted(first.keys(), key=str)\n        if len(first) > 64\n        else list(first.keys())\n    )")],
    "items with more than 64 keys",
    "the header isn't in the order of the first item's keys",
    r"""
import csv, os, shutil, tempfile, clevercsv
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "f.csv")
    item = {"k%d" % i: str(i) for i in range(100)}
    clevercsv.write_dicts([item, item], p)
    with open(p, newline="") as fp:
        assert next(csv.reader(fp)) == list(item)
finally:
    shutil.rmtree(d)
""")

bug("c23-first-megabyte", "C23",
    [("clevercsv/wrappers.py", "        data = fid.read(num_chars) if num_chars else fid.read()\n        dialect = Detector().detect(data)\n\n    if dialect is None:", "        data = fid.read(num_chars or 1 << 20)\n        dialect = Detector().detect(data)\n\n    if dialect is None:")],
    "a file of more than 1 MiB whose beginning has another dialect than the whole",
    "read_dataframe and read_table read the file differently",
    r"""
import os, shutil, tempfile, clevercsv
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, "f.csv")
    with open(p, "w", newline="") as fp:
        fp.write("name,value\n")
        fp.write("abcdefgh,12345678\n" * 65000)
        fp.write('"abc,def",1234\n')
    rows = clevercsv.read_table(p)
    df = clevercsv.read_dataframe(p, dtype=str, keep_default_na=False)
    assert list(df.columns) == rows[0]
    assert df.iloc[-1].tolist() == rows[-1], (df.iloc[-1].tolist(), rows[-1])
finally:
    shutil.rmtree(d)
""")

bug("c05-setter-duplicates", "C05",
    [("clevercsv/dict_read_write.py", "        if not len(self._fieldnames) == len(set(self._fieldnames)):", "        if self.line_num == 0 and not len(self._fieldnames) == len(\n            set(self._fieldnames)\n        ):")],
    "field names that aren't unique, assigned after the first record was read",
    "columns are dropped without a warning",
    r"""
import warnings, clevercsv
r = clevercsv.DictReader(["a,b", "1,2", "3,4"])
next(r)
r.fieldnames = ["x", "x"]
with warnings.catch_warnings(record=True) as ws:
    warnings.simplefilter("always")
    row = next(r)
assert len(row) == 1 and ws, (row, ws)
""")

bug("c05-field-names-as-text", "C05",
    [("clevercsv/dict_read_write.py", "            wrong_fields = rowdict.keys() - self.fieldnames", "            names = set(map(str, self.fieldnames))\n            wrong_fields = {key for key in rowdict if str(key) not in names}")],
    "a dictionary with a key that isn't a field name but is written like one (1 and '1')",
    "the value is dropped instead of the dictionary being refused",
    r"""
import io, clevercsv
w = clevercsv.DictWriter(io.StringIO(), ["1", "2"])
try:
    w.writerow({"1": "a", 2: "b"})
except ValueError:
    pass
else:
    raise SystemExit("not refused")
""")

bug("c13-pattern-limit", "C13",
    [("clevercsv/detect_pattern.py", '    row_patterns = collections.Counter(A.split("R"))', '    row_patterns = collections.Counter(A.split("R", 1 << 16))')],
    "a text of more than 65536 rows",
    "the rest of the text counts as one pattern",
    r"""
from clevercsv.detect_pattern import pattern_score
from clevercsv.dialect import SimpleDialect
n = 70000
assert pattern_score("a,b\n" * n, SimpleDialect(",", "", "")) == n / 2
""")

bug("c16-shared-patterns", "C16",
    [("clevercsv/detect_type.py", "DEFAULT_TYPE_REGEXES.copy()", "DEFAULT_TYPE_REGEXES")],
    "the patterns of one type detector replaced, and another type detector",
    "the cells are recognised by the patterns of the other detector",
    r"""
import re
from clevercsv.detect_type import TypeDetector
TypeDetector().patterns["email"] = re.compile("x")
assert TypeDetector().detect_type("a.b+c@example.com") == "email"
""")

bug("c22-same-item", "C22",
    [("clevercsv/wrappers.py", '''        w.writerow(first)
        w.writerows(iterator)''', '''        w.writerow(first)
        w.writerows(item for item in iterator if item is not first)''')],
    "the very same mapping object first and again later in the items",
    "the later rows of that object are not written",
    r"""
import os, tempfile
import clevercsv
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.csv")
    m = {"a": "1", "b": "2"}
    clevercsv.write_dicts([m, {"a": "3", "b": "4"}, m], p)
    rows = [dict(r) for r in clevercsv.read_dicts(p, dialect="excel")]
    assert rows == [m, {"a": "3", "b": "4"}, m], rows
""")

bug("c20-sniff-part", "C20",
    [("clevercsv/detect.py", "        dialect = self.sniff(sample)", "        dialect = self.sniff(sample[: 1 << 17])")],
    "a text of more than 131072 characters whose end decides the dialect",
    "has_header votes on the rows of another dialect",
    r"""
import clevercsv
t = "ab,2;c\n" + "1,2;3\n" * 45000 + "1,2\n" * 3 + "1;2;3,4\n"
d = clevercsv.Detector().detect(t)
h = t[:-1]
a, b = clevercsv.Detector().has_header(t), None
import io
rows = list(clevercsv.reader(io.StringIO(t, newline=""), d))
votes = 0
head = rows[0]
cols = {i: None for i in range(len(head))}
for n, row in enumerate(rows[1:]):
    if n > 20:
        break
    if len(row) != len(head):
        continue
    for c in list(cols):
        for ty in (int, float, complex):
            try:
                ty(row[c])
                break
            except (ValueError, OverflowError):
                pass
        else:
            ty = len(row[c])
        if ty != cols[c]:
            if cols[c] is None:
                cols[c] = ty
            else:
                del cols[c]
for c, ty in cols.items():
    if type(ty) is int:
        votes += 1 if len(head[c]) != ty else -1
    else:
        try:
            ty(head[c])
            votes -= 1
        except (ValueError, TypeError):
            votes += 1
assert a == (votes > 0), (a, votes, d)
""")
