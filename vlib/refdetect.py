"""Reference statements about candidates, masking, abstraction and scores."""
import collections
import unicodedata

BLOCK = {"Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Ps", "Pe", "Co"}
BLOCK_CHARS = "./\"'\r\n"
QUOTES = "\"'~`"
NOT_ESCAPE = "!?\"'.,;:%*&#"


def filter_urls(text):
    """The URL filter is the code's own: what a URL is, is not specified here."""
    from clevercsv.potential_dialects import filter_urls as f

    return f(text)


def outside_urls(text):
    """The characters of the text that occur outside URLs."""
    # the U that stands for a URL is none of them; letters that are not lower case are alike to the pattern
    other = next(c for c in "VWXYZÀÁÂÃÄÅÆÇÈÉÊËĀĂĄĆĈĊČ" + "".join(map(chr, [*range(0x391, 0x3a2), *range(0x400, 0x430), *range(0x531, 0x557)])) if c not in text)
    found = set(filter_urls(text.replace("U", other)))
    found.discard("U")
    if other in found:
        found.discard(other)
        found.add("U")
    return found


def auto_delims(text):
    return {c for c in outside_urls(text) if c == "\t" or (c not in BLOCK_CHARS and unicodedata.category(c) not in BLOCK)}


def is_escape(c):
    return unicodedata.category(c) == "Po" and c not in NOT_ESCAPE


def candidates(text, delimiters=None):
    """Set of (delimiter, quotechar, escapechar)."""
    f = outside_urls(text)
    ds = {""} | (auto_delims(text) if delimiters is None else {c for c in f if c in delimiters})
    qs = {""} | {c for c in f if c in QUOTES}
    pairs = collections.defaultdict(set)
    for u, v in zip(text, text[1:]):
        if is_escape(u):
            pairs[v].add(u)
    return [(d, q, e) for d in ds for q in qs for e in {""} | pairs.get(d, set()) | pairs.get(q, set())]


def masked(text, q, e, d):
    """Is d never outside a quoted segment?"""
    if d == "":
        return False
    inside = False
    i, n = 0, len(text)
    esc = False
    while i < n:
        c = text[i]
        this_escaped, esc = esc, False
        i += 1
        if c == q:
            if this_escaped:
                continue
            if not inside:
                inside = True
            elif i < n and text[i] == q:
                i += 1
            else:
                inside = False
        elif c == d and not inside:
            return False
        elif c == e and not this_escaped:
            esc = True
    return True


def abstraction(text, d, q, e):
    """Row abstraction as a list of markers, written as a pass over symbols."""
    syms = []  # C, D, Q, R
    esc = False
    for c in text:
        was, esc = esc, False
        if c in "\r\n":
            if not syms or syms[-1] != "R":
                syms.append("R")
        elif d and c == d:
            syms.append("C" if was else "D")
        elif q and c == q:
            syms.append("C" if was else "Q")
        elif e and c == e:
            if was:
                syms.append("C")
            else:
                esc = True
        else:
            syms.append("C")
    # complete quoted blocks are cell text
    out = []
    i, n = 0, len(syms)
    while i < n:
        if syms[i] != "Q":
            out.append(syms[i])
            i += 1
            continue
        j = i + 1
        while j < n:
            if syms[j] == "Q":
                if j + 1 < n and syms[j + 1] == "Q":
                    j += 2
                    continue
                break
            j += 1
        if j < n:
            out += ["C"] * (j - i + 1)
            i = j + 1
        else:
            out += syms[i:]
            i = n
    # rows of cells: every cell is at least one C
    rows = "".join(out)
    while rows.endswith("R"):
        rows = rows[:-1]
    return rows


def row_patterns(text, d, q, e):
    """The pattern of each row: cells separated by D, each at least one C."""
    out = []
    for row in abstraction(text, d, q, e).split("R"):
        if row:
            cells = []
            for cell in row.split("D"):
                c = []
                for x in cell:
                    if not (x == "C" and c and c[-1] == "C"):
                        c.append(x)
                cells.append("".join(c) or "C")
            row = "D".join(cells)
        out.append(row)
    return out


def final_abstraction(text, d, q, e):
    return "R".join(row_patterns(text, d, q, e))


def pattern_score(text, d, q, e, eps=1e-3):
    pats = row_patterns(text, d, q, e)
    distinct = set(pats)
    total = 0.0
    for p in pats:
        cells = p.count("D") + 1
        total += max(eps, cells - 1) / cells
    return total / len(distinct)


def type_score(text, d, q, e, known, eps=1e-10):
    """known(cell, quoted) -> bool."""
    import io

    from vlib import refparse

    sp = [x for x in (d, q, e) if x]
    lines = io.StringIO(text, newline="")
    if len(set(sp)) == len(sp):
        rows, err = refparse.parse(lines, d, q, e)
        assert err is None
    else:
        from clevercsv.cparser_util import parse_string
        from clevercsv.dialect import SimpleDialect

        rows = list(parse_string(text, SimpleDialect(d, q, e), return_quoted=True))
    cells = [c for r in rows for c in r]
    if not cells:
        return eps
    return max(eps, sum(1 for c, f in cells if known(c, f)) / len(cells))
