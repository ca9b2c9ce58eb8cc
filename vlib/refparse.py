"""Reference tokenizer: an independent, slow statement of the parsing rules."""


class RefError(Exception):
    pass


class _Record:
    __slots__ = ("d", "q", "e", "strict", "limit", "cells", "buf", "real", "in_quotes", "esc", "after_nl", "fresh",
                 "finished", "force_field")

    def __init__(self, d, q, e, strict, limit):
        self.d, self.q, self.e, self.strict, self.limit = d, q, e, strict, limit
        self.cells = []
        self.buf = []      # characters of the current cell, quotes included
        self.real = []     # for each: is it an unescaped, undoubled quote character
        self.in_quotes = self.esc = self.after_nl = self.finished = False
        self.fresh = True
        self.force_field = False

    def add(self, c, real=False):
        if len(self.buf) >= self.limit:
            raise RefError("limit")
        self.buf.append(c)
        self.real.append(real)

    def close(self, at_end=False):
        b, r = self.buf, self.real
        quoted = False
        if len(b) > 1 and r[0] and r[-1]:
            b, quoted = b[1:-1], True
        elif at_end and b and r[0]:
            b, quoted = b[1:], True
        self.cells.append(("".join(b), quoted))
        self.buf, self.real = [], []

    def feed(self, chunk):
        d, q, e = self.d, self.q, self.e
        n = len(chunk)
        i = 0
        while i < n:
            c = chunk[i]
            nxt = chunk[i + 1] if i + 1 < n else ""
            i += 1
            if c == "\0":
                raise RefError("nul")
            if self.finished:
                if c in "\r\n":
                    continue
                raise RefError("newline inside")
            if self.esc:
                self.esc = False
                if not self.in_quotes and c in "\r\n":
                    self.add(c)
                    self.after_nl = True
                    continue
                if not (c == d or c == q or c == e):
                    self.add(e)
                self.add(c)
                continue
            self.after_nl = False
            if e and c == e:
                self.esc = True
                self.fresh = False
                continue
            if self.in_quotes:
                if q and c == q:
                    if nxt == q:
                        self.add(q)
                        i += 1
                        continue
                    if self.strict and not (nxt == "" or nxt == "\0" or nxt in "\r\n" or nxt == d):
                        raise RefError("strict")
                    self.add(q, True)
                    self.in_quotes = False
                else:
                    self.add(c)
                continue
            if c in "\r\n":
                if not self.fresh:
                    self.close()
                self.finished = True
                continue
            self.fresh = False
            if q and c == q:
                self.add(q, True)
                self.in_quotes = True
            elif d and c == d:
                self.close()
            else:
                self.add(c)
        # end of the chunk acts as an end of line
        if self.finished:
            return True
        if self.esc:
            self.esc = False
            if self.in_quotes:
                self.add("\n")
            return False
        if self.after_nl or self.in_quotes:
            return False
        if not self.fresh:
            self.close()
        return True


def parse(chunks, d, q, e, strict=False, limit=1 << 60):
    """-> (rows, error) with rows as lists of (cell, quoted)."""
    rows = []
    rec = None
    try:
        for chunk in chunks:
            if rec is None:
                rec = _Record(d, q, e, strict, limit)
            if rec.feed(chunk):
                rows.append(rec.cells)
                rec = None
        if rec is not None:
            if strict:
                raise RefError("eof")
            rec.close(at_end=True)
            rows.append(rec.cells)
    except RefError as ex:
        return rows, str(ex)
    return rows, None


def plain(rows):
    return [[c for c, _ in r] for r in rows]
