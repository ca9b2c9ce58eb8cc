"""Dialect specifications (JSON) and their various object forms."""
import copy
import csv
import threading

import _csv

from clevercsv.dialect import SimpleDialect

_lock = threading.Lock()
QUOTING = [csv.QUOTE_MINIMAL, csv.QUOTE_ALL, csv.QUOTE_NONNUMERIC, csv.QUOTE_NONE]
BUILTIN = ["excel", "excel-tab", "unix"]


class Temp:
    """Registers csv dialect names and removes them again."""

    def __init__(self):
        self.names = []

    def register(self, p):
        """Under a name that is free now: case after case registers other dialects under the same names."""
        with _lock:
            name = next(n for n in ("verif-%d" % i for i in range(1000)) if n not in csv.list_dialects())
            csv.register_dialect(name, **p)
        self.names.append(name)
        return name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for n in self.names:
            csv.unregister_dialect(n)


def valid(d, q, e):
    sp = [x for x in (d, q, e) if x]
    return (len(d) == 1 and len(q) <= 1 and len(e) <= 1 and len(set(sp)) == len(sp)
            and not any(x in "\r\n\0" for x in sp))


def params(d, q, e, strict=False, quoting=None, doublequote=True, lineterminator="\n"):
    """csv format parameters for a dialect (empty quotechar: no quoting)."""
    p = {"delimiter": d, "quotechar": q or None, "escapechar": e or None, "doublequote": doublequote,
         "skipinitialspace": False, "lineterminator": lineterminator, "strict": strict,
         "quoting": (csv.QUOTE_MINIMAL if quoting is None else quoting) if q else csv.QUOTE_NONE}
    return p


def make_class(p, drop=()):
    return type("D", (csv.Dialect,), {k: v for k, v in p.items() if k not in drop})


def form(kind, p, tmp, strict_attr=True):
    """The dialect with parameters p as an object; (object, kwargs)."""
    k = kind % 7
    drop = () if p["strict"] or strict_attr else ("strict",)
    if k == 0:
        name = tmp.register(p)
        return name, {}
    if k == 1:
        return make_class(p, drop), {}
    if k == 2:
        return make_class(p, drop)(), {}
    if k == 3:
        name = tmp.register(p)
        return csv.get_dialect(name), {}
    if k == 4:
        return "excel", dict(p)
    if k == 5:
        return csv.excel_tab, dict(p)
    return None, dict(p)  # keyword parameters only


def snapshot(d):
    if isinstance(d, SimpleDialect):
        return (d.delimiter, d.quotechar, d.escapechar, d.strict, sorted(vars(d)))
    if isinstance(d, str):
        d = csv.get_dialect(d)
    keys = ["delimiter", "quotechar", "escapechar", "doublequote", "skipinitialspace", "lineterminator", "quoting", "strict"]
    out = [getattr(d, k, "missing") for k in keys]
    if not isinstance(d, _csv.Dialect):
        out.append(sorted(k for k in vars(d) if not k.startswith("__")))
    return out


def mutable(d):
    """The same dialect as an object of one's own, or None."""
    if isinstance(d, SimpleDialect):
        return copy.copy(d)
    if isinstance(d, type):
        return type("D", (d,), {})
    if isinstance(d, csv.Dialect):
        return type("D", (type(d),), {})()
    return None


def mutate(d):
    """Another dialect, in the same object."""
    d.delimiter, d.quotechar, d.escapechar, d.strict = "5", "6", "7", not getattr(d, "strict", False)
    if not isinstance(d, SimpleDialect):
        d.quoting, d.lineterminator = csv.QUOTE_ALL, "8"


def positional(k, spec, kw):
    """The keyword arguments with the first k of the documented parameters given by position."""
    k = k % (len(spec) + 1) if isinstance(k, int) else 0
    rest = dict(kw)
    return [rest.pop(name, default) for name, default in spec[:k]], rest
