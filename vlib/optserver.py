"""Runs operations in processes where optional packages are missing or old.

Each request is answered by a child that has not imported clevercsv yet
(unless started with preload, for the operations with all packages; the packages it may use are loaded here, to save time).
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import argparse  # noqa
import codecs  # noqa
import contextlib  # noqa
import csv  # noqa
import locale  # noqa
import io  # noqa
import importlib  # noqa
import importlib.abc  # noqa
import chardet  # noqa
import packaging.version  # noqa
import cchardet  # noqa
import pandas  # noqa
import tabview  # noqa
import wilderness  # noqa
import regex  # noqa


class Broken(importlib.abc.MetaPathFinder):
    """Packages that are there but can't be imported."""

    def __init__(self, names):
        self.names = names

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] in self.names:
            raise ImportError("broken package %s" % fullname)
        return None


def prepare(state):
    """state: package -> "missing", "broken", or the version that it says it has ("none": it doesn't say)."""
    broken = set()
    for name, s in state.items():
        if s in ("missing", "broken"):
            for m in [x for x in sys.modules if x == name or x.startswith(name + ".")]:
                del sys.modules[m]
        if s == "missing":
            sys.modules[name] = None
        elif s == "broken":
            broken.add(name)
        else:
            m = importlib.import_module(name)
            if s != "none":
                m.__version__ = s
            elif hasattr(m, "__version__"):
                del m.__version__
    if broken:
        sys.meta_path.insert(0, Broken(broken))


def comps(x):
    return None if x is None else [x.delimiter, x.quotechar, x.escapechar, x.strict]


def table(x):
    return [list(r) for r in x]


def run(op, chardet_only):
    """One operation; results are JSON values."""
    import clevercsv
    from clevercsv.encoding import get_encoding

    kind, path = op["op"], op.get("path")
    kw = {}
    if "enc" in op:
        # without a detected encoding, files are opened with that of the locale
        kw["encoding"] = op["enc"] or (get_encoding(path, try_cchardet=False) or locale.getpreferredencoding(False) if chardet_only else None)
        if kw["encoding"] is None:
            del kw["encoding"]
    if op.get("num"):
        kw["num_chars"] = op["num"]
    if kind == "detect":
        return comps(clevercsv.Detector().detect(op["text"]))
    if kind == "sniff":
        return comps(clevercsv.Sniffer().sniff(op["text"], delimiters=op["delims"]))
    if kind == "header":
        return clevercsv.Sniffer().has_header(op["text"])
    if kind == "detect_dialect":
        return comps(clevercsv.detect_dialect(path, **kw))
    if kind == "read_table":
        return table(clevercsv.read_table(path, **kw))
    if kind == "stream_table":
        return table(clevercsv.stream_table(path, **kw))
    if kind == "read_dicts":
        return [list(map(list, d.items())) for d in clevercsv.read_dicts(path, **kw)]
    if kind == "reader":
        return table(clevercsv.reader(op["text"].splitlines(True)))
    if kind == "write_table":
        clevercsv.write_table(op["table"], "out.csv", encoding="utf-8")
        with open("out.csv", "rb") as fp:
            out = fp.read()
        os.unlink("out.csv")
        return out.decode("utf-8")
    if kind == "write_dicts":
        clevercsv.write_dicts([{"a": r[0], "b": r[-1]} for r in op["table"]], "out.csv", encoding="utf-8")
        with open("out.csv", "rb") as fp:
            out = fp.read()
        os.unlink("out.csv")
        return out.decode("utf-8")
    if kind == "encoding":
        return get_encoding(path, try_cchardet=bool(op["try"]) and not chardet_only)
    if kind == "dataframe":
        df = clevercsv.read_dataframe(path, dtype=str, keep_default_na=False, **kw)
        return None if df is None else [list(map(str, df.columns)), df.values.tolist()]
    if kind == "names":
        return sorted(x for x in clevercsv.__all__ if not hasattr(clevercsv, x))
    if kind in ("cli", "main"):
        args = list(op["args"])
        if "enc" in op and kw.get("encoding"):
            args += ["-e", kw["encoding"]]
        args.append(path)
        out, err = io.StringIO(newline=""), io.StringIO(newline="")
        seen = []
        tv = sys.modules.get("tabview")
        if args[0] == "view" and (tv is not None or "tabview" not in sys.modules):
            with contextlib.suppress(ImportError):
                import tabview

                tabview.view = lambda rows, *a, **k: seen.extend(table(rows))
        old = sys.argv
        sys.argv = ["clevercsv"] + args
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    if kind == "main":
                        from clevercsv.__main__ import main

                        main()
                        code = 0
                    else:
                        from clevercsv.console import main

                        code = main()
                except SystemExit as e:
                    code = e.code
        finally:
            sys.argv = old
        return [code or 0, out.getvalue(), err.getvalue(), seen]
    raise RuntimeError("unknown operation %r" % kind)


def answer(q):
    prepare(q["state"])
    out = []
    for op in q["ops"]:
        try:
            out.append(["ok", run(op, q.get("chardet_only", False))])
        except Exception as e:
            names = [c.__name__ for c in type(e).__mro__]
            out.append(["raised", "ImportError" if "ImportError" in names else type(e).__name__, str(e)])
    return {"results": out}


def main():
    if "preload" in sys.argv:
        import clevercsv  # noqa
    for line in sys.stdin:
        q = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                real = os.fdopen(w, "w")
                try:
                    a = answer(q)
                except BaseException as e:
                    import traceback

                    a = {"error": traceback.format_exc()[-1500:]}
                json.dump(a, real)
                real.close()
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as fp:
            a = fp.read()
        os.waitpid(pid, 0)
        sys.stdout.write((a or '{"error": "died"}') + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
