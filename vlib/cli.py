"""Runs the command line application in this process, or in another one."""
import contextlib
import io
import os
import subprocess
import sys

_APP = []


class Result:
    def __init__(self, code, out, err, exc=None):
        self.code, self.out, self.err, self.exc = code, out, err, exc


def run(args, patch=None):
    """-> Result; code is None if the command raised (exc)."""
    from clevercsv.console import build_application

    if not _APP:
        _APP.append(build_application)
    app = _APP[0]()
    out, err = io.StringIO(newline=""), io.StringIO(newline="")
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = app.run(args=list(args))
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            return Result(None, out.getvalue(), err.getvalue(), e)
    return Result(0 if code is None else code, out.getvalue(), err.getvalue())


def run_process(args, env=None, timeout=60):
    """As a user runs it; out and err are bytes."""
    e = dict(os.environ, **(env or {}))
    p = subprocess.run([sys.executable, "-m", "clevercsv", *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
    return Result(p.returncode, p.stdout, p.stderr)


def options(rng_or_list, **opts):
    """Options in short or long form; opts: name -> (short, long, value or None)."""
    out = []
    for k, (short, long, value) in opts.items():
        if value is False or value is None:
            continue
        style = rng_or_list[len(out) % len(rng_or_list)] if rng_or_list else 0
        name = long if style % 2 or not short else short
        if value is True:
            out.append([name])
        elif style % 3 == 2 and name == long:
            out.append(["%s=%s" % (name, value)])
        else:
            out.append([name, str(value)])
    return out
