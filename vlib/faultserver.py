"""Runs commands, each in a forked process whose k-th file operation fails (LD_PRELOAD of faults.c)."""
import ctypes
import gc
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import signal  # noqa

import clevercsv  # noqa
from vlib import cli  # noqa

MODES = ["off", "once", "sticky", "short", "kill", "killhalf", "intr"]


def run(shim, q):
    tempfile.tempdir = q["tmp"]
    os.chdir(q["cwd"])
    shim.fault_begin(os.fsencode(q["dir"]), q["k"], MODES.index(q["mode"]))
    try:
        r = cli.run(q["args"])
        exc = None if r.exc is None else type(r.exc).__name__
        a = {"code": r.code, "exc": exc, "out": r.out, "err": r.err}
        del r
    except KeyboardInterrupt:
        a = {"code": None, "exc": "KeyboardInterrupt", "out": "", "err": ""}
    gc.collect()
    shim.fault_end()
    a["ops"] = shim.fault_ops().decode()
    a["hit"] = bool(shim.fault_hit())
    return a


def main():
    shim = ctypes.CDLL(os.environ["LD_PRELOAD"].split(":")[-1])
    shim.fault_ops.restype = ctypes.c_char_p
    cli.run(["detect", "/nonexistent"])
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for line in sys.stdin:
        q = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                a = json.dumps(run(shim, q))
                with os.fdopen(w, "w") as fp:
                    fp.write(a)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as fp:
            a = fp.read()
        st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        sys.stdout.write((a or json.dumps({"died": st})) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
