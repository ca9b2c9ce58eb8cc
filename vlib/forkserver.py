"""Answers operations on texts, each in a process that did nothing before."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import clevercsv  # noqa
from props import c10  # noqa


def answer(q):
    return c10.run_op(clevercsv.Detector(), c10.ConsistencyDetector(), q["op"], q["text"])


def main():
    for line in sys.stdin:
        q = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                try:
                    a = answer(q)
                except Exception as e:
                    a = "%s: %s" % (type(e).__name__, e)
                with os.fdopen(w, "w") as fp:
                    json.dump(a, fp)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as fp:
            a = fp.read()
        os.waitpid(pid, 0)
        sys.stdout.write((a or '"died"') + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
