"""Answers detection requests in another process (its own string-hash seed)."""
import json
import sys


def answer(q):
    import clevercsv

    o = dict(q["options"])
    if q.get("set") and "delimiters" in o:
        o["delimiters"] = set(o["delimiters"])
    try:
        r = clevercsv.Detector().detect(q["text"], **o)
    except clevercsv.Error:
        return "error"
    return None if r is None else [r.delimiter, r.quotechar, r.escapechar, r.strict]


def main():
    for line in sys.stdin:
        try:
            out = answer(json.loads(line))
        except BaseException as e:
            out = "exception " + type(e).__name__
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


if __name__ == "__main__":
    main()
