"""Worker process: runs its share of the cases of one property."""
import collections
import importlib
import json
import mmap
import os
import resource
import struct
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vlib import engine  # noqa: E402


def load(prop):
    return importlib.import_module("props.%s" % prop.lower())


def main():
    cfg = json.loads(sys.argv[1])
    pkg = os.path.join(cfg["pkg"], "clevercsv") + os.sep
    import clevercsv

    if not os.path.abspath(clevercsv.__file__).startswith(pkg):
        print("wrong clevercsv: %s" % clevercsv.__file__, file=sys.stderr)
        sys.exit(3)
    if not cfg.get("asan"):
        lim = 4 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(1000)
    mod = load(cfg["prop"])
    parts = {p.name: p for p in mod.PARTS}
    if cfg.get("replay"):
        return replay(cfg, parts, pkg)
    bf = open(cfg["beat"], "r+b")
    mm = mmap.mmap(bf.fileno(), 64)
    res = {"parts": {}, "failures": [], "errors": [], "done": False}

    def save():
        with open(cfg["out"] + ".tmp", "w") as fp:
            json.dump(res, fp)
        os.replace(cfg["out"] + ".tmp", cfg["out"])

    beatno = [0]

    def beat(pi, i, phase):
        beatno[0] += 1
        struct.pack_into("<qqqq", mm, 0, pi, i, phase, beatno[0])

    start_part, start_i = cfg.get("start", [0, -1])
    nw, k = cfg["nworkers"], cfg["worker"]
    stop = False
    for pi, part in enumerate(mod.PARTS):
        if stop:
            break
        if cfg.get("only") and part.name != cfg["only"]:
            continue
        if pi < start_part:
            continue
        st = {"evaluations": 0, "nontrivial": 0, "skipped": 0, "labels": collections.Counter(), "samples": [], "keys": []}
        res["parts"][part.name] = st
        if part.setup:
            part.setup(cfg)
        seen = set()
        n = part.count(cfg["tier"], cfg["scale"])
        for i in range(k, n, nw):
            if pi == start_part and i <= start_i:
                continue
            if mm[40]:
                stop = True
                break
            beat(pi, i, 0)
            try:
                case = part.case(cfg["seed"], i)
            except Exception:
                res["errors"].append("generator %s #%d: %s" % (part.name, i, traceback.format_exc()[-2000:]))
                save()
                sys.exit(2)
            status, msg, labels = engine.run_case(part, case, pkg, True)
            st["evaluations"] += 1
            if status == "skip":
                st["skipped"] += 1
            elif status == "ok":
                for lab in labels:
                    st["labels"][lab] += 1
                if "NT" in labels:
                    key = engine.case_key(case)
                    if key not in seen:
                        seen.add(key)
                        st["nontrivial"] += 1
                        if len(st["samples"]) < 2:
                            st["samples"].append(engine.short(json.dumps(case, ensure_ascii=True), 500))
            elif status == "harness":
                res["errors"].append("%s #%d: %s\ncase: %s" % (part.name, i, msg, engine.short(json.dumps(case), 600)))
                save()
                sys.exit(2)
            else:
                # confirm on a second run, then shrink
                beat(pi, i, 1)
                s2, m2, _ = engine.run_case(part, case, pkg, True)
                fail = {"part": part.name, "index": i, "case": case, "message": msg, "repeatable": s2 == "violation"}
                res["failures"].append(fail)
                save()
                if s2 == "violation" and not msg.startswith(engine.UNUSABLE):
                    small, m3 = engine.shrink(part, case, pkg, part.shrink_tries, 25.0, lambda: beat(pi, i, 1))
                    if m3:
                        fail["original"] = case
                        fail["original_message"] = msg
                        fail["case"], fail["message"] = small, m3
                fail["history"] = [k, nw, i]
                save()
                if cfg.get("keep_going"):
                    break
                stop = True
                break
        st["keys"] = [x.hex() for x in seen]
        if part.name in res["parts"]:
            res["parts"][part.name]["labels"] = dict(st["labels"])
        save()
    res["done"] = True
    save()


def replay(cfg, parts, pkg):
    r = cfg["replay"]
    part = parts.get(r["part"])
    if part is None:
        print("no such part", file=sys.stderr)
        sys.exit(2)
    resource.setrlimit(resource.RLIMIT_CPU, (cfg.get("cpu", 150), cfg.get("cpu", 150) + 5))
    if part.setup:
        part.setup(cfg)
    if r.get("mode") == "history":
        k, nw, last = r["history"]
        for i in range(k, last, nw):
            engine.run_case(part, part.case(r["seed"], i), pkg)
    status, msg, labels = engine.run_case(part, r["case"], pkg, True)
    with open(cfg["out"], "w") as fp:
        json.dump({"status": status, "message": msg, "labels": labels}, fp)


if __name__ == "__main__":
    main()
