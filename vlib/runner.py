"""Runs one check: build, workers, aggregation, evidence, verdict."""
import argparse
import importlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vlib import build as builder  # noqa: E402
from vlib import engine  # noqa: E402

NW = 8


def asan_env():
    def lib(n):
        return subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()

    # libstdc++ must be loaded early, or the sanitizer cannot intercept its throws
    return {
        "LD_PRELOAD": lib("libasan.so") + " " + lib("libubsan.so") + " " + lib("libstdc++.so.6"),
        "ASAN_OPTIONS": "detect_leaks=0,abort_on_error=1,allocator_may_return_null=1,handle_segv=1,detect_stack_use_after_return=0",
        "UBSAN_OPTIONS": "halt_on_error=1,print_stacktrace=1,abort_on_error=1",
        "PYTHONMALLOC": "malloc",
    }


class Runner:
    def __init__(self, a):
        self.a = a
        self.t0 = time.monotonic()
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % a.prop.lower())
        os.chmod(self.scratch, 0o755)
        self.known = []
        kf = os.path.join(HERE, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)) if k.get("property") == a.prop]

    def env(self, k):
        w = os.path.join(self.scratch, "w%s" % k)
        os.makedirs(os.path.join(w, "tmp"), exist_ok=True)
        e = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": w, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
            "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
            "PYTHONPATH": self.pkg + os.pathsep + HERE,
            "TMPDIR": os.path.join(w, "tmp"),
            "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
            "COLUMNS": "200",
        }
        if self.asan:
            e.update(asan_env())
        return w, e

    def spawn(self, k, start=None):
        w, e = self.env(k)
        beat = os.path.join(self.scratch, "beat%d" % k)
        with open(beat, "wb") as fp:
            fp.write(b"\0" * 64)
        out = os.path.join(self.scratch, "out%d-%d.json" % (k, int(time.monotonic() * 1e6)))
        cfg = {"prop": self.a.prop, "pkg": self.pkg, "tier": self.a.tier, "seed": self.a.seed, "scale": self.a.scale,
               "worker": k, "nworkers": NW, "beat": beat, "out": out, "asan": self.asan, "only": self.a.part,
               "scratch": w}
        if start:
            cfg["start"] = start
        err = open(os.path.join(self.scratch, "err%d" % k), "ab")
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "vlib", "worker.py"), json.dumps(cfg)],
                             cwd=w, env=e, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
        err.close()
        return {"p": p, "k": k, "beat": beat, "out": out, "last": None, "since": time.monotonic()}

    def run_replay(self, rep, cpu=150, wall=300):
        w, e = self.env("r")
        out = os.path.join(self.scratch, "replay-out.json")
        if os.path.exists(out):
            os.unlink(out)
        cfg = {"prop": self.a.prop, "pkg": self.pkg, "tier": self.a.tier, "seed": rep.get("seed", self.a.seed), "scale": 1.0,
               "worker": 0, "nworkers": NW, "out": out, "asan": self.asan, "replay": rep, "cpu": cpu, "scratch": w}
        cf = os.path.join(self.scratch, "replay-cfg.json")
        json.dump(cfg, open(cf, "w"))
        errf = os.path.join(self.scratch, "replay-err")
        with open(errf, "wb") as err:
            p = subprocess.Popen([sys.executable, "-c",
                                  "import sys;sys.argv=['w',open(%r).read()];sys.path.insert(0,%r);"
                                  "from vlib import worker;worker.main()" % (cf, HERE)],
                                 cwd=w, env=e, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(wall)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "timeout", "wall clock", ""
        tail = open(errf, "rb").read()[-3000:].decode(errors="replace")
        if rc == 0 and os.path.exists(out):
            r = json.load(open(out))
            return r["status"], r["message"], tail
        if rc in (-signal.SIGXCPU, -signal.SIGKILL):
            return "cpu", "did not finish within %d CPU seconds" % cpu, tail
        if rc < 0:
            return "violation", "process died with %s; %s" % (signal.Signals(-rc).name, engine.short(asan_summary(tail), 600)), tail
        return "harness", "exit %d" % rc, tail

    # ------------------------------------------------------------------
    def main(self):
        a = self.a
        try:
            os.chdir(self.scratch)
            mod = importlib.import_module("props.%s" % a.prop.lower())
        except Exception:
            raise
        self.mod = mod
        self.asan = bool(getattr(mod, "ASAN", False))
        try:
            flags = ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined" if self.asan else "")
            self.pkg = builder.build(os.path.join(self.scratch, "pkg"), flags, flags.split(" -fno-sanitize")[0] if self.asan else "")
        except builder.BuildError as e:
            print("ERROR: %s" % e, file=sys.stderr)
            return 2
        if a.replay:
            return self.do_replay()
        ws = [self.spawn(k) for k in range(NW)]
        results, failures, errors, notes = [], [], [], []
        soft = 300 if a.tier == "quick" else 3600 * 2
        if a.budget:
            soft = a.budget
        hang = 90
        stopped = False
        fail_at = None
        while ws:
            time.sleep(0.05)
            now = time.monotonic()
            if not stopped and now - self.t0 > soft:
                stopped = True
                notes.append("stopped by the soft time budget of %d s" % soft)
                for w in ws:
                    with open(w["beat"], "r+b") as fp:
                        fp.seek(40)
                        fp.write(b"\1")
            for w in list(ws):
                rc = w["p"].poll()
                with open(w["beat"], "rb") as fp:
                    pi, i, phase, no = struct.unpack("<qqqq", fp.read(32))
                if rc is None:
                    if w["last"] != no:
                        w["last"], w["since"] = no, now
                    elif now - w["since"] > hang:
                        os.killpg(w["p"].pid, signal.SIGKILL)
                        w["p"].wait()
                        ws.remove(w)
                        if fail_at or phase == 1:
                            self.collect(w, results, failures, errors)
                            continue
                        part = mod.PARTS[pi]
                        rep = {"part": part.name, "case": part.case(a.seed, i), "seed": a.seed}
                        st, msg, tail = self.run_replay(rep)
                        if st in ("cpu", "violation"):
                            failures.append(dict(rep, message=msg, index=i))
                            fail_at = fail_at or now
                        elif st == "harness":
                            errors.append("%s #%d hung, replay: %s %s" % (part.name, i, msg, tail))
                        else:
                            notes.append("%s #%d was slow (over %d s), finished alone" % (part.name, i, hang))
                            self.collect(w, results, failures, errors)
                            ws.append(self.spawn(w["k"], [pi, i]))
                    continue
                ws.remove(w)
                self.collect(w, results, failures, errors)
                if rc < 0 and not fail_at:
                    # killed by a signal: rerun the case alone
                    part = mod.PARTS[pi]
                    rep = {"part": part.name, "case": part.case(a.seed, i), "seed": a.seed}
                    err = open(os.path.join(self.scratch, "err%d" % w["k"]), "rb").read()[-3000:].decode(errors="replace")
                    st, msg, tail = self.run_replay(rep)
                    if st != "violation":
                        rep["mode"] = "history"
                        rep["history"] = [w["k"], NW, i]
                        st, msg, tail = self.run_replay(rep)
                    if st in ("violation", "cpu"):
                        if "mode" not in rep:
                            rep["case"], msg = self.shrink_crash(rep, msg)
                        failures.append(dict(rep, message=msg, index=i))
                    elif rc == -signal.SIGKILL:
                        errors.append("worker %d was killed (memory?) at %s #%d" % (w["k"], part.name, i))
                    else:
                        failures.append(dict(rep, message="worker died with %s, not reproduced alone: %s"
                                             % (signal.Signals(-rc).name, engine.short(asan_summary(err), 600)), index=i))
                elif rc == 2 and not errors:
                    errors.append("worker %d exit 2" % w["k"])
                elif rc not in (0, 2) and rc > 0:
                    err = open(os.path.join(self.scratch, "err%d" % w["k"]), "rb").read()[-3000:].decode(errors="replace")
                    errors.append("worker %d exit %d: %s" % (w["k"], rc, err))
                if failures and not fail_at:
                    fail_at = now
            if failures and not fail_at:
                fail_at = now
            if fail_at and now - fail_at > 2:
                for w in list(ws):
                    # let one that is shrinking finish, stop the others
                    with open(w["beat"], "rb") as fp:
                        phase = struct.unpack("<qqqq", fp.read(32))[2]
                    if phase != 1 or now - fail_at > 40:
                        try:
                            os.killpg(w["p"].pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
        return self.verdict(results, failures, errors, notes)

    def shrink_crash(self, rep, msg):
        t0 = time.monotonic()
        best = rep["case"]
        progress = True
        n = 0
        while progress:
            progress = False
            for c in engine.candidates(best):
                n += 1
                if n > 60 or time.monotonic() - t0 > 45:
                    return best, msg
                st, m, _ = self.run_replay(dict(rep, case=c), 20, 30)
                if st == "violation":
                    best, msg, progress = c, m, True
                    break
        return best, msg

    def collect(self, w, results, failures, errors):
        if os.path.exists(w["out"]):
            r = json.load(open(w["out"]))
            results.append(r)
            errors.extend(r["errors"])
            for f in r["failures"]:
                if not f.get("repeatable", True):
                    # fails only with history: keep it replayable as such
                    if "history" in f:
                        f["mode"] = "history"
                failures.append(f)

    def verdict(self, results, failures, errors, notes):
        a = self.a
        agg = {}
        keys = {}
        for r in results:
            for name, st in r["parts"].items():
                d = agg.setdefault(name, {"evaluations": 0, "skipped_out_of_domain": 0, "labels": {}, "samples": []})
                d["evaluations"] += st["evaluations"]
                d["skipped_out_of_domain"] += st["skipped"]
                for x, c in st["labels"].items():
                    d["labels"][x] = d["labels"].get(x, 0) + c
                d["samples"] = (d["samples"] + st["samples"])[:3]
                keys.setdefault(name, set()).update(st["keys"])
        for name in agg:
            agg[name]["distinct_nontrivial"] = len(keys[name])
            lab = agg[name].pop("labels")
            lab.pop("NT", None)
            agg[name]["classes"] = dict(sorted(lab.items(), key=lambda x: -x[1])[:40])
        rules = {p.name: p.rule for p in self.mod.PARTS}
        known_hits, fresh = [], []
        for f in failures:
            k = self.match_known(f)
            (known_hits if k else fresh).append((k, f))
        ev = {
            "property": a.prop, "tier": a.tier, "seed": a.seed,
            "level": getattr(self.mod, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": sum(d["evaluations"] for d in agg.values()),
                "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in agg.values()),
                "rule": " | ".join("%s: %s" % kv for kv in rules.items()),
                "samples": [{"part": n, "case": s} for n, d in agg.items() for s in d["samples"][:2]],
                "parts": agg,
                "notes": notes,
                "known_findings_seen": sorted({k["id"] for k, _ in known_hits}),
            },
            "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
            "wall_s": round(time.monotonic() - self.t0, 2),
            "violations": len(fresh),
        }
        evdir = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(HERE, "evidence")
        os.makedirs(evdir, exist_ok=True)
        dest = os.path.join(evdir, a.prop + ".json")
        with open(dest + ".tmp", "w") as fp:
            json.dump(ev, fp, indent=1, ensure_ascii=True)
        os.replace(dest + ".tmp", dest)
        for k in self.known:
            if k.get("status") == "known":
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
        if fresh:
            done = set()
            for _, f in fresh:
                if f["part"] in done:
                    continue
                done.add(f["part"])
                path = self.save_replay(f)
                print("%s [%s]: %s" % (a.prop, f["part"], f["message"]))
                print("  case: %s" % engine.short(json.dumps(f["case"], ensure_ascii=True), 800))
                print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        if errors:
            print("ERROR in check %s:" % a.prop, file=sys.stderr)
            for e in errors[:3]:
                print(e, file=sys.stderr)
            return 2
        tot = ev["coverage"]
        print("%s ok: %d cases, %d distinct non-trivial, %.1f s%s" % (
            a.prop, tot["evaluations"], tot["distinct_nontrivial"], ev["wall_s"], " (%s)" % "; ".join(notes) if notes else ""))
        if a.verbose:
            print(json.dumps(agg, indent=1))
        if tot["evaluations"] == 0:
            return 2
        return 0

    def match_known(self, f):
        for k in self.known:
            if k.get("status") == "known" and k.get("part") in (None, f["part"]):
                if f["case"] in k.get("cases", []) or f.get("original") in k.get("cases", []):
                    return k
        return None

    def save_replay(self, f):
        import hashlib

        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        rep = {"property": self.a.prop, "seed": self.a.seed, "part": f["part"], "case": f["case"], "message": f["message"]}
        for x in ("mode", "history", "original", "original_message"):
            if x in f:
                rep[x] = f[x]
        if rep.get("mode") != "history":
            rep.pop("history", None)
        h = hashlib.sha1(json.dumps([rep["part"], rep["case"]]).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s-%s.json" % (self.a.prop, f["part"], h))
        with open(path, "w") as fp:
            json.dump(rep, fp, indent=1, ensure_ascii=True)
        return path

    def do_replay(self):
        rep = json.load(open(self.a.replay_abs))
        st, msg, tail = self.run_replay(rep)
        if st in ("violation", "cpu"):
            print("%s [%s]: %s" % (self.a.prop, rep["part"], msg))
            print("VIOLATION property=%s replay=%s" % (self.a.prop, self.a.replay_abs))
            return 1
        if st in ("ok", "skip"):
            print("%s: replay does not violate the property (%s)" % (self.a.prop, st))
            return 0
        print(msg, tail, file=sys.stderr)
        return 2


def asan_summary(text):
    lines = [x for x in text.splitlines() if "ERROR: AddressSanitizer" in x or "runtime error:" in x or "SUMMARY" in x or "Fatal Python" in x]
    return " ".join(lines) or text[-300:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--part")
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    a.replay_abs = os.path.abspath(a.replay) if a.replay else None
    r = Runner(a)
    try:
        rc = r.main()
    finally:
        os.chdir("/")
        if os.environ.get("VERIF_KEEP"):
            print("kept", r.scratch, file=sys.stderr)
        else:
            shutil.rmtree(r.scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
