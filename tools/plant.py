"""Development tool: turn the bugs of tools/bugs.py into /verif/seeded/<id>/.

plant.py [ID ...]: for each bug (new ones by default) make a scratch copy of
/repo, apply the edits, confirm that original lines change, that it builds,
that the stable tests pass, that the demo passes without and fails with the
change; then run the property's check on the changed copy (VERIF_REPO).
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import bugs  # noqa

PY = "/opt/venv/bin/python"
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, timeout=900, env=None):
    e = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.pop("PYTHONPATH", None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout, env=e, errors="replace")


def build(d):
    return sh([PY, "-W", "ignore", "-c", "from setuptools import setup; setup()", "-q", "build_ext", "--inplace", "--force"] if not os.path.exists(d + "/setup.py") else [PY, "-W", "ignore", "setup.py", "-q", "build_ext", "--inplace", "--force"], d)


def check_on(prop, d, extra=()):
    p = sh(["./run.sh", prop, *extra], HERE, env={"VERIF_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick", "VERIF_EVIDENCE_DIR": "/tmp/plant-ev"})
    return p


def run(bug, check=True):
    d = "/tmp/plant/" + bug["id"]
    out = HERE + "/seeded/" + bug["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    try:
        sh(["git", "worktree", "prune"], "/repo")
        shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "build"))
        os.makedirs(out, exist_ok=True)
        demo = bug["demo"]
        if bug.get("sh"):
            open(out + "/demo.sh", "w").write(bug["sh"])
        else:
            open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 LC_ALL=C.UTF-8\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexec "$PY" "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(demo.lstrip("\n"))
        r = sh(["bash", out + "/demo.sh"], d, 300)
        if r.returncode != 0:
            return bug["id"], "DEMO FAILS ON CLEAN: " + (r.stdout + r.stderr)[-800:]
        for f, old, new in bug["edits"]:
            s = open(d + "/" + f).read()
            if s.count(old) != 1:
                return bug["id"], "EDIT MATCHES %d TIMES in %s: %r" % (s.count(old), f, old[:80])
            open(d + "/" + f, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        open(out + "/patch.diff", "w").write(diff)
        # originality of the removed lines
        foreign = 0
        own = 0
        for f in {e[0] for e in bug["edits"]}:
            bl = sh(["git", "blame", "-l", "-s", "HEAD", "--", f], "/repo").stdout.split("\n")
            ln = 0
            for line in sh(["git", "diff", "-U0", "--", f], d).stdout.split("\n"):
                if line.startswith("@@"):
                    ln = int(line.split("-")[1].split(",")[0].split(" ")[0])
                elif line.startswith("-") and not line.startswith("---"):
                    c = bl[ln - 1].split(" ")[0].lstrip("^")
                    if BASE.startswith(c[:30]):
                        own += 1
                    else:
                        foreign += 1
                    ln += 1
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r = build(d)
        if r.returncode:
            return bug["id"], "BUILD FAILS " + (r.stdout + r.stderr)[-500:]
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=15", "-m", "not network", "tests"], d, env={"PYTHONPATH": d})
        tests = t.stdout.strip().split("\n")[-1]
        if t.returncode:
            return bug["id"], "TESTS FAIL: " + tests + "\n" + "\n".join(x for x in t.stdout.split("\n") if x.startswith("FAILED"))
        r = sh(["bash", out + "/demo.sh"], d, 300)
        if r.returncode == 0:
            return bug["id"], "DEMO PASSES WITH BUG"
        msg = "orig %d foreign %d; demo ok (%s)" % (own, foreign, (r.stdout + r.stderr).strip().split("\n")[-1][:100])
        if check:
            p = check_on(bug["property"], d)
            hit = [x for x in p.stdout.split("\n") if x.startswith("%s [" % bug["property"])]
            msg += "; CHECK rc=%d %s" % (p.returncode, hit[0][:160] if hit else (p.stdout + p.stderr)[-300:])
        return bug["id"], ("CAUGHT " if check and p.returncode == 1 else "MISSED ") + msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    ids = sys.argv[1:]
    todo = [b for b in bugs.BUGS if (b["id"] in ids if ids else not os.path.exists(HERE + "/seeded/" + b["id"] + "/result.txt"))]
    bad = 0
    for b in todo:
        i, m = run(b)
        print(i, m, flush=True)
        if m.startswith(("CAUGHT", "MISSED")):
            pass
        else:
            bad += 1
            shutil.rmtree(HERE + "/seeded/" + i, ignore_errors=True)
