"""Copy /repo's working tree to a scratch directory and build the extensions."""
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable


class BuildError(Exception):
    pass


def copy_tree(dest):
    os.makedirs(dest)
    for name in sorted(os.listdir(REPO)):
        if name in (".git", "build", "dist", "tests", "docs", "notes", "example") or name.endswith(".egg-info"):
            continue
        src = os.path.join(REPO, name)
        if os.path.isdir(src) and not os.path.islink(src):
            if name.startswith("."):
                continue
            shutil.copytree(src, os.path.join(dest, name), symlinks=True,
                            ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc", "*.o"))
        elif os.path.isfile(src):
            shutil.copy2(src, os.path.join(dest, name))


def build(dest, cflags="", ldflags=""):
    """Copy and build; returns the directory to put on sys.path."""
    copy_tree(dest)
    env = dict(os.environ)
    if cflags:
        env["CFLAGS"] = (env.get("CFLAGS", "") + " " + cflags).strip()
    if ldflags:
        env["LDFLAGS"] = (env.get("LDFLAGS", "") + " " + ldflags).strip()
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    cmd = [PY, "-W", "ignore"]
    if os.path.exists(os.path.join(dest, "setup.py")):
        cmd += ["setup.py"]
    else:
        cmd += ["-c", "from setuptools import setup; setup()"]
    cmd += ["-q", "build_ext", "--inplace", "--force"]
    p = subprocess.run(cmd, cwd=dest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    sos = [f for f in os.listdir(os.path.join(dest, "clevercsv")) if f.endswith(".so")]
    if p.returncode != 0 or len(sos) < 2:
        raise BuildError("build failed:\n" + p.stdout.decode(errors="replace")[-4000:])
    # compiled once, not by every process that imports it
    subprocess.run([PY, "-m", "compileall", "-q", "clevercsv"], cwd=dest, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
    # A .pth of the editable install may point at /repo: PYTHONPATH comes first.
    return dest
