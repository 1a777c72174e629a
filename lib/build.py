"""Build force from /repo's current working tree, outside /repo.

The tree is identified by a hash over every file that takes part in the build;
a finished build of the same tree is reused (the checks run one after another
on the same tree), anything else is built from scratch in its own directory.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = "/repo"
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".build")
PARTS = ["Makefile", "build", "src", "bash", "rstats", "python", "misc", "check-required.sh"]
KEEP = 3


class BuildError(Exception):
    pass


def _files():
    for part in PARTS:
        p = os.path.join(REPO, part)
        if os.path.isfile(p):
            yield p
        for d, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(".pyc"):
                    continue
                yield os.path.join(d, f)


def tree_hash():
    h = hashlib.sha256()
    for f in _files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(b"x" if os.access(f, os.X_OK) else b"-")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def _env():
    env = dict(os.environ)
    for k in ("MAKEFLAGS", "MFLAGS"):
        env.pop(k, None)
    env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PATH="/usr/bin:/bin:/usr/sbin:/sbin")
    return env


def _prune(keep_name):
    entries = []
    for e in os.listdir(ROOT):
        p = os.path.join(ROOT, e)
        if os.path.isdir(p) and e != keep_name:
            entries.append((os.path.getmtime(p), p))
    entries.sort(reverse=True)
    for _, p in entries[KEEP - 1:]:
        shutil.rmtree(p, ignore_errors=True)


def ensure(kind="std"):
    """Return the build directory for the current tree; kind 'std' holds bin/,
    kind 'san' the same executables with address/undefined sanitizers."""
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        name = kind + "-" + tree_hash()
        dst = os.path.join(ROOT, name)
        if os.path.exists(os.path.join(dst, ".done")):
            os.utime(dst)
            return dst
        shutil.rmtree(dst, ignore_errors=True)
        _prune(name)
        os.makedirs(dst)
        for part in PARTS:
            s = os.path.join(REPO, part)
            if os.path.isdir(s):
                shutil.copytree(s, os.path.join(dst, part), ignore=shutil.ignore_patterns("*.pyc"))
            elif os.path.exists(s):
                shutil.copy2(s, os.path.join(dst, part))
        extra = []
        if kind == "san":
            extra = ["CFLAGS=-O1 -g -fno-omit-frame-pointer -fopenmp -fsanitize=address"]
        t0 = time.time()
        log = open(os.path.join(dst, "build.log"), "w")
        cmds = [["make", "-j8", "-o", "check-tools"] + extra + ["prepare", "exe"],
                ["make", "-o", "check-tools"] + extra + ["bash", "rstats", "python", "misc"]]
        for cmd in cmds:
            r = subprocess.run(cmd, cwd=dst, env=_env(), stdout=log, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL)
            if r.returncode != 0:
                raise BuildError("build failed, see %s/build.log" % dst)
        shutil.rmtree(os.path.join(dst, "obj"), ignore_errors=True) if kind != "std" else None
        with open(os.path.join(dst, ".done"), "w") as f:
            f.write("%.1f s\n" % (time.time() - t0))
        return dst


if __name__ == "__main__":
    print(ensure(sys.argv[1] if len(sys.argv) > 1 else "std"))
