"""Running an analysis again over earlier or interrupted results gives the same as a fresh run."""
import hashlib
import os
import subprocess

import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
import modules as M
from harness import Outcome

ID = "C06"
RULE = ("a case is a generated scenario (one of eight higher-level modules) and a history of 1-3 earlier runs into the same output directory: with another "
        "mask, block size, thread number, storage form or product selection, with other inputs, killed at a drawn file operation, or with result files cut off; the scenario is then run there "
        "and in an empty directory; one evaluation = one value of the final run (or one file the final run does not produce); distinct non-trivial = "
        "values in files that already existed before the final run")
ASSUMPTIONS = ["lock files left behind by a killed run are removed before the next run, as documented",
               "killed and cut-off runs are simulated at file operations of a process, not as loss of power"]
TIERS = {"quick": dict(examples=900, budget=27), "thorough": dict(examples=3000, budget=75)}

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static long at = -1, n = 0; static const char *dir; static pid_t me;
__attribute__((constructor)) static void init(void){ const char *s = getenv("CRASH_AT"); at = s ? atol(s) : -1; dir = getenv("CRASH_DIR"); me = getpid(); }
static void tick(const char *p){
  if (at < 0 || !dir || !p || getpid() != me || strncmp(p, dir, strlen(dir)) != 0) return;
  if (__sync_add_and_fetch(&n, 1) == at) kill(me, SIGKILL);
}
static void tickfd(int fd){
  char a[64], b[4096]; ssize_t k;
  if (at < 0 || fd < 3) return;
  snprintf(a, sizeof a, "/proc/self/fd/%d", fd);
  if ((k = readlink(a, b, sizeof b - 1)) > 0){ b[k] = 0; tick(b);}
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name)
FILE *fopen64(const char *p, const char *m){ REAL(fopen64); if (strpbrk(m, "wa+")) tick(p); return real(p, m); }
FILE *fopen(const char *p, const char *m){ REAL(fopen); if (strpbrk(m, "wa+")) tick(p); return real(p, m); }
int open64(const char *p, int f, ...){ REAL(open64); va_list v; va_start(v, f); int m = (f & O_CREAT) ? va_arg(v, int) : 0; va_end(v); if ((f & O_ACCMODE) != O_RDONLY) tick(p); return real(p, f, m); }
int open(const char *p, int f, ...){ REAL(open); va_list v; va_start(v, f); int m = (f & O_CREAT) ? va_arg(v, int) : 0; va_end(v); if ((f & O_ACCMODE) != O_RDONLY) tick(p); return real(p, f, m); }
ssize_t write(int fd, const void *b, size_t k){ REAL(write); tickfd(fd); return real(fd, b, k); }
ssize_t pwrite64(int fd, const void *b, size_t k, off64_t o){ REAL(pwrite64); tickfd(fd); return real(fd, b, k, o); }
size_t fwrite(const void *b, size_t s, size_t k, FILE *f){ REAL(fwrite); tickfd(fileno(f)); return real(b, s, k, f); }
int ftruncate64(int fd, off64_t o){ REAL(ftruncate64); tickfd(fd); return real(fd, o); }
int unlink(const char *p){ REAL(unlink); tick(p); return real(p); }
"""
KINDS = ["TSA", "TXT", "CSO", "LSM", "LEVEL3", "ML", "LIB", "UDF"]
FORMS = [{}, {}, {"OUTPUT_EXPLODE": "TRUE"}, {"OUTPUT_FORMAT": "ENVI"}, {"OUTPUT_SUBFOLDERS": "TRUE"}]


@st.composite
def variant(draw, g, rad):
    dx = [d for d in range(1, g["nx"] + 1) if g["nx"] % d == 0 and d >= rad] or [g["nx"]]
    dy = [d for d in range(1, g["ny"] + 1) if g["ny"] % d == 0 and d >= rad] or [g["ny"]]
    cx, cy = draw(st.sampled_from(dx[::-1])), draw(st.sampled_from(dy[::-1]))
    while (g["nx"] // cx) * (g["ny"] // cy) > 9:
        cx, cy = (g["nx"], cy) if cx < cy else (cx, g["ny"])
    mk = draw(st.sampled_from(["none", "rect", "hole", "dots"]))
    a, b = sorted([draw(st.integers(0, g["nx"])), draw(st.integers(0, g["nx"]))])
    c, d = sorted([draw(st.integers(0, g["ny"])), draw(st.integers(0, g["ny"]))])
    return dict(cx=cx, cy=cy, mask=[mk, a, b, c, d], threads=draw(st.sampled_from([1, 1, 3])), form=draw(st.integers(0, len(FORMS) - 1)))


@st.composite
def strategy_(draw, tier):
    sc = draw(M.scenario(KINDS, max_tiles=1, sizes=(12, 8, 16, 6)))
    g, o = sc["grid"], sc["opt"]
    rad = 0
    if sc["kind"] == "TXT":
        o.update(TXT_RADIUS=10, TXT_ITERATION=1)
        rad = 2
    elif sc["kind"] == "LSM":
        o["LSM_RADIUS"] = min(int(o["LSM_RADIUS"]), 20)
        rad = 2
    hist = []
    for _ in range(draw(st.integers(1, 3))):
        h = draw(variant(g, rad))
        h["do"] = draw(st.sampled_from(["run", "run", "kill", "kill", "cut"]))
        h["at"] = draw(st.integers(1, 90))
        h["cut"] = draw(st.floats(0, 1))
        h["opt"] = draw(M.scenario([sc["kind"]], max_tiles=1))["opt"] if sc["kind"] in ("TSA", "CSO") and draw(st.booleans()) else None
        h["data"] = draw(st.integers(0, 3)) == 3
        hist.append(h)
    last = draw(variant(g, rad))
    last["form"] = draw(st.sampled_from([hist[-1]["form"], last["form"]]))
    return dict(sc=sc, hist=hist, last=last)


def strategy(tier):
    return strategy_(tier)


def shim(ctx):
    so = os.path.join(ctx.base, "crash.so")
    if not os.path.exists(so):
        with open(ctx.base + "/crash.c", "w") as f:
            f.write(SHIM)
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so + ".tmp", ctx.base + "/crash.c", "-ldl"], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.rename(so + ".tmp", so)
    return so


def apply(ctx, sc, p, v, tag):
    g = sc["grid"]
    q = dict(p)
    q.update(CHUNK_SIZE="%d %d" % (10 * v["cx"], 10 * v["cy"]), NTHREAD_READ=v["threads"], NTHREAD_COMPUTE=v["threads"], NTHREAD_WRITE=v["threads"])
    q.update(FORMS[v["form"]])
    mk, a, b, c, d = v["mask"]
    if mk != "none":
        m = np.zeros((g["ny"], g["nx"]), np.uint8)
        m[c:d, a:b] = 1
        if mk == "hole":
            m = 1 - m
        elif mk == "dots":
            m = (np.random.default_rng([a, b, c, d]).random(m.shape) < 0.3).astype(np.uint8)
        mc = M.cube_of(ctx, g, "mask" + tag)
        for t in g["tiles"]:
            mc.write(t[0], t[1], "m.tif", m[None], nodata=255, dtype="uint8")
        q.update(DIR_MASK=ctx.dir + "/mask" + tag, BASE_MASK="m.tif")
    return q


def files(path):
    res = {}
    for d, _, ff in os.walk(path):
        for f in ff:
            full = os.path.join(d, f)
            with open(full, "rb") as fh:
                res[os.path.relpath(full, path)] = hashlib.md5(fh.read()).hexdigest()
    return res


def unlock(path):
    for d, _, ff in os.walk(path):
        for f in ff:
            if f.endswith(".lock"):
                os.unlink(os.path.join(d, f))


def run_case(case, ctx):
    out = Outcome()
    sc = case["sc"]
    other = dict(sc, seed=sc["seed"] + 1)
    kind, p = M.build(ctx, sc)
    dst = ctx.dir + "/out"
    what = []
    data = 0
    for i, h in enumerate(case["hist"]):
        if int(h["data"]) != data:
            data = int(h["data"])
            M.build(ctx, other if data else sc)
        q = apply(ctx, sc, dict(p, **(h["opt"] or {})), h, "h%d" % i)
        q["DIR_HIGHER"] = dst
        env = None
        if h["do"] == "kill":
            env = dict(LD_PRELOAD=shim(ctx), CRASH_AT=str(h["at"]), CRASH_DIR=dst)
        x = M.run(ctx, kind, q, name="h%d.prm" % i, env=env)
        unlock(dst)
        if h["do"] == "cut" and h["opt"] is None:
            fs = sorted(files(dst))
            if fs:
                f = os.path.join(dst, fs[int(h["cut"] * 7919) % len(fs)])
                os.truncate(f, int(os.path.getsize(f) * h["cut"]))
        what.append("%s(rc %s)" % (h["do"], x.rc))
        out.label("%s %s" % (h["do"], "killed" if x.rc == -9 else "ran" if x.rc == 0 else "failed"))
    if data:
        M.build(ctx, sc)
    before = files(dst)
    q = apply(ctx, sc, p, case["last"], "l")
    res = []
    for d in (ctx.dir + "/fresh", dst):
        q["DIR_HIGHER"] = d
        x = M.run(ctx, kind, q, name="last.prm")
        if x.rc != 0:
            out.fail("run", "exit %s in %s directory: %s" % (x.rc, "the used" if d == dst else "an empty", x.tail()))
            out.evals = 1
            return out
        res.append(x)
    fresh = hl.outputs(ctx.dir + "/fresh")
    fs = set(files(ctx.dir + "/fresh"))
    w = "%s after %s" % (kind, ", ".join(what))
    got = {}
    for k in fresh:
        try:
            got[k] = F.Raster(os.path.join(dst, k))
        except RuntimeError as e:
            out.fail("unreadable", "%s: %s: %s" % (w, k, e))
            out.evals = 1
            return out
    out.evals = M.same_outputs(out, "again-" + kind, fresh, got, w)
    now = files(dst)
    stem = {k.rsplit(".", 1)[0] for k in fresh}
    for k, v in before.items():
        if k not in fs and not any(k.startswith(s + ".") for s in stem):
            out.evals += 1
            if now.get(k) != v:
                out.fail("others", "%s: %s was %s by a run that does not produce it" % (w, k, "changed" if k in now else "deleted"))
    out.nontrivial = sum(f.data.size for k, f in fresh.items() if k in before)
    out.evals = max(out.evals, 1)
    out.label(kind)
    out.label("existing files rewritten", sum(k in before for k in fresh))
    out.sample = dict(kind=kind, history=what, files=sorted(fresh)[:4])
    return out
