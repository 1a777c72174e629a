"""A run that reports success has stored all of its results, also when files cannot be written."""
import os
import subprocess

import numpy as np
from hypothesis import strategies as st

import fcube as F
import fl1
import hl
import modules as M
from harness import Outcome

ID = "C07"
RULE = ("a case is a generated scenario of one of eight higher-level modules, a synthetic Landsat scene for Level 2, or a quality image to inflate, run once undisturbed and then 3-8 times with a drawn file operation on its result "
        "images (opening, writing, enlarging) and all later ones made to fail with a drawn reason (disk full, device error, no permission); one evaluation = one disturbed run; "
        "distinct non-trivial = disturbed runs whose result images differ from those of the undisturbed run")
ASSUMPTIONS = ["one block per tile and one thread", "failing operations are on the images of the tiles, not on lock, provenance, citation, header and log files",
               "failures are reported to the program by the operating system when it performs the operation"]
TIERS = {"quick": dict(examples=900, budget=27), "thorough": dict(examples=3000, budget=75)}

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static long at = -1, n = 0, hit = 0; static int on = 0, err = ENOSPC; static const char *dir, *rep; static pid_t me;
__attribute__((constructor)) static void init(void){
  const char *s = getenv("FAULT_AT"); dir = getenv("FAULT_DIR"); rep = getenv("FAULT_REPORT"); me = getpid();
  if (!s || !dir) return;
  on = 1; at = atol(s);
  if ((s = getenv("FAULT_ERRNO"))) err = atoi(s);
}
__attribute__((destructor)) static void done(void){
  if (!on || !rep || getpid() != me) return;
  on = 0;
  FILE *f = fopen(rep, "w"); if (f){ fprintf(f, "%ld %ld\n", n, hit); fclose(f);}
}
static int tick(const char *p){
  if (!on || !p || getpid() != me || strncmp(p, dir, strlen(dir)) != 0 || strstr(p, ".lock") || strstr(p, ".hdr") || strstr(p, ".xml") || strstr(p, ".csv") || strstr(p, "CITEME") || strstr(p, ".log")) return 0;
  long k = __sync_add_and_fetch(&n, 1);
  if (at > 0 && k >= at){ __sync_add_and_fetch(&hit, 1); errno = err; return 1;}
  return 0;
}
static int tickfd(int fd){
  char a[64], b[4096]; ssize_t k;
  if (!on || fd < 3) return 0;
  snprintf(a, sizeof a, "/proc/self/fd/%d", fd);
  if ((k = readlink(a, b, sizeof b - 1)) > 0){ b[k] = 0; return tick(b);}
  return 0;
}
#define REAL(name) static __typeof__(name) *real; if (!real) real = (__typeof__(name)*)dlsym(RTLD_NEXT, #name)
FILE *fopen64(const char *p, const char *m){ REAL(fopen64); if (strpbrk(m, "wa+") && tick(p)) return NULL; return real(p, m); }
FILE *fopen(const char *p, const char *m){ REAL(fopen); if (strpbrk(m, "wa+") && tick(p)) return NULL; return real(p, m); }
int open64(const char *p, int f, ...){ REAL(open64); va_list v; va_start(v, f); int m = (f & O_CREAT) ? va_arg(v, int) : 0; va_end(v); if ((f & O_ACCMODE) != O_RDONLY && tick(p)) return -1; return real(p, f, m); }
int open(const char *p, int f, ...){ REAL(open); va_list v; va_start(v, f); int m = (f & O_CREAT) ? va_arg(v, int) : 0; va_end(v); if ((f & O_ACCMODE) != O_RDONLY && tick(p)) return -1; return real(p, f, m); }
ssize_t write(int fd, const void *b, size_t k){ REAL(write); if (tickfd(fd)){ errno = err; return -1;} return real(fd, b, k); }
ssize_t pwrite64(int fd, const void *b, size_t k, off64_t o){ REAL(pwrite64); if (tickfd(fd)){ errno = err; return -1;} return real(fd, b, k, o); }
size_t fwrite(const void *b, size_t s, size_t k, FILE *f){ REAL(fwrite); if (tickfd(fileno(f))){ errno = err; return 0;} return real(b, s, k, f); }
int ftruncate64(int fd, off64_t o){ REAL(ftruncate64); if (tickfd(fd)) return -1; return real(fd, o); }
"""
KINDS = ["TSA", "TXT", "CSO", "LSM", "LEVEL3", "ML", "LIB", "UDF"]
FORMS = [{}, {}, {}, {"OUTPUT_EXPLODE": "TRUE"}, {"OUTPUT_FORMAT": "ENVI"}, {"OUTPUT_FORMAT": "COG"}, {"OUTPUT_SUBFOLDERS": "TRUE"}]
ERRNO = {"full": 28, "device": 5, "permission": 13, "quota": 122}


@st.composite
def strategy_(draw, tier):
    faults = [dict(where=draw(st.floats(0, 1)), why=draw(st.sampled_from(sorted(ERRNO))))
              for _ in range(draw(st.integers(3, 8)))]
    what = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3]))
    if what == 3:
        return dict(qai=dict(nx=draw(st.integers(1, 60)), ny=draw(st.integers(1, 60)), seed=draw(st.integers(0, 2**31))), faults=faults)
    if what == 2:
        return dict(l2=dict(sensor=draw(st.sampled_from([8, 5, 7, 9])), nx=draw(st.integers(12, 40)), ny=draw(st.integers(12, 40)), tile=draw(st.integers(20, 60)), tiled=draw(st.sampled_from([True, True, False])),
                            fmt=draw(st.sampled_from(["GTiff", "GTiff", "ENVI", "COG"])), seed=draw(st.integers(0, 2**31)), again=draw(st.booleans())), faults=faults)
    sc = draw(M.scenario(KINDS, max_tiles=2, sizes=(12, 8, 16, 6)))
    return dict(sc=sc, form=draw(st.integers(0, len(FORMS) - 1)), faults=faults)


def strategy(tier):
    return strategy_(tier)


def shim(ctx):
    so = os.path.join(ctx.base, "fault.so")
    if not os.path.exists(so):
        with open(ctx.base + "/fault.c", "w") as f:
            f.write(SHIM)
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so + ".tmp", ctx.base + "/fault.c", "-ldl"], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.rename(so + ".tmp", so)
    return so


def higher(ctx, case):
    kind, p = M.build(ctx, case["sc"])
    g = case["sc"]["grid"]
    p = dict(p, CHUNK_SIZE="%d %d" % (10*g["nx"], 10*g["ny"]), NTHREAD_READ=1, NTHREAD_COMPUTE=1, NTHREAD_WRITE=1, STREAMING="FALSE", **FORMS[case["form"]])

    def go(d, env):
        os.makedirs(d, exist_ok=True)
        p["DIR_HIGHER"] = d
        x = M.run(ctx, kind, p, name="f.prm", env=env)
        return x.rc, x.tail()
    return kind, go


def lower(ctx, case):
    c = case["l2"]
    rng = np.random.default_rng([c["seed"], 7])
    cx, cy = 30.0*int(rng.integers(14000, 20000)), 30.0*int(rng.integers(170000, 195000))
    lon, lat = fl1.lonlat(cx, cy, fl1.utm_wkt(33))
    sc = fl1.Scene(c["sensor"], c["nx"], c["ny"], cx, cy, 33, date=(2018, 6, 5), time=(9, 50, 11.0), row=20)
    fl1.natural(sc, rng, [], base="veg")
    src = sc.write(ctx.dir + "/l1")
    exe = ctx.exe("force-l2ps")

    def go(d, env, again=False):
        os.makedirs(d, exist_ok=True)
        par = fl1.params(d, DO_TILE=str(c["tiled"]).upper(), TILE_SIZE="%d %d" % (30*c["tile"], 30*c["tile"]), ORIGIN_LON="%.6f" % (lon - 0.3), ORIGIN_LAT="%.6f" % (lat + 0.3),
                         OUTPUT_FORMAT=c["fmt"], NTHREAD=1)
        with open(par["FILE_QUEUE"], "w") as f:
            f.write(src + " QUEUED\n")
        F.write_prm(d + "/l2.prm", "LEVEL2", par)
        if c["again"] and c["tiled"]:
            F.run([exe, src, d + "/l2.prm"], cwd=d)
        x = F.run([exe, src, d + "/l2.prm"], cwd=d, env=dict(env, FAULT_DIR=d + "/l2"))
        return x.rc, x.tail()
    return "Level 2", go


def inflate(ctx, case):
    c = case["qai"]
    q = np.random.default_rng([c["seed"], 8]).integers(0, 32768, (c["ny"], c["nx"])).astype(np.int16)
    f = ctx.dir + "/20180605_LEVEL2_LND08_QAI.tif"
    F.write_raster(f, q[None], (1000.0, 10.0, 0.0, 5000.0, 0.0, -10.0), F.WKT, 1, "int16")

    def go(d, env):
        os.makedirs(d, exist_ok=True)
        x = F.run([ctx.exe("force-qai-inflate"), f, d], cwd=ctx.dir, env=env)
        return x.rc, x.tail()
    return "quality inflation", go


def images(d):
    """results, or what is wrong with them"""
    try:
        return hl.outputs(d)
    except RuntimeError as e:
        return str(e)


def run_case(case, ctx):
    out = Outcome()
    what, go = lower(ctx, case) if "l2" in case else inflate(ctx, case) if "qai" in case else higher(ctx, case)
    report = ctx.dir + "/report"
    env = dict(LD_PRELOAD=shim(ctx), FAULT_REPORT=report)

    def one(d, **kw):
        if os.path.exists(report):
            os.unlink(report)
        rc, tail = go(d, dict(env, FAULT_DIR=d, **kw))
        with open(report) as f:
            n, hit = map(int, f.read().split())
        return rc, tail, n, hit
    rc, tail, n, _ = one(ctx.dir + "/good", FAULT_AT="0")
    good = images(ctx.dir + "/good")
    if rc != 0 or isinstance(good, str):
        out.fail("run", "%s: undisturbed run: exit %s %s %s" % (what, rc, tail, good if isinstance(good, str) else ""))
        out.evals = 1
        return out
    if not good or n == 0:
        out.label("no results")
        return out
    for i, f in enumerate(case["faults"]):
        at = 1 + min(int(f["where"]*n), n - 1)
        d = "%s/f%d" % (ctx.dir, i)
        rc, tail, m, hit = one(d, FAULT_AT=str(at), FAULT_ERRNO=str(ERRNO[f["why"]]))
        got = images(d)
        w = "%s: file operation %d of %d and all later ones failed (%s)" % (what, at, n, f["why"])
        cmp = Outcome()
        if isinstance(got, str):
            cmp.fail("unreadable", "%s" % got)
        else:
            M.same_outputs(cmp, "x", good, got, "")
        out.evals += 1
        out.label("%s: %s, results %s" % ({"l": "Level 2", "q": "inflation"}.get(sorted(case)[1][0], "higher level"), "reported" if rc else "success", "differ" if cmp.fails else "complete"))
        if cmp.fails:
            out.nontrivial += 1
            if rc == 0:
                out.fail("silent", "%s: exit 0, but %s" % (w, cmp.fails[0]))
        if hit == 0 and rc != 0:
            out.fail("exit", "%s: nothing failed, exit %s %s" % (w, rc, tail))
        out.sample = dict(program=what, failing_operation="%d of %d" % (at, n), reason=f["why"], exit=rc, results="incomplete" if cmp.fails else "complete")
    return out
