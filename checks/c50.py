"""Quality inflation against a bit decoder."""
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
from harness import Outcome

ID = "C50"
RULE = ("a case is a generated quality image (QAI or INF product, 1-60 columns and rows, random 16-bit patterns); one evaluation = one decoded field of one pixel; "
        "distinct non-trivial = distinct bit patterns per image")
TIERS = {"quick": dict(examples=3000, budget=20), "thorough": dict(examples=9000, budget=60)}


@st.composite
def strategy_(draw, tier):
    return dict(nx=draw(st.integers(1, 60)), ny=draw(st.integers(1, 60)), seed=draw(st.integers(0, 2 ** 31)), product=draw(st.sampled_from(["QAI", "INF"])),
                mode=draw(st.sampled_from(["any", "sweep", "single", "valid", "negative"])), fmt=draw(st.sampled_from(["GTiff", "ENVI"])),
                name=draw(st.sampled_from(["20180605_LEVEL2_LND08_%s", "2015_HL_%s", "x_%s_y", "%s_%s"])), nb=draw(st.integers(1, 3)))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    rng = np.random.default_rng(case["seed"])
    ny, nx = case["ny"], case["nx"]
    m = case["mode"]
    if m == "any":
        q = rng.integers(0, 32768, (ny, nx))
    elif m == "sweep":
        q = (np.arange(nx * ny).reshape(ny, nx) + case["seed"]) % 32768
    elif m == "single":
        q = 1 << rng.integers(0, 15, (ny, nx))
    elif m == "negative":
        q = rng.integers(-32768, 32768, (ny, nx))
    else:
        q = np.where(rng.random((ny, nx)) < 0.3, 1, sum(rng.integers(0, 1 << w, (ny, nx)) << b for _, b, w in F.QAI_FIELDS[1:]))
    q = q.astype(np.int16)
    nb = case["nb"] if case["product"] == "INF" else 1
    a = np.stack([q] + [rng.integers(-9999, 9999, (ny, nx)).astype(np.int16) for _ in range(nb - 1)])
    gt = (1000.0 + 10 * (case["seed"] % 97), 10.0, 0.0, 5000.0, 0.0, -10.0)
    name = case["name"].replace("%s", "_" + case["product"] if case["name"].startswith("%") else case["product"], 1).replace("%s", "z")
    fname = ctx.dir + "/" + name + (".tif" if case["fmt"] == "GTiff" else ".dat")
    F.write_raster(fname, a, gt, F.WKT, 1, "int16", driver=case["fmt"])
    os.makedirs(ctx.dir + "/o")
    r = F.run([ctx.exe("force-qai-inflate"), fname, ctx.dir + "/o"], cwd=ctx.dir)
    out.evals = 1
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    want = name.replace("_" + case["product"], "_QIM")
    got = [f for f in sorted(os.listdir(ctx.dir + "/o")) if f.endswith((".tif", ".dat")) and not f.startswith("CITEME")]
    if [os.path.splitext(f)[0] for f in got] != [want]:
        out.fail("name", "%s gave %s, expected %s" % (name, got, want))
        return out
    g = F.Raster(ctx.dir + "/o/" + got[0])
    if (g.nx, g.ny, g.nb) != (nx, ny, 12):
        out.fail("size", "inflated image %sx%sx%s, expected %sx%sx12" % (g.nx, g.ny, g.nb, nx, ny))
        return out
    if not np.allclose(g.gt, gt, rtol=0, atol=1e-6):
        out.fail("georeference", "%s, expected %s" % (g.gt, gt))
    for i, (f, _, _) in enumerate(F.QAI_FIELDS):
        exp = F.qai_get(q, f)
        bad = np.argwhere(g.data[i].astype(int) != exp)
        if len(bad):
            y, x = bad[0]
            out.fail("field", "%s of pattern %d is %d, expected %d" % (f, q[y, x], g.data[i][y, x], exp[y, x]))
    out.evals = 12 * nx * ny
    out.nontrivial = len(np.unique(q))
    out.label(m)
    out.sample = dict(product=case["product"], size=[nx, ny], first=int(q[0, 0]), fields=[int(v) for v in g.data[:, 0, 0]])
    return out
