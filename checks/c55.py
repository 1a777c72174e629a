"""Mosaics of generated cubes against an assembled array."""
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
from harness import Outcome

ID = "C55"
RULE = ("a case is a generated cube (1-6 tiles, 1-5 products with related names, each in a random subset of the tiles) that is mosaicked; one evaluation = one mosaic; "
        "distinct non-trivial = mosaics of at least two tiles")
TIERS = {"quick": dict(examples=600, budget=25), "thorough": dict(examples=3000, budget=70)}
NAMES = ["A", "BA", "A_B", "AB", "2018.A", "2018_A", "2018-A", "A.1", "A+1", "20180605_LEVEL2_SEN2A_BOA", "20180605_LEVEL2_SEN2A_QAI", "LEVEL2_SEN2A_BOA", "2018-2018_001-365_HL_TSA_LNDLG_NDV_TSS", "a", "x_A",
         "A.tif.x".replace(".tif", "t")]


@st.composite
def strategy_(draw, tier):
    tiles = draw(st.lists(st.tuples(st.integers(-2, 3), st.integers(-2, 3)), min_size=1, max_size=6, unique=True))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    prods = [dict(name=n, nb=draw(st.integers(1, 3)), nodata=draw(st.sampled_from([-9999, 255, 0, 1])), dtype=draw(st.sampled_from(["int16", "uint8"])),
                  tiles=draw(st.lists(st.integers(0, len(tiles) - 1), min_size=1, max_size=len(tiles), unique=True)), meta=draw(st.booleans())) for n in names]
    return dict(tiles=[list(t) for t in tiles], prods=prods, nx=draw(st.integers(1, 6)), ny=draw(st.integers(1, 6)), seed=draw(st.integers(0, 2 ** 31)),
                where=draw(st.sampled_from(["default", "relative", "absolute", "nested"])), ext=draw(st.sampled_from(["tif", "tif", "dat"])), jobs=draw(st.sampled_from([None, 1, 3])), other=draw(st.booleans()))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    nx, ny = case["nx"], case["ny"]
    c = F.Cube(ctx.dir + "/cube", (nx * 10.0, ny * 10.0), 10.0)
    drv = "ENVI" if case["ext"] == "dat" else "GTiff"
    data = []
    for i, p in enumerate(case["prods"]):
        rng = np.random.default_rng([case["seed"], i])
        nd = p["nodata"] if p["dtype"] == "int16" or p["nodata"] >= 0 else 255
        d = {}
        for k in p["tiles"]:
            a = rng.integers(0, 250, (p["nb"], ny, nx)) if p["dtype"] == "uint8" else rng.integers(-30000, 30000, (p["nb"], ny, nx))
            a[rng.random(a.shape) < 0.2] = nd
            t = tuple(case["tiles"][k])
            c.write(*t, p["name"] + "." + case["ext"], a, nd, p["dtype"], driver=drv, bandnames=["%s %d" % (p["name"], b) for b in range(p["nb"])] if p["meta"] else [""] * p["nb"],
                    meta={"Product": p["name"]} if p["meta"] else None)
            d[t] = a
        data.append((p, nd, d))
    if case["other"]:  # files that are no chips
        t = tuple(case["tiles"][0])
        c.tile_dir(*t)
        with open(c.tile_dir(*t) + "/notes.txt", "w") as f:
            f.write("x")
        os.makedirs(ctx.dir + "/cube/other")
    w = case["where"]
    cwd = ctx.dir + "/work"
    os.makedirs(cwd)
    mdir = dict(default=ctx.dir + "/cube/mosaic", relative=cwd + "/m", absolute=ctx.dir + "/abs/m", nested=ctx.dir + "/cube/x/y")[w]
    arg = dict(default=[], relative=["-m", "m"], absolute=["-m", mdir], nested=["-m", "../cube/x/y"])[w]
    cmd = [ctx.exe("force-mosaic")] + arg + (["-e", case["ext"]] if case["ext"] != "tif" else []) + (["-j", str(case["jobs"])] if case["jobs"] else []) + [ctx.dir + "/cube"]
    r = F.run(cmd, cwd=cwd, timeout=90)
    if r.timeout:
        out.label("timeout")
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    want = sorted(p["name"] + ".vrt" for p in case["prods"])
    have = sorted(f for f in os.listdir(mdir) if not f.startswith(".")) if os.path.isdir(mdir) else None
    if have != want:
        out.fail("files", "mosaic directory holds %s, expected %s: %s" % (have, want, r.tail()))
        return out
    for p, nd, d in data:
        g = F.Raster(mdir + "/" + p["name"] + ".vrt")
        x0, y0 = min(t[0] for t in d), min(t[1] for t in d)
        x1, y1 = max(t[0] for t in d), max(t[1] for t in d)
        exp = np.full((p["nb"], (y1 - y0 + 1) * ny, (x1 - x0 + 1) * nx), nd, np.int64)
        for (tx, ty), a in d.items():
            exp[:, (ty - y0) * ny:(ty - y0 + 1) * ny, (tx - x0) * nx:(tx - x0 + 1) * nx] = a
        if g.data.shape != exp.shape:
            out.fail("size", "mosaic of %s is %s, expected %s" % (p["name"], g.data.shape, exp.shape))
            continue
        if not np.allclose(g.gt, c.geotransform(x0, y0), rtol=0, atol=1e-3):
            out.fail("georeference", "mosaic of %s at %s, expected %s" % (p["name"], g.gt, c.geotransform(x0, y0)))
        bad = np.argwhere(g.data.astype(np.int64) != exp)
        if len(bad):
            b, y, x = bad[0]
            out.fail("values", "mosaic of %s (products %s) is %d at band %d row %d column %d, expected %d" % (p["name"], [q["name"] for q in case["prods"]], g.data[b, y, x], b + 1, y, x, exp[b, y, x]))
        if any(n != nd for n in g.nodata):
            out.fail("nodata", "mosaic of %s has nodata %s, expected %s" % (p["name"], g.nodata, nd))
        if p["meta"] and (g.names != ["%s %d" % (p["name"], b) for b in range(p["nb"])] or g.meta.get("Product") != p["name"]):
            out.fail("metadata", "mosaic of %s carries %s %s" % (p["name"], g.names, g.meta))
        out.nontrivial += len(d) > 1
    out.evals = len(data)
    out.label(w)
    out.sample = dict(tiles=case["tiles"], products={p["name"]: len(d) for p, _, d in data})
    return out
