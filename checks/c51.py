"""Stacks of generated images against the documented band order."""
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
from harness import Outcome

ID = "C51"
RULE = ("a case stacks 2-6 generated images (1-5 bands, own nodata values, names, metadata), some with a size that differs; one evaluation = one stacked band (or one refusal); "
        "distinct non-trivial = bands that contain data and nodata pixels, and refusals")
TIERS = {"quick": dict(examples=3000, budget=20), "thorough": dict(examples=9000, budget=60)}
TEXT = st.text("abcXYZ 019-_.", min_size=1, max_size=12).map(lambda s: "n" + s.strip())


@st.composite
def strategy_(draw, tier):
    nf = draw(st.integers(2, 6))
    same = draw(st.booleans())
    nb = draw(st.integers(1, 5))
    f = []
    for i in range(nf):
        f.append(dict(nb=nb if same else draw(st.integers(1, 5)), nodata=draw(st.sampled_from([-9999, -9999, 255, 0, -32768, None])), names=draw(st.booleans()), meta=draw(st.booleans()),
                      dtype=draw(st.sampled_from(["int16", "int16", "uint8"]))))
    return dict(files=f, nx=draw(st.integers(1, 9)), ny=draw(st.integers(1, 9)), seed=draw(st.integers(0, 2 ** 31)), word=draw(TEXT),
                fault=draw(st.sampled_from([None, None, None, "nx", "ny", "exists", "dir", "ext", "single"])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng(case["seed"])
    ny, nx = case["ny"], case["nx"]
    gt = (2000.0 + case["seed"] % 1000, 20.0, 0.0, 9000.0, 0.0, -20.0)
    imgs, names = [], []
    fault = case["fault"]
    wrong = int(rng.integers(1, len(case["files"])))
    for i, f in enumerate(case["files"]):
        sx, sy = nx + (fault == "nx" and i == wrong), ny + (fault == "ny" and i == wrong)
        lo, hi = (0, 256) if f["dtype"] == "uint8" else (-32768, 32768)
        a = rng.integers(lo, hi, (f["nb"], sy, sx))
        nd = f["nodata"] if f["nodata"] is None or lo <= f["nodata"] < hi else 255
        if nd is not None:
            a[rng.random(a.shape) < 0.3] = nd
        a = a.astype(f["dtype"])
        bn = ["%s-%d-%d" % (case["word"], i, b) for b in range(f["nb"])] if f["names"] else None
        bm = [{"Domain": "D%d.%d" % (i, b), "Word": case["word"]} for b in range(f["nb"])] if f["meta"] else None
        d = ctx.dir + ("/sub" if fault == "dir" and i == wrong else "")
        os.makedirs(d, exist_ok=True)
        n = d + "/img_%02d.tif" % ((i * 7) % 23)
        F.write_raster(n, a, gt, F.WKT, nd, f["dtype"], bn or [""] * f["nb"], {"File": str(i)} if f["meta"] else None, bm)
        imgs.append((a, nd, bn, bm))
        names.append(n)
    o = ctx.dir + ("/stack.tif" if fault == "ext" else "/stack.vrt")
    if fault == "exists":
        with open(o, "w") as f:
            f.write("something")
    args = names[:1] if fault == "single" else names
    before = {n: open(n, "rb").read() for n in names}
    r = F.run([ctx.exe("force-stack"), "-o", o] + args, cwd=ctx.dir)
    if fault:
        out.label("refused " + fault)
        out.nontrivial = 1
        if r.rc == 0:
            out.fail("refuse", "stack with fault %s was accepted" % fault)
        elif fault == "exists" and open(o).read() != "something":
            out.fail("overwrite", "the existing file was changed")
        elif fault != "exists" and os.path.exists(o):
            out.fail("left-over", "refused stack (%s) left an output file" % fault)
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    if any(open(n, "rb").read() != before[n] for n in names):
        out.fail("inputs", "an input image was changed")
    counts = [len(im[0]) for im in imgs]
    if len(set(counts)) == 1:
        order = [(i, b) for b in range(counts[0]) for i in range(len(imgs))]
        out.label("by band")
    else:
        order = [(i, b) for i in range(len(imgs)) for b in range(counts[i])]
        out.label("by file")
    g = F.Raster(o)
    if (g.nb, g.nx, g.ny) != (len(order), nx, ny):
        out.fail("size", "stack has %d bands %dx%d, expected %d bands %dx%d" % (g.nb, g.nx, g.ny, len(order), nx, ny))
        return out
    if not np.allclose(g.gt, gt, rtol=0, atol=1e-6):
        out.fail("georeference", "%s, expected %s" % (g.gt, gt))
    if imgs[0][3] and g.meta.get("File") != "0":
        out.fail("metadata", "file metadata is %s" % g.meta)
    for k, (i, b) in enumerate(order):
        a, nd, bn, bm = imgs[i]
        if not np.array_equal(g.data[k].astype(int), a[b].astype(int)):
            y, x = np.argwhere(g.data[k].astype(int) != a[b].astype(int))[0]
            out.fail("values", "stack band %d at (%d,%d) is %d, band %d of image %d has %d" % (k + 1, y, x, g.data[k][y, x], b + 1, i + 1, a[b][y, x]))
        if g.nodata[k] != nd:
            out.fail("nodata", "stack band %d has nodata %s, image %d has %s" % (k + 1, g.nodata[k], i + 1, nd))
        if bn and g.names[k] != bn[b]:
            out.fail("names", "stack band %d is named %r, expected %r" % (k + 1, g.names[k], bn[b]))
        if bm and g.bandmeta[k] != bm[b]:
            out.fail("band-metadata", "stack band %d has %s, expected %s" % (k + 1, g.bandmeta[k], bm[b]))
        out.nontrivial += int(nd is not None and 0 < (a[b] == nd).sum() < a[b].size)
    out.evals = len(order)
    out.sample = dict(bands=counts, order=order[:6])
    return out
