"""The processing mask excludes exactly the masked pixels."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import hl
import modules as M
from harness import Outcome

ID = "C04"
RULE = ("a case is a generated scenario (one of nine higher-level modules) run without and with a generated processing mask (random, blocks, single pixels, empty, full, "
        "missing in some tiles) in the same block layout; one evaluation = one output value; distinct non-trivial = values outside the mask that are not nodata "
        "without mask, plus values inside the mask that are not nodata (per-pixel modules)")
TIERS = {"quick": dict(examples=1200, budget=27), "thorough": dict(examples=4000, budget=75)}
KINDS = ["TSA", "LEVEL3", "CSO", "TXT", "LSM", "ML", "LIB", "SMP", "UDF"]
PER_PIXEL = ("TSA", "LEVEL3", "CSO", "ML", "LIB", "UDF")


@st.composite
def strategy_(draw, tier):
    sc = draw(M.scenario(KINDS, sizes=(12, 8, 16)))
    sc["grid"]["tiles"] = sc["grid"]["tiles"][:2]
    g = sc["grid"]
    masks = [draw(st.sampled_from(["random", "block", "one", "stripe", "empty", "full", "missing"])) for _ in g["tiles"]]
    return dict(sc=sc, masks=masks, density=draw(st.sampled_from([0.5, 0.1, 0.9])), **draw(st.sampled_from([dict(cx=2, cy=2), dict(cx=1, cy=4), dict(cx=4, cy=1), dict(cx=1, cy=1), dict(cx=2, cy=1)])),
                stream=draw(st.booleans()), fmt=draw(st.sampled_from(["GTiff", "GTiff", "ENVI"])))


def strategy(tier):
    return strategy_(tier)


def make_mask(kind, ny, nx, density, rng):
    m = np.zeros((ny, nx), np.uint8)
    if kind == "random":
        m = (rng.random((ny, nx)) < density).astype(np.uint8)
    elif kind == "block":
        y, x = rng.integers(0, ny), rng.integers(0, nx)
        m[y:y + 1 + rng.integers(1, ny), x:x + 1 + rng.integers(1, nx)] = 1
    elif kind == "one":
        m[rng.integers(0, ny), rng.integers(0, nx)] = 1
    elif kind == "stripe":
        m[:, rng.integers(0, nx)] = 1
    elif kind == "full":
        m[:] = 1
    return m


def run_case(case, ctx):
    out = Outcome()
    sc = case["sc"]
    g = sc["grid"]
    kind, p = M.build(ctx, sc)
    cx, cy = g["nx"] // case["cx"], g["ny"] // case["cy"]
    if kind in ("TXT", "LSM"):
        p[kind + "_RADIUS"] = 10
        if kind == "TXT":
            p["TXT_ITERATION"] = 1
        cx, cy = max(cx, 4), max(cy, 4)
        if g["nx"] % cx or g["ny"] % cy:
            cx, cy = g["nx"], g["ny"]
    p.update(CHUNK_SIZE="%d %d" % (cx * 10, cy * 10), STREAMING="TRUE" if case["stream"] else "FALSE", OUTPUT_FORMAT=case["fmt"])
    mc = M.cube_of(ctx, g, "mask")
    masks = {}
    for i, (t, mk) in enumerate(zip(g["tiles"], case["masks"])):
        if mk == "missing":
            continue
        m = make_mask(mk, g["ny"], g["nx"], case["density"], np.random.default_rng([sc["seed"], 7, i]))
        masks["X%04d_Y%04d" % tuple(t)] = m
        mc.write(t[0], t[1], "m.tif", m[None], nodata=255, dtype="uint8")
    q = dict(p, DIR_HIGHER=ctx.dir + "/masked", DIR_MASK=ctx.dir + "/mask", BASE_MASK="m.tif")
    if kind == "SMP":
        M.smp_files(ctx, p, "a")
        M.smp_files(ctx, q, "b")
    for what, x in (("without mask", p), ("with mask", q)):
        r = M.run(ctx, kind, x)
        if r.rc != 0:
            out.fail("run", "%s %s: exit %s %s" % (kind, what, r.rc, r.tail()))
            out.evals = 1
            return out
    A, B = hl.outputs(p["DIR_HIGHER"]), hl.outputs(q["DIR_HIGHER"])
    out.label(kind)
    for mk in case["masks"]:
        out.label("mask " + mk)
    if kind == "SMP":
        cube = M.cube_of(ctx, g, "tmp")
        exp = []
        ra = M.smp_rows(p)[0]
        for r in ra:
            x, y = [float(v) for v in r[2].split()[:2]]
            fx, fy = (x - cube.origin[0]) / cube.tile[0], (cube.origin[1] - y) / cube.tile[1]
            m = masks.get("X%04d_Y%04d" % (int(np.floor(fx)), int(np.floor(fy))))
            if m is not None and m[int((fy - np.floor(fy)) * g["ny"]), int((fx - np.floor(fx)) * g["nx"])]:
                exp.append(r)
        got, n = M.smp_rows(q)
        if got != sorted(exp) or len(set(n)) > 1:
            out.fail("samples", "rows %s, expected %s" % (got[:4], sorted(exp)[:4]))
        out.evals = out.nontrivial = max(1, len(ra))
        return out
    for k in sorted(set(A) | set(B)):
        tile = k.split("/")[0]
        m = masks.get(tile)
        has = m is not None and m.any()
        # with kernels, the mask of the neighbour may trigger processing of the (then entirely nodata) block
        free = kind in ("TXT", "LSM") and m is not None and not has and k in A
        if (k in B) != (has and k in A) and not free:
            out.fail("files", "%s: %s is %s, mask %s" % (kind, k, "written" if k in B else "not written", "missing" if m is None else "%d pixels" % m.sum()))
            continue
        if k not in B:
            out.evals += 1
            continue
        a, b = A[k], B[k]
        if a.nb != b.nb or a.names != b.names:
            out.fail("bands", "%s %s: %d bands, expected %d" % (kind, k, b.nb, a.nb))
            continue
        off = np.broadcast_to(m[None] == 0, b.data.shape)
        nod = np.array([v if v is not None else np.nan for v in b.nodata])[:, None, None]
        bad = off & (b.data != nod)
        if bad.any():
            w = np.argwhere(bad)[0]
            out.fail("outside-" + kind, "%s %s: %d values outside the mask are not nodata, first at %s: %s" % (kind, k, bad.sum(), w.tolist(), b.data[tuple(w)]),
                     where=None)
        out.evals += int(off.sum())
        out.nontrivial += int((off & (a.data != nod)).sum())
        if kind in PER_PIXEL:
            out.evals += hl.compare(out, "inside-" + kind, np.where(off, 0, b.data), np.where(off, 0, a.data), what="%s %s inside the mask" % (kind, k))
            out.nontrivial += int((~off & (a.data != nod)).sum())
    out.evals = max(out.evals, 1)
    out.sample = dict(kind=kind, masks=case["masks"], files=sorted(B)[:4])
    shutil.rmtree(ctx.dir, ignore_errors=True)
    os.makedirs(ctx.dir, exist_ok=True)
    return out
