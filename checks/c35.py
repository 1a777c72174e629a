"""Point sampling against a reference look-up of the pixel containing each point."""
import os

import numpy as np
from hypothesis import strategies as st
from osgeo import osr

import fcube as F
import feat
import modules as M
from harness import Outcome

ID = "C35"
RULE = ("a case is a cube of 1-4 tiles with generated features and a table of points (inside pixels, exactly on pixel, block and tile borders, outside, repeated; projected "
        "or geographic; one or more response columns; several separators); one evaluation = one point; distinct non-trivial = points that fall into a processed tile")
TIERS = {"quick": dict(examples=1300, budget=25), "thorough": dict(examples=4000, budget=70)}
ASSUMPTIONS = ["the order of the rows over blocks is not judged, the alignment of the three tables is",
               "geographic points keep a distance of 2 % of a pixel from pixel borders"]
osr.UseExceptions()
_ct = {}


def to_geo():
    if "c" not in _ct:
        a, b = osr.SpatialReference(), osr.SpatialReference()
        a.ImportFromWkt(F.WKT)
        b.ImportFromEPSG(4326)
        for s in (a, b):
            s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        _ct["c"] = osr.CoordinateTransformation(a, b)
    return _ct["c"]


@st.composite
def strategy_(draw, tier):
    sc = draw(feat.scene(values=("any", "smooth", "few")))
    sc["blk"] = draw(st.sampled_from([[1, 1], [2, 2], [1, 2], [2, 1]]))
    sc["origin"] = draw(st.sampled_from([[4016026.0, 3074919.0], [4016026.25, 3074919.75], list(F.ORIGIN)]))
    sc["projected"] = draw(st.sampled_from([True, True, True, True, False]))
    sc["n"] = draw(st.sampled_from([40, 8, 120, 1])) if sc["projected"] else draw(st.sampled_from([4, 8, 2]))
    if not sc["projected"] and draw(st.booleans()):      # large tiles: their borders are curved in geographic coordinates
        sc["res"] = draw(st.sampled_from([10000, 5000, 8000]))
        sc["grid"] = dict(nx=draw(st.sampled_from([64, 48, 80])), ny=draw(st.sampled_from([64, 48, 80])), tiles=draw(st.sampled_from([[[0, 0]], [[0, 0], [1, 0]], [[0, 0], [0, 1]]])))
        sc["masks"], sc["drop"], sc["n"] = None, [], 30
    sc["nr"] = draw(st.sampled_from([1, 2, 3]))
    sc["sep"] = draw(st.sampled_from([" ", ",", "\t", "  "]))
    return sc


def strategy(tier):
    return strategy_(tier)


def points(case):
    """(pixel column, fraction, pixel row, fraction) relative to the upper left corner of the tile bounds"""
    g = case["grid"]
    rng = np.random.default_rng([case["seed"], 6])
    x0, x1, y0, y1 = M.grid_bounds(g)
    border = case["projected"] and case["origin"][0] != F.ORIGIN[0]
    pts = []

    def axis(n, size):
        k = rng.integers(0, 10)
        p = int(rng.integers(0, n)) if k < 7 else int(rng.integers(-3, n + 3)) if k < 9 else int(rng.choice([0, size, size // 2, n]))
        if "res" in case and rng.random() < 0.4:
            p = int(rng.choice([0, size - 1, size // 2, n - 1, size // 2 - 1]))
        f = 0.0 if border and rng.random() < 0.3 else float(np.round(rng.uniform(0.02, 0.98), 3))
        return p, f

    while len(pts) < case["n"]:
        if pts and rng.random() < 0.05:
            pts.append(pts[int(rng.integers(len(pts)))])
        else:
            pts.append(axis((x1 - x0 + 1) * g["nx"], g["nx"]) + axis((y1 - y0 + 1) * g["ny"], g["ny"]))
    keep = case.get("keep")
    return [p for i, p in enumerate(pts) if keep is None or i in keep]


def minimise(case, where):
    keep = case.get("keep") or list(range(case["n"]))
    k = len(keep)
    while k > 1:
        k = (k + 1) // 2
        for i in range(0, len(keep), k):
            if len(keep[i:i + k]) < len(keep):
                yield dict(case, keep=keep[i:i + k])
        if k == 1:
            break


def run_case(case, ctx):
    out = Outcome()
    g = case["grid"]
    rng = np.random.default_rng([case["seed"], 5])
    x0, x1, y0, y1 = M.grid_bounds(g)
    files = {k: ctx.dir + "/" + n for k, n in (("FILE_SAMPLE", "s.txt"), ("FILE_RESPONSE", "r.txt"), ("FILE_COORDINATES", "c.txt"))}
    b = feat.build(ctx, case, "SMP", PROJECTED="TRUE" if case["projected"] else "FALSE", FILE_POINTS=ctx.dir + "/points.txt", **files)
    ox, oy = b.cube.origin
    res = case.get("res", 10)
    lines, exp = [], []
    inside = 0
    for px, fx, py, fy in points(case):
        ax, ay = x0 * g["nx"] + px, y0 * g["ny"] + py
        mx, my = ox + (ax + fx) * res, oy - (ay + fy) * res
        resp = np.round(rng.uniform(-100, 5000, case["nr"]), 3).tolist()
        if case["projected"]:
            c = ("%.6f" % mx, "%.6f" % my)
        else:
            lon, lat, _ = to_geo().TransformPoint(mx, my)
            c = ("%.10f" % lon, "%.10f" % lat)
        lines.append(case["sep"].join(list(c) + ["%.3f" % v for v in resp]))
        tx, ty = ax // g["nx"], ay // g["ny"]
        t = (tx, ty)
        if t not in b.feat:
            continue
        inside += 1
        i, j = ay - ty * g["ny"], ax - tx * g["nx"]
        if not b.complete[t] or b.mask[t] is None or b.mask[t][i, j] != 1:
            continue
        v = [int(f[i, j]) for f in b.feat[t]]
        if case["exclude"] and any(x == b.nd for x in v):
            continue
        exp.append((" ".join("%d" % x for x in v), " ".join("%.6f" % x for x in resp), " ".join("%.6f" % float(x) for x in c)))
    with open(ctx.dir + "/points.txt", "w") as f:
        f.write("\n".join(lines) + "\n")
    r = M.run(ctx, "SMP", b.p)
    out.evals = len(lines)
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    cols = [open(files[k]).read().splitlines() if os.path.exists(files[k]) else [] for k in ("FILE_SAMPLE", "FILE_RESPONSE", "FILE_COORDINATES")]
    if len({len(c) for c in cols}) != 1:
        out.fail("aligned", "tables have %s rows" % [len(c) for c in cols])
        return out
    got = sorted(zip(*cols))
    exp = sorted(exp)
    if got != exp:
        extra, miss = list(got), []
        for e in exp:
            if e in extra:
                extra.remove(e)
            else:
                miss.append(e)
        out.fail("rows", "%d rows, expected %d; unexpected %s; missing %s" % (len(got), len(exp), extra[:3], miss[:3]))
    out.nontrivial = inside
    out.label("projected" if case["projected"] else "geographic, large tiles" if "res" in case else "geographic")
    out.label("rows %s" % ("0" if not exp else "1-5" if len(exp) < 6 else ">5"))
    out.sample = dict(points=len(lines), rows=len(exp), first=got[:1])
    return out
