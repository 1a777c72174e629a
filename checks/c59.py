"""Allow-lists of generated areas of interest."""
import os
import re

import numpy as np
from hypothesis import strategies as st
from osgeo import ogr, osr

import fcube as F
from harness import Outcome

ID = "C59"
RULE = ("a case is a generated cube and an area of 1-4 pixel-aligned rectangles; one evaluation = one listed tile; distinct non-trivial = tiles the area covers partly")
TIERS = {"quick": dict(examples=600, budget=25), "thorough": dict(examples=3000, budget=70)}
ASSUMPTIONS = ["the area is drawn along the 10 m pixel edges of the cube, so that it is decided which tiles it touches"]


@st.composite
def strategy_(draw, tier):
    box = st.tuples(st.integers(-30, 30), st.integers(-30, 30), st.integers(1, 25), st.integers(1, 25)).map(list)
    return dict(nx=draw(st.integers(8, 20)), ny=draw(st.integers(8, 20)), boxes=[draw(box) for _ in range(draw(st.integers(1, 4)))], origin=draw(st.integers(0, 3)), shift=draw(st.sampled_from([0, 0, 1000, -300])),
                where=draw(st.sampled_from(["default", "absolute", "relative"])), name=draw(st.sampled_from(["aoi.gpkg", "a.shp", "my_area.gpkg"])), cwdcube=draw(st.booleans()), old=draw(st.integers(0, 3)))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    nx, ny = case["nx"], case["ny"]
    o = [(2456026.363042, 4574919.607965), (0.0, 0.0), (500000.5, 6000000.25), (-300.0, 900.0)][case["origin"]]
    cwd = ctx.dir + "/w"
    os.makedirs(cwd)
    c = F.Cube(cwd if case["cwdcube"] else ctx.dir + "/cube", (nx * 10.0, ny * 10.0), 10.0, o)
    f = ctx.dir + "/" + case["name"]
    ds = ogr.GetDriverByName("GPKG" if f.endswith("gpkg") else "ESRI Shapefile").CreateDataSource(f)
    ly = ds.CreateLayer(os.path.splitext(case["name"])[0], osr.SpatialReference(wkt=c.wkt), ogr.wkbPolygon)
    cover = {}
    for x, y, w, h in case["boxes"]:
        x += case["shift"] * (case["shift"] > 0) * nx // 2 + case["shift"] * (case["shift"] < 0) * nx // 10
        g = ogr.Geometry(ogr.wkbLinearRing)
        for px, py in ((x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)):
            g.AddPoint_2D(c.origin[0] + px * 10, c.origin[1] - py * 10)
        p = ogr.Geometry(ogr.wkbPolygon)
        p.AddGeometry(g)
        ft = ogr.Feature(ly.GetLayerDefn())
        ft.SetGeometry(p)
        ly.CreateFeature(ft)
        for ty in range(y // ny, (y + h - 1) // ny + 1):
            for tx in range(x // nx, (x + w - 1) // nx + 1):
                m = cover.setdefault((tx, ty), np.zeros((ny, nx), bool))
                m[max(0, y - ty * ny):y + h - ty * ny, max(0, x - tx * nx):x + w - tx * nx] = True
    ds = ly = None
    if len({t[0] for t in cover}) * 1000 > 20000 or max(t[0] for t in cover) - min(t[0] for t in cover) > 40:
        out.label("too wide")
        return out
    wh = case["where"]
    a = dict(default=cwd + "/allow-list.txt", absolute=ctx.dir + "/x/list", relative=ctx.dir + "/x/list.txt")[wh]
    os.makedirs(ctx.dir + "/x")
    arg = dict(default=[], absolute=["-a", a], relative=["-a", "../x/list.txt"])[wh]
    if case["old"] == 3:
        with open(a, "w") as fh:
            fh.write("2\nX0099_Y0099\nX-012_Y0001\n")
        out.label("existing list")
    before = sorted(os.path.join(d, n) for d, _, fs in os.walk(ctx.dir) for n in fs)
    r = F.run([ctx.exe("force-tile-extent")] + ([] if case["cwdcube"] else ["-d", c.path]) + arg + [f], cwd=cwd, timeout=120)
    if r.timeout:
        out.label("timeout")
        return out
    if r.rc != 0 or not os.path.exists(a):
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    lines = open(a).read().splitlines()
    want = sorted(F.tile_id(*t) for t in cover)
    if lines[0].strip() != str(len(want)) or sorted(lines[1:]) != want:
        out.fail("allow-list", "allow-list %s, expected %d tiles %s" % (lines, len(want), want))
    rng = {k: re.search(k + r"_TILE_RANGE = +(\S+) +(\S+)", r.out) for k in "XY"}
    for i, k in enumerate("XY"):
        exp = (min(t[i] for t in cover), max(t[i] for t in cover))
        got = tuple(int(v) for v in rng[k].groups()) if rng[k] else None
        if got != exp:
            out.fail("range", "%s tile range %s, expected %s: %s" % (k, got, exp, r.tail()))
    m = re.search(r"FILE_TILE = (.*)", r.out)
    if not m or os.path.realpath(m.group(1)) != os.path.realpath(a):
        out.fail("file", "suggested allow-list %s, expected %s" % (m and m.group(1), a))
    left = sorted(os.path.join(d, n) for d, _, fs in os.walk(ctx.dir) for n in fs if "/.parallel" not in d)
    if left != sorted(set(before + [a])):
        out.fail("left-over", "new files %s" % sorted(set(left) - set(before))[:4])
    out.evals = len(want)
    out.nontrivial = sum(not m.all() for m in cover.values())
    out.label(wh)
    out.sample = dict(tile=[nx, ny], boxes=case["boxes"], tiles=want[:5])
    return out
