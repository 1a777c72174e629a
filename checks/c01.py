"""One grid: every tool maps a location to the same tile and pixel."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st
from osgeo import ogr, osr

import fcube as F
import hl
import modules as M
from harness import Outcome

ID = "C01"
RULE = ("a case is a generated data cube (projected or geographic, origin, tile size, resolution) and either locations asked from the point locator, a bounding box "
        "tabulated as polygons, a cube definition created by the initialiser, or an analysis writing images; one evaluation = one located point / polygon / "
        "definition value / geotransform; distinct non-trivial = points on a tile or pixel border, in a negative tile or more than one tile away from the "
        "origin, polygons, and geotransforms of tiles other than the origin tile")
TIERS = {"quick": dict(examples=6000, budget=25), "thorough": dict(examples=20000, budget=70)}
osr.UseExceptions()
ogr.UseExceptions()
GEO = ('GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],'
       'UNIT["degree",0.0174532925199433]]')
PROJ = [
    # lambert azimuthal equal area Europe, UTM 33 N, UTM 21 S, sinusoidal-free Albers Africa
    ('laea', 'PROJCS["a",GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]],'
     'PROJECTION["Lambert_Azimuthal_Equal_Area"],PARAMETER["latitude_of_center",52],PARAMETER["longitude_of_center",10],PARAMETER["false_easting",4321000],'
     'PARAMETER["false_northing",3210000],UNIT["metre",1]]', (-15, 35, 36, 68)),
    ('utm33', 'PROJCS["b",GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]],'
     'PROJECTION["Transverse_Mercator"],PARAMETER["latitude_of_origin",0],PARAMETER["central_meridian",15],PARAMETER["scale_factor",0.9996],'
     'PARAMETER["false_easting",500000],PARAMETER["false_northing",0],UNIT["metre",1]]', (11, 19, -5, 70)),
    ('utm21s', 'PROJCS["c",GEOGCS["WGS 84",DATUM["WGS_1984",SPHEROID["WGS 84",6378137,298.257223563]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]],'
     'PROJECTION["Transverse_Mercator"],PARAMETER["latitude_of_origin",0],PARAMETER["central_meridian",-57],PARAMETER["scale_factor",0.9996],'
     'PARAMETER["false_easting",500000],PARAMETER["false_northing",10000000],UNIT["metre",1]]', (-61, -53, -50, 2)),
]
_ct = {}


def transform(wkt):
    if wkt not in _ct:
        a, b = osr.SpatialReference(), osr.SpatialReference()
        a.SetWellKnownGeogCS("WGS84")
        b.ImportFromWkt(wkt)
        for s in (a, b):
            s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        _ct[wkt] = osr.CoordinateTransformation(a, b)
    return _ct[wkt]


@st.composite
def cube_def(draw):
    if draw(st.booleans()):
        u = 2.0 ** -draw(st.integers(3, 6))          # exactly representable degrees
        nx, ny = draw(st.integers(1, 40)), draw(st.integers(1, 40))
        return dict(proj="geo", u=u, nx=nx, ny=ny, ox=draw(st.integers(-100, 100)) / 8.0, oy=draw(st.integers(-40, 40)) / 8.0)
    k = draw(st.integers(0, len(PROJ) - 1))
    res = draw(st.sampled_from([10, 30, 20, 60, 12.5]))
    nx, ny = draw(st.integers(4, 3000)), draw(st.integers(4, 3000))
    lo, hi, la, lb = PROJ[k][2]
    return dict(proj=k, u=res, nx=nx, ny=ny, ox=draw(st.floats(lo, hi)), oy=draw(st.floats(la, lb)))


@st.composite
def point(draw):
    return dict(t=[draw(st.integers(-12, 25)), draw(st.integers(-12, 25))], p=[draw(st.floats(0, 0.999999)), draw(st.floats(0, 0.999999))],
                f=[draw(st.sampled_from([0, 0.5, 0.25, 0.875])), draw(st.sampled_from([0, 0.5, 0.25, 0.875]))],
                edge=draw(st.sampled_from(["no", "x", "y", "xy"])))


@st.composite
def strategy_(draw, tier):
    mode = draw(st.sampled_from(["locate", "tabulate", "init", "write"]))
    if mode == "write":
        sc = draw(M.scenario(["TXT", "LIB", "ML", "UDF"], sizes=(6, 8, 12)))
        sc["ftr" if "ftr" in sc else "ard"]["drop"] = 0
        return dict(mode=mode, sc=sc, shift=[draw(st.integers(-40, 20)), draw(st.integers(-40, 20))])
    c = draw(cube_def())
    old = draw(st.booleans())
    if old:
        c["ny"] = c["nx"]
    if mode == "init":          # whole projection units only
        k = int(1 / c["u"]) if c["proj"] == "geo" else 2
        c["nx"], c["ny"] = [max(1, n // k) * k for n in (c["nx"], c["ny"])]
    return dict(mode=mode, cube=c, old=old, points=draw(st.lists(point(), min_size=2, max_size=4)))


def strategy(tier):
    return strategy_(tier)


def setup_cube(c):
    """-> wkt, origin (map), tile size, resolution"""
    if c["proj"] == "geo":
        return GEO, (c["ox"], c["oy"]), (c["nx"] * c["u"], c["ny"] * c["u"])
    wkt = PROJ[c["proj"]][1]
    x, y, _ = transform(wkt).TransformPoint(c["ox"], c["oy"])
    # the definition holds six decimals
    return wkt, (round(x, 3), round(y, 3)), (c["nx"] * c["u"], c["ny"] * c["u"])


def make_point(c, wkt, o, ts, pt):
    """-> lon, lat, map x, map y or None when outside the usable area"""
    px = [min(n - 1, int(p * n)) for p, n in zip(pt["p"], (c["nx"], c["ny"]))]
    if c["proj"] == "geo":
        fr = list(pt["f"])
        if "x" in pt["edge"]:
            px[0], fr[0] = 0, 0
        if "y" in pt["edge"]:
            px[1], fr[1] = 0, 0
        x = o[0] + pt["t"][0] * ts[0] + (px[0] + fr[0]) * c["u"]
        y = o[1] - pt["t"][1] * ts[1] - (px[1] + fr[1]) * c["u"]
        if not (-180 <= x <= 180 and -90 <= y <= 90):
            return None
        return x, y, x, y
    x = o[0] + pt["t"][0] * ts[0] + (px[0] + 0.1 + 0.8 * pt["f"][0]) * c["u"]
    y = o[1] - pt["t"][1] * ts[1] - (px[1] + 0.1 + 0.8 * pt["f"][1]) * c["u"]
    try:
        inv = transform(wkt).GetInverse()
        lon, lat, _ = inv.TransformPoint(x, y)
        lo, hi, la, lb = PROJ[c["proj"]][2]
        if not (lo - 5 < lon < hi + 5 and la - 5 < lat < lb + 5):
            return None
        lon, lat = float("%.9f" % lon), float("%.9f" % lat)
        x, y, _ = transform(wkt).TransformPoint(lon, lat)
    except RuntimeError:
        return None
    if not all(math.isfinite(v) for v in (x, y)):
        return None
    return lon, lat, x, y


def expect(o, ts, res, x, y):
    tx, ty = math.floor((x - o[0]) / ts[0]), math.floor((o[1] - y) / ts[1])
    return tx, ty, math.floor((x - (o[0] + tx * ts[0])) / res), math.floor((o[1] - ty * ts[1] - y) / res)


LOC = re.compile(r"is in tile (X-?\d+_Y-?\d+) at pixel J/I (-?\d+)/(-?\d+)")


def locate(out, ctx, d, c, wkt, o, ts, pts, what):
    for pt in pts:
        m = make_point(c, wkt, o, ts, pt)
        if m is None:
            out.label("outside")
            continue
        lon, lat, x, y = m
        tx, ty, j, i = expect(o, ts, c["u"], x, y)
        r = F.run([ctx.exe("force-tile-finder"), "-p%.10f,%.10f" % (lon, lat), "-r", repr(c["u"]), d], cwd=ctx.dir)
        g = LOC.search(r.out)
        out.evals += 1
        exp = ("X%04d_Y%04d" % (tx, ty), str(j), str(i))
        if r.rc != 0 or not g:
            out.fail("locate", "%s: point %.8f %.8f: exit %s %s" % (what, lon, lat, r.rc, r.tail(200)))
        elif g.groups() != exp:
            out.fail("locate", "%s: point %.8f %.8f (map %.6f %.6f; origin %s, tile size %s, resolution %s): tile and pixel %s, expected %s" %
                     (what, lon, lat, x, y, o, ts, c["u"], g.groups(), exp))
        if (c["proj"] == "geo" and (pt["edge"] != "no" or 0 in pt["f"])) or tx < 0 or ty < 0 or tx > 1 or ty > 1:
            out.nontrivial += 1
        out.label("point")
        out.sample = dict(cube=what, lonlat=[lon, lat], tile=exp[0], pixel=exp[1:])


def tabulate(out, ctx, d, c, wkt, o, ts, pts, what):
    ms = [m for m in (make_point(c, wkt, o, ts, p) for p in pts) if m]
    if len(ms) < 2:
        out.label("outside")
        return
    lon = sorted(m[0] for m in ms)
    lat = sorted(m[1] for m in ms)
    b, t, l, r_ = lat[0], lat[-1], lon[0], lon[-1]
    corners = [transform(wkt).TransformPoint(x, y)[:2] if c["proj"] != "geo" else (x, y) for x in (l, r_) for y in (b, t)]
    xs, ys = [p[0] for p in corners], [p[1] for p in corners]
    # outermost tiles; a border of the box on a tile border may or may not include the tile behind it
    lo = expect(o, ts, c["u"], min(xs), max(ys))[:2]
    hi = expect(o, ts, c["u"], max(xs), min(ys))[:2]
    hi2 = (hi[0] - 1 if (max(xs) - o[0]) / ts[0] == hi[0] else hi[0], hi[1] - 1 if (o[1] - min(ys)) / ts[1] == hi[1] else hi[1])
    if (hi[0] - lo[0] + 1) * (hi[1] - lo[1] + 1) > 1500:
        out.label("too many")
        return
    f = ctx.dir + "/grid.shp"
    r = F.run([ctx.exe("force-tabulate-grid"), "-b%.10f,%.10f,%.10f,%.10f" % (b, t, l, r_), "-o", f, "-f", "ESRI Shapefile", d], cwd=ctx.dir)
    if r.rc != 0 or not os.path.exists(f):
        out.fail("tabulate", "%s: exit %s %s" % (what, r.rc, r.tail(200)))
        out.evals += 1
        return
    ds = ogr.Open(f)
    got = {}
    for ft in ds.GetLayer(0):
        e = ft.GetGeometryRef().GetEnvelope()
        tx, ty = ft.GetField("Tile_X"), ft.GetField("Tile_Y")
        out.evals += 1
        out.nontrivial += 1
        w = "%s: box %.8f,%.8f,%.8f,%.8f: polygon %s" % (what, b, t, l, r_, ft.GetField("Tile_ID"))
        if ft.GetField("Tile_ID") != "X%04d_Y%04d" % (tx, ty) or (tx, ty) in got:
            out.fail("tabulate", "%s has numbers %s %s%s" % (w, tx, ty, " twice" if (tx, ty) in got else ""))
        got[(tx, ty)] = 1
        exp = (o[0] + tx * ts[0], o[0] + (tx + 1) * ts[0], o[1] - (ty + 1) * ts[1], o[1] - ty * ts[1])
        if not np.allclose(e, exp, rtol=0, atol=1e-6 * max(1, c["u"])):
            out.fail("tabulate", "%s covers %s, expected %s" % (w, e, exp))
        g = ft.GetGeometryRef()
        if abs(g.GetArea() - ts[0] * ts[1]) > 1e-6 * ts[0] * ts[1]:
            out.fail("tabulate", "%s is not a rectangle" % w)
    full = {(x, y) for x in range(lo[0], hi[0] + 1) for y in range(lo[1], hi[1] + 1)}
    core = {(x, y) for x in range(lo[0], hi2[0] + 1) for y in range(lo[1], hi2[1] + 1)}
    if not (core <= set(got) <= full):
        out.fail("tabulate", "%s: box %.8f,%.8f,%.8f,%.8f: missing tiles %s, unexpected %s" % (what, b, t, l, r_, sorted(core - set(got))[:5], sorted(set(got) - full)[:5]))
    out.label("tabulate")
    out.sample = dict(cube=what, box=[b, t, l, r_], polygons=len(got))


def run_case(case, ctx):
    out = Outcome()
    mode = case["mode"]
    if mode == "write":
        sc = case["sc"]
        g = sc["grid"]
        g["tiles"] = [[t[0] + case["shift"][0], t[1] + case["shift"][1]] for t in g["tiles"]]
        kind, p = M.build(ctx, sc)
        if kind == "TXT":       # kernels must fit into a tile
            p["TXT_RADIUS"], p["TXT_ITERATION"] = 10, 1
        r = M.run(ctx, kind, p)
        if r.rc != 0:
            out.fail("write", "%s: exit %s %s" % (kind, r.rc, r.tail()))
            out.evals = 1
            return out
        cube = M.cube_of(ctx, g)
        outs = hl.outputs(p["DIR_HIGHER"])
        seen = {k.split("/")[0] for k in outs}
        if seen != {F.tile_id(*t) for t in g["tiles"]}:
            out.fail("write", "%s: written tiles %s, expected %s" % (kind, sorted(seen), g["tiles"]))
        for k, a in outs.items():
            mm = re.match(r"X(-?\d+)_Y(-?\d+)/", k)
            exp = cube.geotransform(int(mm.group(1)), int(mm.group(2)))
            out.evals += 1
            out.nontrivial += 1
            if not np.allclose(a.gt, exp, rtol=0, atol=1e-3) or (a.nx, a.ny) != (g["nx"], g["ny"]):
                out.fail("write", "%s: %s has geotransform %s and size %dx%d, expected %s" % (kind, k, a.gt, a.nx, a.ny, exp))
        out.label("write")
        out.evals = max(out.evals, 1)
        g["tiles"] = [[t[0] - case["shift"][0], t[1] - case["shift"][1]] for t in g["tiles"]]
        return out
    c = case["cube"]
    wkt, o, ts = setup_cube(c)
    what = "%s cube" % (c["proj"] if c["proj"] == "geo" else PROJ[c["proj"]][0])
    d = ctx.dir + "/cube"
    if mode == "init":
        os.makedirs(d)
        lon, lat = (o if c["proj"] == "geo" else (round(c["ox"], 6), round(c["oy"], 6)))
        r = F.run([ctx.exe("force-cube-init"), "-d", d, "-o%.8f,%.8f" % (lon, lat), "-t%.6f,%.6f" % ts, wkt], cwd=ctx.dir)
        f = d + "/datacube-definition.prj"
        out.evals += 1
        if r.rc != 0 or not os.path.exists(f):
            out.fail("init", "%s: exit %s %s" % (what, r.rc, r.tail(300)))
            return out
        tv = dict(re.split(r"\s*=\s*", ln.strip(), maxsplit=1) for ln in open(f) if "=" in ln)
        x, y = (lon, lat) if c["proj"] == "geo" else transform(wkt).TransformPoint(lon, lat)[:2]
        for k, v, tol in (("ORIGIN_GEO_X", lon, 1e-6), ("ORIGIN_GEO_Y", lat, 1e-6), ("ORIGIN_MAP_X", x, 2e-6), ("ORIGIN_MAP_Y", y, 2e-6),
                          ("TILE_SIZE_X", ts[0], 1e-6), ("TILE_SIZE_Y", ts[1], 1e-6)):
            out.evals += 1
            out.nontrivial += 1
            if k not in tv or abs(float(tv[k]) - v) > tol:
                out.fail("init", "%s: %s is %s, expected %s" % (what, k, tv.get(k), v))
        if out.fails:
            return out
        a, b = osr.SpatialReference(), osr.SpatialReference()
        a.ImportFromWkt(wkt)
        b.ImportFromWkt(tv["PROJECTION"])
        if not a.IsSame(b, ["IGNORE_DATA_AXIS_TO_SRS_AXIS_MAPPING=YES"]):
            out.fail("init", "%s: projection changed to %s" % (what, tv["PROJECTION"][:200]))
        o = (float(tv["ORIGIN_MAP_X"]), float(tv["ORIGIN_MAP_Y"]))
        wkt = tv["PROJECTION"]
        out.label("init")
        locate(out, ctx, d, c, wkt, o, ts, case["points"][:2], what + " made by the initialiser")
        return out
    F.Cube(d, tile=ts, res=c["u"], origin=o, origin_geo=(c["ox"], c["oy"]), wkt=wkt)
    if case["old"]:
        # definition as written by older versions (square tiles, by line)
        with open(d + "/datacube-definition.prj", "w") as f:
            f.write("%s\n%f\n%f\n%f\n%f\n%f\n%f\n" % (wkt, c["ox"], c["oy"], o[0], o[1], ts[0], c["u"]))
        out.label("old definition")
    if mode == "locate":
        locate(out, ctx, d, c, wkt, o, ts, case["points"], what)
    else:
        tabulate(out, ctx, d, c, wkt, o, ts, case["points"], what)
    out.evals = max(out.evals, 1)
    return out
