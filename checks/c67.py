"""Continental cubes: a scene is written to every cube it touches, in the published grid of that continent."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

import fcube as F
import fl1
from harness import Outcome

ID = "C67"
RULE = ("a case is a synthetic Landsat scene somewhere on the globe, written to a predefined continental grid, to one continent of it, and to a single cube with the published definition of the continent; "
        "one evaluation = one product pixel, tile or definition compared; distinct non-trivial = valid pixels and tiles of continental cubes")
TIERS = {"quick": dict(examples=1500, budget=35), "thorough": dict(examples=6000, budget=80)}
ASSUMPTIONS = ["whether a scene belongs to a continent is only judged inside one or two large land areas per continent, and for the equidistant grid by the tile dictionary that is written next to the tiles",
               "the origin of the single cube is given in degrees with 15 digits: up to 1 % of the pixels may come from the neighbouring input pixel"]
NAMES = ["africa", "antarctica", "asia", "europe", "n-america", "oceania", "s-america"]
SHORT = ["AF", "AN", "AS", "EU", "NA", "OC", "SA"]
#                centre of the projection, false origin, upper left corner of the grid
GRID = {"GLANCE7": ("Lambert_Azimuthal_Equal_Area", 150000, {
            "africa": (20, 5, 0, 0, -5312270, 3707205), "antarctica": (0, -90, 0, 0, -3662210, 5169375), "asia": (100, 45, 0, 0, -4805840, 5190735),
            "europe": (20, 55, 0, 0, -5505560, 3346245), "n-america": (-100, 50, 0, 0, -6961010, 4078425), "oceania": (135, -15, 0, 0, -7633670, 5076465),
            "s-america": (-60, -15, 0, 0, -6918770, 4899705)}),
        "EQUI7": ("Azimuthal_Equidistant", 100000, {
            "africa": (21.5, 8.5, 5621452.01998, 5990638.42298, 0, None), "antarctica": (0, -90, 3714266.97719, 3402016.50625, 0, None),
            "asia": (94, 47, 4340913.84808, 4812712.92347, 0, None), "europe": (24, 53, 5837287.81977, 2121415.69617, 0, None),
            "n-america": (-97.5, 52, 8264722.17686, 4867518.35323, 0, None), "oceania": (131.5, -19.5, 6988408.5356, 7654884.53733, 0, None),
            "s-america": (-60.5, -14, 7257179.23559, 5592024.44605, 0, None)})}
LAND = [("europe", 6, 34, 47, 54), ("africa", 0, 30, 9, 25), ("africa", 18, 30, -25, 5), ("asia", 72, 115, 46, 60), ("n-america", -115, -86, 36, 60),
        ("s-america", -64, -46, -25, -6), ("oceania", 120, 140, -30, -20), ("antarctica", 20, 120, -79, -74)]

# where continents meet
BORDER = [(-84, -76, 6, 11), (25, 48, 34, 44), (48, 68, 48, 72), (30, 40, 26, 34), (92, 110, -2, 12), (-172, -165, 60, 67)]


@st.composite
def strategy_(draw, tier):
    return dict(grid=draw(st.sampled_from(["GLANCE7", "EQUI7"])), area=draw(st.sampled_from([*range(len(LAND)+len(BORDER)), -1])), px=draw(st.integers(0, 1000)), py=draw(st.integers(0, 1000)),
                n=draw(st.integers(15, 60)), res=draw(st.sampled_from([250, 500, 1000, 2000])), out=draw(st.sampled_from([500, 1000, 250])), seed=draw(st.integers(0, 2**31)),
                sensor=draw(st.sampled_from([8, 5, 7])), resampling=draw(st.sampled_from(["NN", "NN", "BL", "CC"])), thread=draw(st.sampled_from([1, 2, 4])),
                other=draw(st.integers(0, 6)), corner=draw(st.sampled_from([False, True, True])))


def strategy(tier):
    return strategy_(tier)


def wkt(grid, cont):
    kind, _, t = GRID[grid]
    lon, lat, fe, fn = t[cont][:4]
    return ('PROJCS["%s",GEOGCS["GCS_WGS_1984",DATUM["D_WGS_1984",SPHEROID["WGS_1984",6378137.0,298.257223563]],PRIMEM["Greenwich",0.0],UNIT["degree",0.0174532925199433]],'
            'PROJECTION["%s"],PARAMETER["false_easting",%r],PARAMETER["false_northing",%r],PARAMETER["longitude_of_center",%r],PARAMETER["latitude_of_center",%r],UNIT["meter",1.0]]') % (
                cont, kind, float(fe), float(fn), float(lon), float(lat))


def tree(l2):
    """{continent: {(tx, ty): {product: path}}}, {continent: definition}"""
    cubes, defs = {}, {}
    for c in sorted(os.listdir(l2)):
        p = os.path.join(l2, c)
        if not os.path.isdir(p):
            continue
        cubes[c] = {}
        for (d, prod), f in fl1.products(p).items():
            m = re.match(r"X(-?\d+)_Y(-?\d+)$", d)
            cubes[c].setdefault((int(m.group(1)), int(m.group(2))), {})[prod] = f
        f = p + "/datacube-definition.prj"
        if os.path.exists(f):
            defs[c] = dict(l.split(" = ", 1) for l in open(f).read().splitlines() if " = " in l)
    return cubes, defs


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng([case["seed"], 67])
    grid = case["grid"]
    kind, size, table = GRID[grid]
    u, v = case["px"]/1000, case["py"]/1000
    inside = None
    if case["area"] >= 0:
        inside, a, b, c, d = LAND[case["area"]] if case["area"] < len(LAND) else (None, *BORDER[case["area"]-len(LAND)])
        lon, lat = a+u*(b-a), c+v*(d-c)
    else:
        lon, lat = -174+u*348, -70+v*144
    if case["corner"] and inside:
        # near the corner of four tiles
        w = wkt(grid, inside)
        x, y = F_(lon, lat, w)
        ox, oy = table[inside][4], table[inside][5] or 0
        x, y = ox+round((x-ox)/size)*size, oy+round((y-oy)/size)*size
        lo, la = fl1.lonlat(x+rng.uniform(-0.4, 0.4)*case["n"]*case["res"], y+rng.uniform(-0.4, 0.4)*case["n"]*case["res"], w)
        if any(k == inside and p <= lo <= q and r <= la <= s for k, p, q, r, s in LAND):
            lon, lat = lo, la
    zone = min(60, int((lon+180)//6)+1)*(1 if lat >= 0 else -1)
    s = fl1.utm_wkt(zone)
    x, y = F_(lon, lat, s)
    utc = (10.2-lon/15) % 24
    sc = fl1.Scene(case["sensor"], case["n"], case["n"], round(x/30)*30.0-case["n"]*case["res"]/2, round(y/30)*30.0+case["n"]*case["res"]/2, zone,
                   date=(2018, 6 if lat > 0 else 12, 10), time=(int(utc), int(utc % 1*60), 0))
    sc.res = float(case["res"])
    fl1.natural(sc, rng, [("soil", 3, 9), ("water", 1, 5)], noise=0.1)
    src = sc.write(ctx.dir)
    exe = ctx.exe("force-l2ps")

    def go(name, **kw):
        root = os.path.join(ctx.dir, name)
        os.makedirs(root)
        p = fl1.params(root, DO_REPROJ="TRUE", DO_TILE="TRUE", RESOLUTION_LANDSAT=case["out"], RESAMPLING=case["resampling"], NTHREAD=case["thread"],
                       OUTPUT_VZN="FALSE", OUTPUT_HOT="FALSE", OUTPUT_DST="FALSE", **kw)
        r = fl1.run(exe, root, src, p)
        if r.rc != 0:
            out.fail("exit", "%s: exit %s %s" % (name, r.rc, r.tail()))
            return None
        return root + "/l2"

    l2 = go("all", PROJECTION=grid)
    if l2 is None:
        return out
    cubes, defs = tree(l2)
    out.label(grid)
    out.label("continents: %d" % len(cubes))
    if inside:
        out.label(inside)
        if inside not in cubes or not cubes[inside]:
            out.fail("missing", "%s: nothing in %s for a scene at %.2f, %.2f (%s)" % (grid, inside, lon, lat, sorted(cubes)))
            return out
        if len(cubes) > 1:
            out.fail("foreign", "%s: scene at %.2f, %.2f in %s" % (grid, lon, lat, sorted(cubes)))
    read = {}

    def data(f):
        if f not in read:
            read[f] = F.Raster(f)
        return read[f]

    for c in cubes:
        if c not in NAMES:
            out.fail("name", "unknown continent %s" % c)
            return out
        if c not in defs:
            out.fail("definition", "%s without definition" % c)
            continue
        d = defs[c]
        cx, cy, fe, fn, ox, oy = table[c]
        dx, dy = float(d["ORIGIN_MAP_X"]), float(d["ORIGIN_MAP_Y"])
        w = wkt(grid, c)
        pr = [F_(a, b, d["PROJECTION"]) for a, b in ((cx, cy), (lon, lat))]
        ref = [F_(a, b, w) for a, b in ((cx, cy), (lon, lat))]
        out.evals += 4
        if np.abs(np.array(pr)-np.array(ref)).max() > 0.5:
            out.fail("projection", "%s %s: %s instead of %s" % (grid, c, pr, ref))
        if abs(dx-ox) > 0.01 or (oy is not None and abs(dy-oy) > 0.01) or dy % (size if oy is None else 1) > 0.01:
            out.fail("origin", "%s %s: origin %.2f %.2f" % (grid, c, dx, dy))
        if float(d["TILE_SIZE_X"]) != size or float(d["TILE_SIZE_Y"]) != size:
            out.fail("size", "%s %s: tiles of %s" % (grid, c, d["TILE_SIZE_X"]))
        lo, la = fl1.lonlat(dx, dy, w)
        if abs((float(d["ORIGIN_GEO_X"])-lo+180) % 360-180) > 1e-4 or abs(float(d["ORIGIN_GEO_Y"])-la) > 1e-4:
            out.fail("origin", "%s %s: geographic origin %s %s instead of %.6f %.6f" % (grid, c, d["ORIGIN_GEO_X"], d["ORIGIN_GEO_Y"], lo, la))
        allowed = None
        f = os.path.join(l2, c, "equi7-tile-dictionary.txt")
        if os.path.exists(f) != (grid == "EQUI7"):
            out.fail("dictionary", "%s %s: dictionary %s" % (grid, c, os.path.exists(f)))
        elif grid == "EQUI7":
            allowed = set()
            for l in open(f):
                m = re.match(r"X(\d{4})_Y(\d{4}) E7G_(\w\w)_(\d{3})_(\d{3})_T1$", l.strip())
                if not m:
                    out.fail("dictionary", "line %r" % l)
                    break
                tx, ty = int(m.group(1)), int(m.group(2))
                e = (SHORT[NAMES.index(c)], round(dx/size)+tx, round(dy/size)-ty-1)
                out.evals += 1
                if (m.group(3), int(m.group(4)), int(m.group(5))) != e or (tx, ty) in allowed or min(e[1:]) < 0:
                    out.fail("dictionary", "%r: expected %s" % (l, e))
                    break
                allowed.add((tx, ty))
            if len(allowed) < 1000:
                out.fail("dictionary", "%d tiles" % len(allowed))
        if out.fails:
            return out
        # a single cube with the same definition
        n2 = "single-" + c
        one = go(n2, PROJECTION=w, ORIGIN_LON="%.15g" % lo, ORIGIN_LAT="%.15g" % la, TILE_SIZE="%d %d" % (size, size))
        if one is None:
            return out
        single = {}
        for (dd, prod), f in fl1.products(one).items():
            m = re.match(r"X(-?\d+)_Y(-?\d+)$", dd)
            single.setdefault((int(m.group(1)), int(m.group(2))), {})[prod] = f
        big = {t for t, p in single.items() if ((F.Raster(p["QAI"]).data[0].astype(int) & 1) == 0).sum() > 3}
        got = set(cubes[c])
        out.evals += len(big | got); out.nontrivial += len(big & got)
        if got-set(single):
            out.fail("tiles", "%s %s: tiles %s that the scene does not touch (%s)" % (grid, c, sorted(got-set(single)), sorted(single)))
        if big-got:
            out.fail("tiles", "%s %s: tiles %s missing, scene at %.3f, %.3f" % (grid, c, sorted(big-got), lon, lat))
        # all tiles of a cube that has at least one land tile are written
        if allowed is not None and single:
            xs, ys = [t[0] for t in single], [t[1] for t in single]
            if not any((i, j) in allowed for i in range(min(xs)-1, max(xs)+2) for j in range(min(ys)-1, max(ys)+2)):
                out.fail("tiles", "%s %s: none of the tiles %s is in the dictionary" % (grid, c, sorted(single)))
            if got-allowed:
                out.label("tiles off the continent")
        bad = tot = 0
        for t in sorted(got & set(single)):
            if sorted(cubes[c][t]) != sorted(single[t]):
                out.fail("products", "%s: %s and %s" % (t, sorted(cubes[c][t]), sorted(single[t])))
                continue
            for prod, f in cubes[c][t].items():
                A, B = data(f), F.Raster(single[t][prod])
                e = (dx+t[0]*size, case["out"], 0, dy-t[1]*size, 0, -case["out"])
                if max(abs(p-q) for p, q in zip(A.gt, e)) > 0.01 or A.data.shape[1:] != (size//case["out"],)*2:
                    out.fail("place", "%s %s %s: %s %s instead of %s" % (grid, c, t, A.gt, A.data.shape, e))
                    continue
                if prod == "QAI":
                    df, val = ((A.data ^ B.data) & 1)[0] != 0, ((A.data & B.data) & 1)[0] == 0
                else:
                    val = (A.data != -9999).all(0) | (B.data != -9999).all(0)
                    df = (np.abs(A.data.astype(int)-B.data) > (0 if case["resampling"] == "NN" else 3)).any(0)
                bad += int(df.sum()); tot += int(val.sum())
        out.evals += tot; out.nontrivial += tot
        if bad > 3+0.01*tot:
            out.fail("values", "%s %s: %d of %d pixels differ from a single cube with the same definition" % (grid, c, bad, tot))
    if out.fails:
        return out
    # one continent only
    for c in dict.fromkeys([*cubes][:1] + [NAMES[case["other"]]]):
        nm = "%s-%s" % (grid, SHORT[NAMES.index(c)])
        l3 = go(nm, PROJECTION=nm)
        if l3 is None:
            return out
        sub, sdef = tree(l3)
        exp = {c: cubes[c]} if c in cubes else {}
        out.evals += 1
        if {k: sorted(v) for k, v in sub.items() if v} != {k: sorted(v) for k, v in exp.items() if v}:
            out.fail("continent", "%s: %s instead of %s" % (nm, {k: sorted(v) for k, v in sub.items()}, {k: sorted(v) for k, v in exp.items()}))
            continue
        for k in exp:
            if sdef.get(k) != defs[k]:
                out.fail("continent", "%s: definition %s" % (nm, sdef.get(k)))
            for t in exp[k]:
                for prod, f in exp[k][t].items():
                    if prod not in sub[k][t] or not np.array_equal(data(f).data, F.Raster(sub[k][t][prod]).data):
                        out.fail("continent", "%s: %s of tile %s" % (nm, prod, t))
                    out.evals += 1; out.nontrivial += 1
    out.sample = dict(grid=grid, lon=round(lon, 2), lat=round(lat, 2), cubes={c: len(t) for c, t in cubes.items()})
    return out


def F_(lon, lat, w):
    geo = fl1.osr.SpatialReference(); geo.ImportFromEPSG(4326)
    return tuple(fl1.transform([(lon, lat)], geo.ExportToWkt(), w)[0])
