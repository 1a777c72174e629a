"""Level 2 products are the same however the scene is cut and however many threads work on it."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

import fcube as F
import fl1
from harness import Outcome

ID = "C61"
RULE = ("a case is a synthetic Landsat scene (surfaces, clouds, snow, voids), with or without radiometric correction (terrain, adjacency, directional effects), processed twice: uncut with one thread, and cut into tiles of drawn size and origin with 1-8 threads - or, "
        "reprojected, cut in two ways; one evaluation = one product pixel; distinct non-trivial = valid pixels of tiles other than the first, and tiles that must not be written")
TIERS = {"quick": dict(examples=1500, budget=30), "thorough": dict(examples=6000, budget=85)}
ASSUMPTIONS = ["without reprojection the grid of the tiles may lie anywhere relative to the pixels of the scene: a shift of less than one pixel, the same for all tiles and products, is accepted",
               "the view zenith is interpolated from a coarse grid that starts at a tile corner: after reprojection it is not compared between tile sizes"]
PRODUCTS = ["TOA", "QAI", "DST", "HOT", "VZN"]


@st.composite
def strategy_(draw, tier):
    mode = draw(st.sampled_from(["tile", "tile", "aligned", "reproject", "reproject"]))
    return dict(mode=mode, sensor=draw(st.sampled_from([8, 5, 7, 9, 4])), nx=draw(st.integers(20, 130)), ny=draw(st.integers(20, 130)), seed=draw(st.integers(0, 2**31)),
                x=draw(st.sampled_from(["binade", "binade", "any"])), dx=draw(st.integers(-1500, 1500)), y=draw(st.integers(2400, 3600)), half=draw(st.booleans()),
                sx=draw(st.integers(3, 150)), sy=draw(st.integers(3, 150)), bx=draw(st.integers(20, 400)), by=draw(st.integers(20, 400)),
                olon=draw(st.integers(-300, 100)), olat=draw(st.integers(-300, 300)), far=draw(st.sampled_from([False, False, False, True])),
                resolution=draw(st.sampled_from([30, 30, 30, 60, 20])), resampling=draw(st.sampled_from(["NN", "NN", "BL", "CC"])),
                thread=draw(st.sampled_from([1, 2, 4, 8])), cover=draw(st.integers(0, 5)), void=draw(st.booleans()), tiles=draw(st.sampled_from([False, False, True])),
                fmt=draw(st.sampled_from(["GTiff", "GTiff", "ENVI"])), atmo=draw(st.sampled_from(["no", "no", "plain", "full", "full"])))


def strategy(tier):
    return strategy_(tier)


COVER = [[], [("cloud", 3, 8)], [("water", 2, 12), ("cloud", 3, 6)], [("snow", 3, 10), ("cloud", 2, 7), ("cirrus", 2, 8)], [("soil", 4, 15), ("cloud", 6, 3)], [("cloud", 1, 20), ("water", 3, 9)]]


def read_tiles(l2, product, nodata):
    """{(tx, ty): raster} of one product"""
    out = {}
    for (d, p), f in fl1.products(l2).items():
        if p == product or (p == "BOA" and product == "TOA"):
            m = re.match(r"X(-?\d+)_Y(-?\d+)$", d)
            out[int(m.group(1)), int(m.group(2))] = F.Raster(f)
    return out


def mosaic(tiles, nx, ny, nodata):
    """array and index of its first pixel relative to the grid origin"""
    x0 = min(t[0] for t in tiles); x1 = max(t[0] for t in tiles)
    y0 = min(t[1] for t in tiles); y1 = max(t[1] for t in tiles)
    nb = next(iter(tiles.values())).data.shape[0]
    a = np.full((nb, (y1-y0+1)*ny, (x1-x0+1)*nx), nodata, np.int32)
    for (tx, ty), r in tiles.items():
        a[:, (ty-y0)*ny:(ty-y0+1)*ny, (tx-x0)*nx:(tx-x0+1)*nx] = r.data
    return a, x0*nx, y0*ny


def window(a, gx, gy, x0, y0, nx, ny, nodata):
    """pixels gx..gx+nx of a mosaic that starts at x0, y0"""
    o = np.full((a.shape[0], ny, nx), nodata, np.int32)
    i0, j0 = gy-y0, gx-x0
    si, sj = max(0, i0), max(0, j0)
    ei, ej = min(a.shape[1], i0+ny), min(a.shape[2], j0+nx)
    if si < ei and sj < ej:
        o[:, si-i0:ei-i0, sj-j0:ej-j0] = a[:, si:ei, sj:ej]
    return o


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng([case["seed"], 61])
    # place of the scene in the target projection
    X = 4194304 + case["dx"] if case["x"] == "binade" else 3800000 + 400*case["dx"]
    Y = case["y"]*1000 + int(rng.integers(0, 1000))
    lon, lat = fl1.lonlat(X, Y, F.WKT)
    zone = int((lon+180)//6) + 1
    geo = fl1.osr.SpatialReference(); geo.ImportFromEPSG(4326)
    x, y = fl1.transform([(lon, lat)], geo.ExportToWkt(), fl1.utm_wkt(zone))[0]
    off = 15 if case["half"] else 0
    ulx, uly = round(x/30)*30.0 + off - case["nx"]*15//30*30, round(y/30)*30.0 + off + case["ny"]*15//30*30
    sc = fl1.Scene(case["sensor"], case["nx"], case["ny"], ulx, uly, zone, time=(9 if zone > 30 else 11, 40, 11.5))
    fl1.natural(sc, rng, COVER[case["cover"]])
    keys = [k for k, d in sc.bands if d != "CIRRUS"]
    if case["void"]:
        w = int(rng.integers(1, max(2, sc.nx//2)))
        m = fl1.blob(rng, sc.ny, sc.nx, w) if rng.random() < 0.7 else np.arange(sc.nx)[None, :] < w + np.arange(sc.ny)[:, None]//4
        if m.all():
            m[0, 0] = m[-1, -1] = False
        for k in keys:
            sc.dn[k] = np.where(m, 0, sc.dn[k]).astype(sc.dn[k].dtype)
    d = sc.write(ctx.dir)
    exe = ctx.exe("force-l2ps")
    common = dict(OUTPUT_FORMAT=case["fmt"] if case["mode"] == "tile" else "GTiff", CLOUD_BUFFER=60, SHADOW_BUFFER=30, SNOW_BUFFER=30)
    # with the radiometric correction the surface reflectance takes the place of the top-of-atmosphere reflectance
    if case["atmo"] != "no":
        common.update(DO_ATMO="TRUE", WATER_VAPOR="%.1f" % rng.uniform(0, 4))
    if case["atmo"] == "full":
        pad = 30
        yy, xx = np.mgrid[-pad:sc.ny+pad, -pad:sc.nx+pad]*30.0
        h = 500 + sum(rng.uniform(20, 200)*np.sin(xx/rng.uniform(150, 900) + yy/rng.uniform(-900, 900) + rng.uniform(0, 6)) for _ in range(3))
        F.write_raster(ctx.dir + "/dem.tif", h[None].astype("float32"), (ulx-pad*30, 30, 0, uly+pad*30, 0, -30), sc.wkt, -32767, "float32")
        common.update(DO_TOPO="TRUE", DO_BRDF="TRUE", MULTI_SCATTERING="TRUE", ADJACENCY_EFFECT="TRUE", FILE_DEM=ctx.dir + "/dem.tif", DEM_NODATA=-32767)
    out.label("correction: " + case["atmo"])

    def go(name, **kw):
        root = os.path.join(ctx.dir, name)
        os.makedirs(root)
        p = fl1.params(root, **dict(common, **kw))
        return p, root + "/l2", fl1.run(exe, root, d, p)

    _, l2, r = go("whole", DO_TILE="FALSE", NTHREAD=1)
    if r.rc != 0:
        out.fail("exit", "uncut: exit %s %s" % (r.rc, r.tail()))
        return out
    pr = {k[1]: F.Raster(v) for k, v in fl1.products(l2).items()}
    if case["atmo"] != "no" and "BOA" in pr:
        pr["TOA"] = pr.pop("BOA")
    if sorted(pr) != sorted(PRODUCTS):
        out.fail("products", "uncut: %s" % sorted(pr))
        return out
    nod = {p: 1 if p == "QAI" else -9999 for p in PRODUCTS}
    ref = {p: pr[p].data.astype(np.int32) for p in PRODUCTS}
    out.label(case["mode"])

    # grid of the tiles
    if case["mode"] == "aligned":
        k, l = int(rng.integers(-300, 3000)), int(rng.integers(-300, 3000))
        olon, olat = fl1.lonlat(ulx - k*30, uly + l*30, sc.wkt)
    elif case["far"]:
        olon, olat = (-25.0, 60.0)
    else:
        olon, olat = lon + case["olon"]/1000, lat + case["olat"]/1000
    grid = dict(ORIGIN_LON="%.15g" % olon, ORIGIN_LAT="%.15g" % olat)

    if case["mode"] != "reproject":
        res = 30
        sx, sy = case["sx"], case["sy"]
        while (sc.nx/sx + 1)*(sc.ny/sy + 1) > 20:
            sx, sy = sx + sx//3 + 1, sy + sy//3 + 1
        ts = dict(TILE_SIZE="%d %d" % (sx*res, sy*res))
        allow = None
        org = fl1.origin(dict(ORIGIN_LON=olon, ORIGIN_LAT=olat), sc.wkt)
        fx, fy = (org[0]-ulx)/res, (uly-org[1])/res
        # tiles the scene touches
        tx0, tx1 = math.floor(-fx/sx) - 1, math.floor((sc.nx-fx)/sx) + 1
        ty0, ty1 = math.floor(-fy/sy) - 1, math.floor((sc.ny-fy)/sy) + 1
        ids = [(a, b) for a in range(tx0, tx1+1) for b in range(ty0, ty1+1)]
        # tile IDs have four characters
        if case["tiles"] and all(-999 <= v <= 9999 for t in ids for v in t):
            allow = [t for t in ids if rng.random() < 0.5]
            if not allow:
                allow = ids[:1]
            with open(ctx.dir + "/allow.txt", "w") as fp:
                fp.write("%d\n" % len(allow) + "".join(F.tile_id(a, b) + "\n" for a, b in allow))
            ts["FILE_TILE"] = ctx.dir + "/allow.txt"
            out.label("allow-list")
        _, l2, r = go("cut", NTHREAD=case["thread"], **ts, **grid)
        if r.rc != 0:
            out.fail("exit", "tiles of %dx%d pixels: exit %s %s" % (sx, sy, r.rc, r.tail()))
            return out
        got = {p: read_tiles(l2, p, nod[p]) for p in PRODUCTS}
        best = None
        fl = (math.floor(fx), math.ceil(fx), math.floor(fy), math.ceil(fy))
        if case["mode"] == "aligned":
            fl = (round(fx), round(fx), round(fy), round(fy))
        for ax in sorted(set(fl[:2])):
            for ay in sorted(set(fl[2:])):
                bad = judge(out, got, ref, nod, ids, allow, ax, ay, sx, sy, org, res)
                if best is None or len(bad) < len(best):
                    best = bad
                if not bad:
                    break
        for key, msg in best[:3]:
            out.fail(key, msg + " (tiles of %dx%d pixels, %d threads)" % (sx, sy, case["thread"]))
        nt = [t for t in got["QAI"]]
        out.nontrivial += sum(int(((got["QAI"][t].data & 1) == 0).sum()) for t in nt[1:])
        out.evals += sum(r.data.size for p in PRODUCTS for r in got[p].values())
        if allow is not None:
            out.nontrivial += len(ids) - len(allow)
        out.sample = dict(mode=case["mode"], scene=[sc.nx, sc.ny], tile=[sx, sy], written=len(nt), threads=case["thread"])
        return out

    # reprojected: two ways to cut
    res = case["resolution"]
    rp = dict(DO_REPROJ="TRUE", PROJECTION=F.WKT, RESOLUTION_LANDSAT=res, RESAMPLING=case["resampling"])
    sx, sy = case["sx"], case["sy"]
    while (sc.nx*30/res/sx + 1)*(sc.ny*30/res/sy + 1) > 14:
        sx, sy = sx + sx//3 + 1, sy + sy//3 + 1
    _, la, ra = go("a", NTHREAD=1, TILE_SIZE="%d %d" % (case["bx"]*res, case["by"]*res), **grid, **rp)
    _, lb, rb = go("b", NTHREAD=case["thread"], TILE_SIZE="%d %d" % (sx*res, sy*res), **grid, **rp)
    if ra.rc != 0 or rb.rc != 0:
        out.fail("exit", "exit %s %s / %s %s" % (ra.rc, ra.tail(), rb.rc, rb.tail()))
        return out
    org = fl1.origin(dict(ORIGIN_LON=olon, ORIGIN_LAT=olat), F.WKT)
    A = {p: read_tiles(la, p, nod[p]) for p in PRODUCTS}
    B = {p: read_tiles(lb, p, nod[p]) for p in PRODUCTS}
    if not A["QAI"] or not B["QAI"]:
        if len(A["QAI"]) != len(B["QAI"]):
            out.fail("empty", "%d tiles of one size, %d of the other" % (len(A["QAI"]), len(B["QAI"])))
        return out
    MA = {}
    for p in PRODUCTS:
        for name, T, nx, ny in (("first", A, case["bx"], case["by"]), ("second", B, sx, sy)):
            for t, r in T[p].items():
                gt = (org[0] + t[0]*nx*res, res, 0, org[1] - t[1]*ny*res, 0, -res)
                if r.data.shape[1:] != (ny, nx) or not np.allclose(r.gt, gt, rtol=0, atol=1e-3):
                    out.fail("grid", "%s of tile %s: %s, %s instead of %s" % (p, t, r.data.shape, r.gt, gt))
                    return out
        a, ax, ay = mosaic(A[p], case["bx"], case["by"], nod[p])
        b, bx, by = mosaic(B[p], sx, sy, nod[p])
        MA[p] = (a, ax, ay)
        x0, y0 = min(ax, bx), min(ay, by)
        nx, ny = max(ax+a.shape[2], bx+b.shape[2])-x0, max(ay+a.shape[1], by+b.shape[1])-y0
        if p == "VZN":
            continue
        wa, wb = window(a, x0, y0, ax, ay, nx, ny, nod[p]), window(b, x0, y0, bx, by, nx, ny, nod[p])
        out.evals += int(wa.size)
        out.nontrivial += int((wa != nod[p]).sum())
        ne = (wa != wb).any(0)
        if ne.any():
            i, j = np.argwhere(ne)[0]
            out.fail("cut", "%s: %d pixels differ between tiles of %dx%d and %dx%d pixels, first at %d, %d of the grid: %s and %s" % (
                p, ne.sum(), case["bx"], case["by"], sx, sy, x0+j, y0+i, wa[:, i, j].tolist(), wb[:, i, j].tolist()))
            return out
    # every pixel comes from its place in the scene
    for p in ("TOA", "QAI", "HOT"):
        a, ax, ay = MA[p]
        valid = np.argwhere((a != nod[p]).any(0))
        if len(valid) == 0:
            continue
        pts = np.column_stack([org[0] + (ax + valid[:, 1] + 0.5)*res, org[1] - (ay + valid[:, 0] + 0.5)*res])
        u = fl1.transform(pts, F.WKT, sc.wkt)
        c, r_ = (u[:, 0]-ulx)/30, (uly-u[:, 1])/30
        n = 0 if case["resampling"] == "NN" or p == "QAI" else 3
        for k in np.random.default_rng(case["seed"]).permutation(len(valid))[:400]:
            fc, fr = c[k] % 1, r_[k] % 1
            if n == 0 and (min(fc, 1-fc) < 0.03 or min(fr, 1-fr) < 0.03):
                continue
            i, j = int(math.floor(r_[k])), int(math.floor(c[k]))
            v = a[:, valid[k, 0], valid[k, 1]]
            if n == 0:
                if not (0 <= i < sc.ny and 0 <= j < sc.nx):
                    out.fail("outside", "%s at %s: %s though the place is outside of the scene" % (p, pts[k].tolist(), v.tolist()))
                    return out
                if (ref[p][:, i, j] != v).any():
                    out.fail("nearest", "%s at %s: %s, the scene there has %s" % (p, pts[k].tolist(), v.tolist(), ref[p][:, i, j].tolist()))
                    return out
            else:
                s = math.ceil(res/30)
                i0, i1, j0, j1 = i-2*s, i+2*s+1, j-2*s, j+2*s+1
                if i0 < 0 or j0 < 0 or i1 > sc.ny or j1 > sc.nx:
                    continue
                w = ref[p][:, i0:i1, j0:j1]
                if (w == nod[p]).any():
                    continue
                lo, hi = w.min((1, 2)), w.max((1, 2))
                slack = 0.35*(hi-lo) + 2
                if (v < lo-slack).any() or (v > hi+slack).any():
                    out.fail("resampled", "%s at %s: %s, the surrounding scene has %s to %s" % (p, pts[k].tolist(), v.tolist(), lo.tolist(), hi.tolist()))
                    return out
    # and every valid pixel of the scene arrives
    a, ax, ay = MA["QAI"]
    good = np.argwhere((ref["QAI"][0] & 1) == 0)
    pts = fl1.transform(np.column_stack([ulx + (good[:, 1]+0.5)*30, uly - (good[:, 0]+0.5)*30]), sc.wkt, F.WKT)
    gx, gy = np.floor((pts[:, 0]-org[0])/res).astype(int) - ax, np.floor((org[1]-pts[:, 1])/res).astype(int) - ay
    if res <= 30:
        # a cell lies completely in a valid neighbourhood of the scene
        okn = np.zeros((sc.ny, sc.nx), bool)
        v = (ref["QAI"][0] & 1) == 0
        okn[1:-1, 1:-1] = v[1:-1, 1:-1]
        for di in (-1, 0, 1):
            for dj in (-1, 0, 1):
                okn[1:-1, 1:-1] &= v[1+di:sc.ny-1+di, 1+dj:sc.nx-1+dj]
        for k in np.flatnonzero(okn[good[:, 0], good[:, 1]]):
            if not (0 <= gx[k] < a.shape[2] and 0 <= gy[k] < a.shape[1]) or a[0, gy[k], gx[k]] & 1:
                out.fail("lost", "the scene has data at %s, the cube has not" % pts[k].tolist())
                return out
    out.sample = dict(mode="reproject", scene=[sc.nx, sc.ny], tiles=[len(A["QAI"]), len(B["QAI"])], resolution=res, resampling=case["resampling"], threads=case["thread"])
    return out


def judge(out, got, ref, nod, ids, allow, ax, ay, sx, sy, org, res):
    bad = []
    valid = (ref["QAI"] & 1) == 0
    for t in ids:
        gx, gy = t[0]*sx + ax, t[1]*sy + ay      # scene column and row of the tile's first pixel
        want = window(valid.astype(np.int32), gx, gy, 0, 0, sx, sy, 0).any() and (allow is None or t in allow)
        for p in PRODUCTS:
            r = got[p].get(t)
            if (r is not None) != want:
                bad.append(("written", "%s of tile %s: %s" % (p, t, "written without data or permission" if r is not None else "not written")))
                continue
            if r is None:
                continue
            gt = (org[0] + t[0]*sx*res, res, 0, org[1] - t[1]*sy*res, 0, -res)
            if not np.allclose(r.gt, gt, rtol=0, atol=1e-3):
                bad.append(("grid", "%s of tile %s: %s instead of %s" % (p, t, r.gt, gt)))
                continue
            w = window(ref[p], gx, gy, 0, 0, sx, sy, nod[p])
            if r.data.shape != w.shape:
                bad.append(("grid", "%s of tile %s: %s instead of %s" % (p, t, r.data.shape, w.shape)))
                continue
            ne = (r.data != w).any(0)
            if ne.any():
                i, j = np.argwhere(ne)[0]
                bad.append(("pixel", "%s of tile %s: %d pixels differ, first at %d, %d: %s instead of %s" % (
                    p, t, ne.sum(), j, i, r.data[:, i, j].tolist(), w[:, i, j].tolist())))
    for p in PRODUCTS:
        for t in got[p]:
            if t not in ids:
                bad.append(("stray", "%s written to tile %s" % (p, t)))
    return bad
