"""Level 2 quality flags, cloud screening options and area of interest."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st
from osgeo import ogr, osr

import fcube as F
import fl1
from harness import Outcome

ogr.UseExceptions()

ID = "C62"
RULE = ("a case is a synthetic Landsat scene (clear-cut surfaces, clouds, cirrus, snow, water, voids, saturated and negative pixels) processed once with drawn buffers and once with one option changed "
        "(erased clouds, area of interest, buffered nodata, another buffer, cover limits, cloud threshold); one evaluation = one pixel and one judged flag; distinct non-trivial = pixels where the flag must be set")
TIERS = {"quick": dict(examples=2500, budget=30), "thorough": dict(examples=9000, budget=85)}
ASSUMPTIONS = ["pixels of the outermost image frame are not judged (no slope is defined there)",
               "surfaces are judged where they are spectrally far from the class limits; snow may also be called cloud",
               "a buffer of r pixels must cover distances up to r-0.5 (1 for r=1) and nothing beyond r+1",
               "area of interest: pixels closer than one pixel to its outline are not judged"]
VARIANTS = ["erase", "aoi", "aoi", "nodata", "cloud", "shadow", "shadow", "snow", "cirrus", "frame", "frame", "tile", "threshold", "sun", "cast", "cast", "cast"]


@st.composite
def strategy_(draw, tier):
    buf = st.sampled_from([0, 0, 29, 30, 60, 75, 90, 150, 210, 300])
    return dict(variant=draw(st.sampled_from(VARIANTS)), sensor=draw(st.sampled_from([8, 5, 7, 9, 4])), nx=draw(st.integers(12, 110)), ny=draw(st.integers(12, 110)), seed=draw(st.integers(0, 2**31)),
                cover=draw(st.lists(st.tuples(st.sampled_from(["cloud", "cloud", "snow", "water", "cirrus", "soil"]), st.integers(1, 3), st.integers(1, 14)), max_size=6)),
                base=draw(st.sampled_from(["veg", "soil"])), cb=draw(buf), sb=draw(buf), nb=draw(buf), ib=draw(buf), other=draw(st.sampled_from([30, 60, 90, 120, 180, 300])),
                void=draw(st.integers(0, 4)), sat=draw(st.integers(0, 6)), neg=draw(st.integers(0, 6)), tile=draw(st.integers(6, 40)), limit=draw(st.integers(-3, 3)), pick=draw(st.integers(0, 100)),
                thread=draw(st.sampled_from([1, 2, 8])), crs=draw(st.sampled_from(["utm", "geo", "laea"])), vec=draw(st.sampled_from(["GPKG", "GeoJSON", "ESRI Shapefile"])),
                poly=draw(st.lists(st.tuples(st.floats(-0.1, 1.1), st.floats(-0.1, 1.1), st.floats(0.05, 0.7)), min_size=1, max_size=3)), hole=draw(st.booleans()))


def strategy(tier):
    return strategy_(tier)


def distance(mask):
    """exact Euclidean distance [pixels] to the nearest set pixel"""
    ny, nx = mask.shape
    g = np.full((ny, nx), 1e9)
    last = np.full(nx, -1e6)
    for i in range(ny):
        last = np.where(mask[i], i, last)
        g[i] = i - last
    last = np.full(nx, 1e6)
    for i in range(ny-1, -1, -1):
        last = np.where(mask[i], i, last)
        g[i] = np.minimum(g[i], last - i)
    dx2 = (np.arange(nx)[:, None] - np.arange(nx)[None, :])**2.0
    d = np.empty((ny, nx))
    for i in range(ny):
        d[i] = (dx2 + (g[i]**2)[None, :]).min(1)
    return np.sqrt(d)


def interior(m):
    """pixels whose 8 neighbours are of the same kind"""
    o = m.copy()
    ny, nx = m.shape
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            s = np.zeros_like(m)
            s[max(0, a):ny+min(0, a), max(0, b):nx+min(0, b)] = m[max(0, -a):ny+min(0, -a), max(0, -b):nx+min(0, -b)]
            o &= s
    return o


def buffered(out, what, mask, seed, r, judge, extra=None):
    """mask must be seed grown by r pixels; extra = pixels that may hide seeds"""
    if r <= 0:
        bad = judge & (mask != seed)
    else:
        d = distance(seed)
        bad = judge & ~mask & (d <= (1 if r == 1 else r - 0.5))
        e = distance(seed | extra) if extra is not None else d
        bad |= judge & mask & (e > r + 1)
    out.evals += int(judge.sum())
    out.nontrivial += int((judge & mask).sum())
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("buffer " + what, "%s buffered by %d pixels: %d pixels wrong, first row %d column %d (flag %d)" % (what, r, bad.sum(), i, j, mask[i, j]))


def must(out, key, cond, where, text):
    """cond holds on all pixels of where"""
    out.evals += int(where.sum())
    bad = where & ~cond
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail(key, "%s: %d of %d pixels, first row %d column %d" % (text, bad.sum(), where.sum(), i, j))
        return False
    return True


def polygon(case, sc, rng):
    """file with the area of interest, and its geometry in the image's projection"""
    geom = ogr.Geometry(ogr.wkbMultiPolygon)
    w, h = sc.nx*30.0, sc.ny*30.0
    for cx, cy, size in case["poly"]:
        n = int(rng.integers(3, 9))
        ang = np.sort((np.arange(n) + rng.uniform(0.05, 0.95, n))*2*math.pi/n)
        rad = rng.uniform(0.5, 1, n)*size*max(w, h)
        ring = ogr.Geometry(ogr.wkbLinearRing)
        pts = [(sc.ulx + cx*w + r*math.cos(a), sc.uly - cy*h + r*math.sin(a)) for a, r in zip(ang, rad)]
        for p in pts + pts[:1]:
            ring.AddPoint_2D(*p)
        po = ogr.Geometry(ogr.wkbPolygon)
        po.AddGeometry(ring)
        if case["hole"]:
            hr = ogr.Geometry(ogr.wkbLinearRing)
            q = [(sc.ulx + cx*w + 0.3*r*math.cos(a), sc.uly - cy*h + 0.3*r*math.sin(a)) for a, r in zip(ang, rad)]
            for p in q + q[:1]:
                hr.AddPoint_2D(*p)
            po.AddGeometry(hr)
        geom.AddGeometry(po)
    return geom


def write_vector(fname, driver, geom, src, dst):
    s = osr.SpatialReference(); s.ImportFromWkt(src); s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    t = osr.SpatialReference(); t.ImportFromWkt(dst); t.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    ds = ogr.GetDriverByName(driver).CreateDataSource(fname)
    la = ds.CreateLayer("aoi", t, ogr.wkbPolygon)
    tr = osr.CoordinateTransformation(s, t)
    for k in range(geom.GetGeometryCount()):
        g = geom.GetGeometryRef(k).Clone()
        g.Segmentize(100)
        g.Transform(tr)
        f = ogr.Feature(la.GetLayerDefn())
        f.SetGeometry(g)
        la.CreateFeature(f)
    ds = None


def cast(case, ctx, out, rng):
    """a cloud and the shadow it casts away from the sun"""
    south = rng.random() < 0.3
    lat = rng.uniform(-50, -5) if south else rng.uniform(5, 58)
    zone = int(rng.integers(31, 36))
    lon = zone*6 - 183 + rng.uniform(-1.5, 1.5)
    geo = osr.SpatialReference(); geo.ImportFromEPSG(4326)
    z = -zone if south else zone
    x, y = fl1.transform([(lon, lat)], geo.ExportToWkt(), fl1.utm_wkt(z))[0]
    noon = 12 - lon/15
    for _ in range(50):
        t = noon + rng.uniform(-3, 3)
        date = (int(rng.integers(1990, 2020)), int(rng.integers(1, 13)), int(rng.integers(1, 28)))
        time = (int(t), int((t % 1)*60), 20.0)
        zen, az = fl1.sun_position(date, time, lon, lat)
        h = rng.uniform(1200, 2200)
        sx, sy = -math.sin(az)*h*math.tan(zen)/30, math.cos(az)*h*math.tan(zen)/30
        a, b = rng.uniform(4, 9, 2)
        if math.degrees(zen) < 60 and max(abs(sx), abs(sy)) < 90 and math.hypot(sx, sy) > 2.3*max(a, b):
            break
    else:
        return out
    # both inside the image
    m = 12 + int(max(a, b))
    nx, ny = int(abs(sx)) + 2*m + int(rng.integers(1, 40)), int(abs(sy)) + 2*m + int(rng.integers(1, 40))
    cx = rng.uniform(m + max(0, -sx), nx - m - max(0, sx))
    cy = rng.uniform(m + max(0, -sy), ny - m - max(0, sy))
    sc = fl1.Scene(case["sensor"], nx, ny, round((x - nx*15)/30)*30.0, round((y + ny*15)/30)*30.0, z, date=date, time=time)
    cls = np.full((ny, nx), "veg", object)
    Y, X = np.mgrid[0:ny, 0:nx]
    shade = ((Y-cy-sy)/b)**2 + ((X-cx-sx)/a)**2 <= 1
    cls[shade] = "shade"
    cls[((Y-cy)/b)**2 + ((X-cx)/a)**2 <= 1] = "warm"
    fl1.fill(sc, rng, cls)
    d = sc.write(ctx.dir)
    p = fl1.params(ctx.dir, DO_TILE="FALSE", OUTPUT_VZN="FALSE", CLOUD_BUFFER=0, SHADOW_BUFFER=0, SNOW_BUFFER=0, NTHREAD=case["thread"])
    r = fl1.run(ctx.exe("force-l2ps"), ctx.dir, d, p)
    pr = fl1.products(ctx.dir + "/l2")
    q = [f for k, f in pr.items() if k[1] == "QAI"]
    if r.rc != 0 or not q:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    s = F.qai_get(F.Raster(q[0]).data[0].astype(np.int32), "shadow") > 0
    out.label("cast")
    out.nontrivial += int(shade.sum())
    where = "sun zenith %.0f azimuth %.0f, cloud at row %.0f column %.0f, shadow at row %.0f column %.0f" % (math.degrees(zen), math.degrees(az) % 360, cy, cx, cy+sy, cx+sx)
    out.evals += nx*ny
    hit = (s & shade).sum()/shade.sum()
    if hit < 0.7:
        out.fail("shadow", "only %.0f %% of a cloud shadow flagged; %s" % (100*hit, where))
    far = s & (distance(shade) > 8)
    if far.any():
        i, j = np.argwhere(far)[0]
        out.fail("shadow", "%d pixels far from the cloud shadow flagged, first row %d column %d; %s" % (far.sum(), i, j, where))
    if out.fails or case["pick"] % 2:
        return out
    # the same shadow buffered
    off = F.Raster(q[0]).data[0] == 1
    root = ctx.dir + "/buffer"
    os.makedirs(root)
    p = fl1.params(root, DO_TILE="FALSE", OUTPUT_VZN="FALSE", CLOUD_BUFFER=0, SHADOW_BUFFER=case["other"], SNOW_BUFFER=0, NTHREAD=case["thread"])
    r = fl1.run(ctx.exe("force-l2ps"), root, d, p)
    q = [f for k, f in fl1.products(root + "/l2").items() if k[1] == "QAI"]
    if r.rc != 0 or not q:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    inner = np.zeros((ny, nx), bool)
    inner[1:-1, 1:-1] = True
    out.label("cast, buffered")
    buffered(out, "shadow", F.qai_get(F.Raster(q[0]).data[0].astype(np.int32), "shadow") > 0, s & ~off, case["other"]//30, ~off & inner, extra=off)
    return out


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    out.nontrivial = 0
    rng = np.random.default_rng([case["seed"], 62])
    if case["variant"] == "cast":
        return cast(case, ctx, out, rng)
    lon = int(rng.integers(2, 28))
    zone = (lon+180)//6 + 1
    kw = {}
    if case["variant"] == "sun":
        kw = dict(date=(2018, int(rng.choice([12, 1, 11])), int(rng.integers(1, 28))), time=(int(rng.integers(7, 12)), int(rng.integers(0, 60)), 30.0))
        uly = 30.0*int(rng.integers(200000, 225000))
    else:
        kw = dict(date=(2018, int(rng.integers(4, 9)), int(rng.integers(1, 28))), time=(10 if zone > 31 else 11, int(rng.integers(0, 60)), 11.5))
        uly = 30.0*int(rng.integers(150000, 190000))
    sc = fl1.Scene(case["sensor"], case["nx"], case["ny"], 30.0*int(rng.integers(10000, 22000)), uly, zone, **kw)
    ny, nx = sc.ny, sc.nx
    if case["variant"] == "sun" and math.acos(float(np.min(sc.mu()))) > math.radians(86):
        return out
    cls = fl1.natural(sc, rng, case["cover"], base=case["base"])
    frame = np.ones((ny, nx), bool)
    frame[1:-1, 1:-1] = False
    refl = [k for k, d in sc.bands if d not in ("TEMP", "CIRRUS")]
    keys = [k for k, d in sc.bands if d != "CIRRUS"]
    # voids: patches in all bands, single pixels in one band
    for n in range(case["void"]):
        m = fl1.blob(rng, ny, nx, int(rng.integers(1, max(2, nx//5)))) if n % 2 else np.arange(nx*ny).reshape(ny, nx) == int(rng.integers(0, nx*ny))
        if m.mean() > 0.6:
            continue
        for k in (keys if n % 2 else [keys[int(rng.integers(0, len(keys)))]]):
            sc.dn[k] = np.where(m, 0, sc.dn[k]).astype(sc.dn[k].dtype)
    saturated = np.zeros((ny, nx), bool)
    for n in range(case["sat"]):
        i, j = int(rng.integers(0, ny)), int(rng.integers(0, nx))
        k = refl[int(rng.integers(0, len(refl)))]
        if sc.dn[k][i, j] > 0:
            sc.dn[k][i, j] = sc.sat
    for n in range(case["neg"] if case["variant"] != "nodata" else 0):
        i, j = int(rng.integers(0, ny)), int(rng.integers(0, nx))
        k = refl[int(rng.integers(0, len(refl)))]
        if 0 < sc.dn[k][i, j] < sc.sat:
            sc.dn[k][i, j] = 1
    void = np.zeros((ny, nx), bool)
    for k in keys:
        void |= sc.dn[k] == 0
    for k in refl:
        void |= sc.radd[k] + sc.rmul[k]*sc.dn[k].astype(float) <= 0
    for k in refl:
        saturated |= sc.dn[k] >= sc.sat
    if void.all():
        return out
    d = sc.write(ctx.dir)
    exe = ctx.exe("force-l2ps")
    common = dict(DO_TILE="FALSE", OUTPUT_VZN="FALSE", CLOUD_BUFFER=case["cb"], SHADOW_BUFFER=case["sb"], SNOW_BUFFER=case["nb"], CIRRUS_BUFFER=case["ib"], NTHREAD=case["thread"])

    def go(name, **kw):
        root = os.path.join(ctx.dir, name)
        os.makedirs(root)
        p = fl1.params(root, **dict(common, **kw))
        r = fl1.run(exe, root, d, p)
        if r.rc != 0:
            out.fail("exit", "%s: exit %s %s" % (name, r.rc, r.tail()))
            return None
        return root + "/l2"

    def load(l2):
        pr = {k[1]: F.Raster(v).data.astype(np.int32) for k, v in fl1.products(l2).items()}
        return pr if all(p in pr for p in ("TOA", "QAI", "DST", "HOT")) else None

    zero = {"shadow": "SHADOW_BUFFER", "snow": "SNOW_BUFFER", "cirrus": "CIRRUS_BUFFER"}
    v = case["variant"]
    l2 = go("base", **({zero[v]: 0} if v in zero else {}))
    if l2 is None:
        return out
    a = load(l2)
    if a is None:
        if not fl1.products(l2) and interior(~void).sum() == 0:
            return out
        out.fail("products", "products written: %s" % sorted(fl1.products(l2)))
        return out
    out.label(v)
    consistent(out, a, cls, void, saturated, frame, sc, erased=False, first=True, buf={"cloud": case["cb"]//30})
    if out.fails:
        return out
    q = a["QAI"][0]
    off = q == 1
    g = {f[0]: F.qai_get(q, f[0]) for f in F.QAI_FIELDS}
    cover = 100.0*((g["cloud"] > 0) | (g["shadow"] > 0))[~off].sum()/max(1, (~off).sum())
    judge = ~off & ~frame

    if v == "sun":
        return out
    if v == "erase":
        l2 = go("var", ERASE_CLOUDS="TRUE")
        b = load(l2) if l2 else None
        if b is None:
            out.fail("products", "erased clouds: nothing written")
            return out
        for p in ("QAI", "HOT", "DST"):
            must(out, "erase", (a[p] == b[p]).all(0), np.ones((ny, nx), bool), "%s changed by erasing clouds" % p)
        op = g["cloud"] == 2
        must(out, "erase", (b["TOA"] == -9999).all(0), op & ~off, "confident cloud not erased")
        must(out, "erase", (b["TOA"] == a["TOA"]).all(0), ~op | off, "pixel outside confident clouds changed by erasing clouds")
        out.nontrivial += int((op & ~off).sum())
        return out
    if v == "aoi":
        geom = polygon(case, sc, rng)
        name = ctx.dir + "/aoi." + {"GPKG": "gpkg", "GeoJSON": "geojson", "ESRI Shapefile": "shp"}[case["vec"]]
        geo = osr.SpatialReference(); geo.ImportFromEPSG(4326)
        crs = {"utm": fl1.utm_wkt(zone), "geo": geo.ExportToWkt(), "laea": F.WKT}["geo" if case["vec"] == "GeoJSON" else case["crs"]]
        write_vector(name, case["vec"], geom, fl1.utm_wkt(zone), crs)
        inside = np.zeros((ny, nx), bool)
        near = np.zeros((ny, nx), bool)
        for k in range(geom.GetGeometryCount()):
            po = geom.GetGeometryRef(k)
            rings = [np.array(po.GetGeometryRef(n).GetPoints())[:, :2] for n in range(po.GetGeometryCount())]
            ins, nr = winding(rings, sc)
            inside |= ins
            near |= nr
        l2 = go("var", FILE_AOI=name)
        if l2 is None:
            return out
        b = load(l2)
        if b is None:
            must(out, "aoi", off | near | ~inside, ~frame, "nothing written though the area of interest covers valid pixels")
            return out
        must(out, "aoi", b["QAI"][0] == 1, ~inside & ~near, "pixel outside the area of interest kept")
        for p in ("TOA", "QAI", "HOT"):
            must(out, "aoi", (a[p] == b[p]).all(0), inside & ~near, "%s changed inside the area of interest" % p)
        consistent(out, b, cls, void, saturated, frame, sc, erased=False, first=False, buf=None)
        out.nontrivial += int((~inside & ~near & ~off).sum())
        return out
    if v == "nodata":
        l2 = go("var", BUFFER_NODATA="TRUE")
        b = load(l2) if l2 else None
        if b is None:
            if l2 and (distance(void) <= 1)[1:-1, 1:-1].all():
                return out
            out.fail("products", "buffered nodata: nothing written")
            return out
        o = b["QAI"][0] == 1
        if void.any():
            buffered(out, "nodata", o, void, 1, ~frame)
        else:
            must(out, "buffer nodata", ~o, ~frame, "pixel lost though nothing is void")
        return out
    if v in zero:
        l2 = go("var", **{zero[v]: case["other"]})
        b = load(l2) if l2 else None
        if b is None:
            out.fail("products", "%s buffer: nothing written" % v)
            return out
        qb = b["QAI"][0]
        r = case["other"]//30
        if v == "cirrus":
            c12 = (g["cloud"] == 1) | (g["cloud"] == 2)
            buffered(out, v, F.qai_get(qb, "cloud") == 3, g["cloud"] == 3, r, judge & ~c12, extra=c12 | off)
            must(out, "buffer cirrus", F.qai_get(qb, "cloud") == g["cloud"], judge & c12, "clouds changed by the cirrus buffer")
        elif not (v == "shadow" and g["shadow"][~off].all()):
            buffered(out, v, F.qai_get(qb, v) > 0, (g[v] > 0) & ~off, r, judge, extra=off)
        return out
    if v == "cloud":
        l2 = go("var", CLOUD_BUFFER=case["other"])
        b = load(l2) if l2 else None
        if b is None:
            out.fail("products", "cloud buffer: nothing written")
            return out
        qb = F.qai_get(b["QAI"][0], "cloud")
        must(out, "buffer cloud", (qb == 2) == (g["cloud"] == 2), judge, "confident clouds changed by the buffer")
        buffered(out, "cloud", (qb == 1) | (qb == 2), (g["cloud"] == 2) & ~off, case["other"]//30, judge)
        return out
    if v == "frame":
        # (the detection gives up early if more than 0.8 of the limit may be cloud, including specks removed later)
        c2 = 100.0*((g["cloud"] == 2) | saturated | (cls == "cloud") | (cls == "snow"))[~off].sum()/max(1, (~off).sum())
        need = max(cover, c2/0.8)
        limit = min(100, max(1, int(round((cover if case["pick"] % 2 else need)*[0.3, 0.7, 0.95, 1, 1.05, 1.3, 2][case["limit"]+3]))))
        l2 = go("var", MAX_CLOUD_COVER_FRAME=limit)
        if l2 is None:
            return out
        pr = fl1.products(l2)
        out.evals += 1
        if cover > limit + 0.5:
            out.nontrivial += 1
            out.label("over the limit")
            if pr:
                out.fail("frame limit", "cover %.2f %% above the limit of %d %%, but products were written" % (cover, limit))
        elif limit > need + 0.5:
            b = load(l2)
            if b is None or any((a[p] != b[p]).any() for p in a):
                out.fail("frame limit", "cover %.2f %% below the limit of %d %%, but %s" % (cover, limit, "nothing was written" if b is None else "products differ"))
        return out
    if v == "tile":
        size = case["tile"]*30
        l2 = go("tiles", DO_TILE="TRUE", TILE_SIZE="%d %d" % (size, size), ORIGIN_LON=0, ORIGIN_LAT=60)
        if l2 is None:
            return out
        full = {}
        for (t, p), f in fl1.products(l2).items():
            full.setdefault(t, {})[p] = F.Raster(f).data
        cov = {}
        for t, pr in full.items():
            qt = pr["QAI"][0]
            ok = qt != 1
            cov[t] = 100.0*((F.qai_get(qt, "cloud") > 0) | (F.qai_get(qt, "shadow") > 0))[ok].sum()/max(1, ok.sum())
        vals = sorted(set(cov.values()))
        limit = min(100, max(1, int(round(vals[case["pick"] % len(vals)])) + case["limit"]))
        l2 = go("var", DO_TILE="TRUE", TILE_SIZE="%d %d" % (size, size), ORIGIN_LON=0, ORIGIN_LAT=60, MAX_CLOUD_COVER_TILE=limit)
        if l2 is None:
            return out
        got = {}
        for (t, p), f in fl1.products(l2).items():
            got.setdefault(t, {})[p] = F.Raster(f).data
        for t in full:
            out.evals += 1
            if cov[t] > limit + 1e-3:
                out.nontrivial += 1
                if t in got:
                    out.fail("tile limit", "tile %s with %.3f %% cover written, limit %d %%" % (t, cov[t], limit))
            elif cov[t] < limit - 1e-3:
                if t not in got:
                    out.fail("tile limit", "tile %s with %.3f %% cover missing, limit %d %%" % (t, cov[t], limit))
                elif any((got[t][p] != full[t][p]).any() for p in full[t]):
                    out.fail("tile limit", "tile %s changed by the cover limit" % t)
        return out
    if v == "threshold":
        lo, hi = sorted(rng.uniform(0.01, 0.6, 2))
        res = []
        for n, t in (("lo", lo), ("hi", hi)):
            l2 = go(n, CLOUD_THRESHOLD="%.4f" % t)
            b = load(l2) if l2 else None
            if b is None:
                out.fail("products", "cloud threshold %.4f: nothing written" % t)
                return out
            res.append(F.qai_get(b["QAI"][0], "cloud") == 2)
        must(out, "threshold", ~res[1] | res[0], judge, "pixel is cloud with the stricter but not with the laxer threshold (%.4f, %.4f)" % (hi, lo))
        out.nontrivial += int((res[0] & ~res[1]).sum())
    return out


def winding(rings, sc):
    """(inside, closer than one pixel to the outline) of the pixel centres, even-odd rule"""
    x = sc.ulx + 30.0*(np.arange(sc.nx) + 0.5)
    y = sc.uly - 30.0*(np.arange(sc.ny) + 0.5)
    X, Y = np.meshgrid(x, y)
    ins = np.zeros(X.shape, bool)
    near = np.zeros(X.shape, bool)
    for r in rings:
        for (x0, y0), (x1, y1) in zip(r[:-1], r[1:]):
            if y0 != y1:
                c = ((y0 > Y) != (y1 > Y)) & (X < (x1-x0)*(Y-y0)/(y1-y0) + x0)
                ins ^= c
            l2 = (x1-x0)**2 + (y1-y0)**2
            t = np.clip(((X-x0)*(x1-x0) + (Y-y0)*(y1-y0))/l2, 0, 1) if l2 else 0
            near |= np.hypot(X - x0 - t*(x1-x0), Y - y0 - t*(y1-y0)) < 30
    return ins, near


def consistent(out, a, cls, void, saturated, frame, sc, erased, first, buf):
    toa, q, dst, hot = a["TOA"], a["QAI"][0], a["DST"][0], a["HOT"][0]
    ny, nx = q.shape
    every = np.ones((ny, nx), bool)
    off = F.qai_get(q, "off") > 0
    g = {f[0]: F.qai_get(q, f[0]) for f in F.QAI_FIELDS}
    must(out, "nodata", q == 1, off, "nodata bit not alone")
    must(out, "nodata", (toa == -9999).all(0), off, "reflectance of a nodata pixel")
    must(out, "nodata", (toa != -9999).all(0), ~off, "nodata in the reflectance of a valid pixel")
    must(out, "nodata", (dst == -9999) == off, every, "cloud distance and nodata bit disagree")
    must(out, "nodata", (hot == -9999) == off, every, "haze product and nodata bit disagree")
    ok = ~off
    h = toa[0] - 0.5*toa[2] - 800
    must(out, "haze", np.abs(hot - h) <= 2, ok & ~saturated & (np.abs(h + 9999) > 3), "haze product is not blue - 0.5 red - 800")
    seed = ok & ((g["cloud"] > 0) | (g["shadow"] > 0) | (g["snow"] > 0))
    if seed.any():
        e = distance(seed)*30
        must(out, "distance", (np.abs(dst - e) < 31) & ((dst == 0) == (e == 0)), ok, "wrong distance to the nearest cloud, shadow or snow")
        out.nontrivial += int((ok & (e > 0)).sum())
    else:
        must(out, "distance", dst >= min(32767, 30*(nx+ny)), ok, "distance though there is neither cloud, shadow nor snow")
    if not first:
        return
    must(out, "void", off, void, "void pixel not flagged")
    must(out, "void", ok, ~void & ~frame, "valid pixel lost")
    must(out, "saturation", g["sat"] > 0, ok & saturated, "saturated pixel not flagged")
    must(out, "saturation", g["sat"] == 0, ok & ~saturated & (toa < 9999).all(0), "unsaturated pixel flagged as saturated")
    must(out, "saturation", g["sat"] > 0, ok & (toa > 10001).any(0), "reflectance above 1 not flagged")
    must(out, "subzero", g["subzero"] > 0, ok & (toa < 0).any(0), "negative reflectance not flagged")
    must(out, "subzero", g["subzero"] == 0, ok & (toa > 0).all(0), "positive reflectance flagged as negative")
    must(out, "slope", g["slope"] == 0, ok & ~frame, "flat terrain flagged as steep")
    out.nontrivial += int((ok & saturated).sum() + (ok & (toa < 0).any(0)).sum())
    # sun
    zen = []
    for x, y in ((0, 0), (nx, 0), (0, ny), (nx, ny)):
        lo, la = fl1.lonlat(sc.ulx + 30*x, sc.uly - 30*y, fl1.utm_wkt(sc.zone))
        zen.append(math.degrees(fl1.sun_zenith(sc.date, sc.time, lo, la)))
    if min(zen) > 75.5:
        must(out, "sun", g["sun"] > 0, ok, "low sun not flagged")
        out.label("low sun")
        out.nontrivial += int(ok.sum())
        return
    if max(zen) < 74.5:
        must(out, "sun", g["sun"] == 0, ok, "high sun flagged as low")
    if max(zen) > 65:
        return
    # surfaces
    odd = saturated | void
    for k, dd in sc.bands:
        if dd not in ("TEMP", "CIRRUS"):
            odd |= sc.dn[k] <= 1
    clean = distance(odd) > 2 if odd.any() else every
    allshadow = ok.any() and g["shadow"][ok].all()
    c = {n: ok & clean & ~frame & interior(cls == n) for n in set(cls.ravel().tolist())}
    nothing = ok & ~c.get("x", np.zeros_like(ok))
    for n, m in c.items():
        out.nontrivial += int(m.sum()) if n not in ("veg", "soil") else 0
        if n == "water":
            must(out, "water", g["water"] > 0, m, "water not flagged")
        else:
            must(out, "water", g["water"] == 0, m, "%s flagged as water" % n)
        if n == "snow":
            must(out, "snow", g["snow"] > 0, m, "snow not flagged")
        elif buf is not None:
            pass
        if n == "cloud" and not allshadow:
            must(out, "cloud", g["cloud"] == 2, m, "cloud not flagged")
        if n == "cirrus" and sc.sensor > 7 and not allshadow:
            must(out, "cirrus", g["cloud"] > 0, m & (g["snow"] == 0), "cirrus not flagged")
    if buf is not None:
        hidden = (cls == "cloud") | (cls == "snow") | odd
        far = distance(hidden) > buf["cloud"] + 3 if hidden.any() else every
        m = ok & far & ((cls == "veg") | (cls == "soil") | (cls == "water"))
        if sc.sensor > 7:
            ci = cls == "cirrus"
            must(out, "clear", (g["cloud"] == 0) | (g["cloud"] == 3), m, "clear land or water far from clouds flagged as cloud")
        else:
            must(out, "clear", g["cloud"] == 0, m, "clear land or water far from clouds flagged as cloud")
        m = ok & far
        must(out, "cloud", ~((g["cloud"] == 1) | (g["cloud"] == 2)), m, "cloud far from any bright surface")
