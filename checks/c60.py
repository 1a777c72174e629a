"""Top-of-atmosphere calibration of synthetic Landsat scenes."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
import fl1
from harness import Outcome

ID = "C60"
RULE = ("a case is a synthetic scene (Landsat 4, 5, 7, 8 or 9; 24-190 columns and rows; calibration coefficients, place, date and time drawn; 5 contents from natural to noise; void, "
        "saturated and thermal-only void pixels); one evaluation = one band of one pixel; distinct non-trivial = valid pixels in bands with reflectance above 0.005, "
        "void pixels, and scenes that must not be written")
TIERS = {"quick": dict(examples=2000, budget=25), "thorough": dict(examples=8000, budget=75)}
ASSUMPTIONS = ["the solar zenith may differ by 0.2 degrees from an independent double precision ephemeris (the code works in single precision on a 5 km grid)"]


@st.composite
def strategy_(draw, tier):
    sensor = draw(st.sampled_from([8, 5, 7, 9, 4]))
    return dict(sensor=sensor, nx=draw(st.integers(24, 190)), ny=draw(st.integers(24, 190)), seed=draw(st.integers(0, 2**31)),
                lat=draw(st.integers(-58, 58)), zone=draw(st.integers(1, 60)), south=draw(st.booleans()), east=draw(st.integers(-250, 250)),
                year=draw(st.integers(1984, 2030)), month=draw(st.integers(1, 12)), day=draw(st.integers(1, 28)), solar=draw(st.integers(8*60, 15*60)), sec=draw(st.integers(0, 59)),
                content=draw(st.sampled_from(["natural", "noise", "bright", "dark", "gradient"])),
                void=draw(st.sampled_from(["none", "edge", "band", "thermal", "saturated", "mixed"])),
                cal=draw(st.booleans()), order=draw(st.booleans()),
                tier=draw(st.sampled_from([1, 1, 2, 3])), datatype=draw(st.sampled_from(["L1TP", "L1TP", "L1TP", "L1GT", "L1GS"])),
                category=draw(st.sampled_from(["T1", "T1", "T1", "T2", "RT"])), drop=draw(st.sampled_from([None]*9 + ["any"])), thread=draw(st.integers(1, 4)))


def strategy(tier):
    return strategy_(tier)


def scene_of(case):
    rng = np.random.default_rng([case["seed"], 60])
    s0 = 1 if not case["south"] else -1
    zone = case["zone"]*s0
    cm = case["zone"]*6 - 183
    lat = case["lat"]
    if case["south"] and lat > 0:
        lat = -lat
    wkt = fl1.utm_wkt(zone)
    geo = fl1.osr.SpatialReference(); geo.ImportFromEPSG(4326)
    x, y = fl1.transform([(cm, lat)], geo.ExportToWkt(), wkt)[0]
    ulx = round((500000 + case["east"]*1000)/30)*30
    uly = round(y/30)*30
    lon, la = fl1.lonlat(ulx, uly, wkt)
    ut = (case["solar"] - 4*lon) % 1440
    time = (int(ut//60), int(ut % 60), case["sec"] + 0.25)
    date = (case["year"], case["month"], case["day"])
    if fl1.sun_zenith(date, time, lon, la) > math.radians(72):
        date = (case["year"], (case["month"]+5) % 12 + 1, case["day"])
    if fl1.sun_zenith(date, time, lon, la) > math.radians(72):
        date = (case["year"], 6 if la > 0 else 12, case["day"])
        ut = (12*60 - 4*lon) % 1440
        time = (int(ut//60), int(ut % 60), case["sec"] + 0.25)
    rmul = radd = lmax = lmin = None
    if case["cal"]:
        keys = [k for k, _ in fl1.bands(case["sensor"])]
        byte = case["sensor"] <= 7
        rmul = {k: float("%.7E" % rng.uniform(*((0.001, 0.006) if byte else (1e-5, 2.4e-5)))) for k in keys}
        radd = {k: float("%.7f" % -rng.uniform(0.002, 0.02 if byte else 0.12)) for k in keys}
        lmax = {k: float("%.5f" % rng.uniform(200, 700)) for k in keys}
        lmin = {k: float("%.5f" % -rng.uniform(1, 60)) for k in keys}
        t = keys[-1]
        lmax[t] = float("%.5f" % rng.uniform(13, 23)); lmin[t] = float("%.5f" % rng.uniform(0.1, 1.2))
    sc = fl1.Scene(case["sensor"], case["nx"], case["ny"], ulx, uly, zone, date, time, datatype=case["datatype"], category=case["category"],
                   path=int(rng.integers(1, 234)), row=int(rng.integers(1, 249)), rmul=rmul, radd=radd, lmax=lmax, lmin=lmin)
    mu = math.cos(fl1.sun_zenith(date, time, lon, la))
    ny, nx = sc.ny, sc.nx
    level = {"natural": (0.02, 0.35), "noise": (0.003, 1.2), "bright": (0.3, 1.1), "dark": (0.003, 0.03), "gradient": (0.01, 0.8)}[case["content"]]
    for k, d in sc.bands:
        if d == "TEMP":
            sc.dn[k] = sc.counts_temp(rng.uniform(255, 310, (ny, nx)))
        elif d == "CIRRUS":
            sc.dn[k] = sc.counts(d, rng.uniform(-0.01, 0.02, (ny, nx)), mu)
        else:
            if case["content"] == "gradient":
                v = np.linspace(level[0], level[1], nx)[None, :]*rng.uniform(0.9, 1.1, (ny, nx))
            else:
                v = rng.uniform(level[0], level[1], (ny, nx))
            sc.dn[k] = np.maximum(sc.counts(d, v, mu), int(math.ceil((0.002 - sc.radd[k])/sc.rmul[k]))).astype(sc.dn[k].dtype if k in sc.dn else ("uint8" if sc.sensor <= 7 else "uint16"))
    keys = [k for k, d in sc.bands if d != "CIRRUS"]
    void = case["void"]
    if void in ("edge", "mixed"):
        w = int(rng.integers(1, max(2, nx//3)))
        for k in keys:
            sc.dn[k][:, :w] = 0
        h = int(rng.integers(1, max(2, ny//3)))
        k = keys[int(rng.integers(0, len(keys)))]
        sc.dn[k][ny-h:] = 0
    if void in ("band", "mixed"):
        for k in keys:
            sc.dn[k][rng.random((ny, nx)) < 0.01] = 0
    if void == "thermal":
        sc.dn[keys[-1]][rng.random((ny, nx)) < 0.05] = 0
    if void in ("saturated", "mixed"):
        for k in keys:
            sc.dn[k][rng.random((ny, nx)) < 0.02] = sc.sat
        sc.dn[keys[-1]][rng.random((ny, nx)) < 0.05] = 0
    if fl1.Scene.void(sc).all():
        for k in keys:
            sc.dn[k][0, 0] = max(int(sc.dn[k].max()), 1)
    return sc, rng


def run_case(case, ctx):
    out = Outcome()
    sc, rng = scene_of(case)
    d = sc.write(ctx.dir)
    label = "LND%02d" % sc.sensor
    out.label(label)
    par = fl1.params(ctx.dir, DO_TILE="FALSE", TIER=case["tier"], NTHREAD=case["thread"])
    mtl = os.path.join(d, sc.name() + "_MTL.txt")
    lines = open(mtl).read().split("\n")
    if case["drop"]:
        # the image data of a band, or one of its coefficients, is not declared
        k = [k for k, dom in sc.bands if dom in fl1.PRODUCT][int(rng.integers(0, 6))]
        tag = ["REFLECTANCE_MULT_BAND_%s", "REFLECTANCE_ADD_BAND_%s", "FILE_NAME_BAND_%s"][int(rng.integers(0, 3))] % k
        lines = [l for l in lines if l.split("=")[0].strip() != tag]
        out.label("incomplete metadata")
    if case["order"]:
        # entries of a group in another order
        i = lines.index("  GROUP = MIN_MAX_RADIANCE") + 1
        j = len(lines) - 3
        body = [l for l in lines[i:j] if "GROUP" not in l]
        lines[i:j] = [body[t] for t in rng.permutation(len(body))] + ["  END_GROUP = MIN_MAX_RADIANCE"]
    with open(mtl, "w") as fp:
        fp.write("\n".join(lines))
    r = fl1.run(ctx.exe("force-l2ps"), ctx.dir, d, par)
    pr = fl1.products(ctx.dir + "/l2")
    out.evals = 1
    tier = 2 if case["datatype"] != "L1TP" or case["category"] == "T2" else 1
    if case["category"] == "RT":
        tier = 3
    if case["drop"]:
        out.nontrivial = 1
        if r.rc == 0 or pr:
            out.fail("incomplete", "%s missing in the metadata: exit %s, %d products" % (tag, r.rc, len(pr)))
        return out
    if tier > case["tier"]:
        out.label("tier too low")
        out.nontrivial = 1
        if pr:
            out.fail("tier", "data of tier %d written though TIER = %d" % (tier, case["tier"]))
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    frame = "%03d%03d" % (sc.path, sc.row)
    f = pr.get((frame, "TOA"))
    if f is None or (frame, "QAI") not in pr:
        out.fail("missing", "products of frame %s: %s" % (frame, sorted(pr)))
        return out
    base = "%04d%02d%02d_LEVEL2_%s_TOA" % (sc.date + (label,))
    if os.path.basename(f).rsplit(".", 1)[0] != base:
        out.fail("name", "%s instead of %s" % (os.path.basename(f), base))
    t, q = F.Raster(f), F.Raster(pr[frame, "QAI"])
    if t.data.shape != (6, sc.ny, sc.nx) or q.data.shape != (1, sc.ny, sc.nx):
        out.fail("shape", "reflectance %s, quality %s, scene %s" % (t.data.shape, q.data.shape, (sc.ny, sc.nx)))
        return out
    gt = (sc.ulx, 30.0, 0.0, sc.uly, 0.0, -30.0)
    for ra in (t, q):
        if not np.allclose(ra.gt, gt, rtol=0, atol=1e-6):
            out.fail("place", "geotransform %s instead of %s" % (ra.gt, gt))
    doms = [(m or {}).get("Domain") for m in t.bandmeta] if t.bandmeta else None
    if doms and any(doms) and doms != fl1.PRODUCT:
        out.fail("bands", "band domains %s" % doms)
    void = sc.void()
    out.evals += int(void.sum())
    out.nontrivial += int(void.sum())
    bad = void & (t.data != -9999).any(0)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("void", "void pixel with reflectance %s (counts %s)" % (t.data[:, i, j].tolist(), {k: int(a[i, j]) for k, a in sc.dn.items()}), [int(i), int(j)])
    bad = void & ((q.data[0] & 1) == 0)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("void quality", "void pixel with quality %d (counts %s)" % (q.data[0, i, j], {k: int(a[i, j]) for k, a in sc.dn.items()}), [int(i), int(j)])
    ok = ~void
    # pixels of the image frame have no slope of their own
    inner = np.zeros_like(ok)
    inner[1:-1, 1:-1] = True
    bad = ok & inner & (t.data == -9999).any(0)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("lost", "valid pixel without reflectance: %s (counts %s)" % (t.data[:, i, j].tolist(), {k: int(a[i, j]) for k, a in sc.dn.items()}), [int(i), int(j)])
    ok &= (t.data != -9999).all(0)
    ref = np.array([sc.scaled(d) for d in fl1.PRODUCT])
    # counts stand for a top-of-atmosphere reflectance up to what 16 bit can hold
    cell = (np.arange(sc.ny)*30//5000)[:, None]*100 + (np.arange(sc.nx)*30//5000)[None, :]
    for c in np.unique(cell):
        m = ok & (cell == c)
        if not m.any():
            continue
        a, b = ref[:, m], t.data[:, m].astype(float)
        w = (b > 30) & (b < 32000)
        out.evals += int(a.size)
        if not w.any():
            continue
        out.nontrivial += int((b > 50).sum())
        # the sun angle is common to the cell; every value (cut to an integer, at most
        # twice) confines its cosine to an interval, and the intervals must share a point
        hi, lo = a[w]/b[w]*1e4*(1+2e-6), a[w]/(b[w]+2.0)*1e4*(1-2e-6)
        i, j = (c//100)*5000/30, (c % 100)*5000/30
        lon, lat = fl1.lonlat(sc.ulx + j*30, sc.uly - i*30, sc.wkt)
        cz = math.cos(fl1.sun_zenith(sc.date, sc.time, lon, lat))
        szen = math.degrees(math.acos(cz))
        top, low = float(hi.min()), float(lo.max())
        if low > top:
            # which values disagree with the majority?
            mu = float(np.median(a[w]/(b[w]+0.7)*1e4))
            n = int(np.argmax(np.maximum(lo-mu, mu-hi)))
            k, n = np.argwhere(w)[n]
            i, j = np.argwhere(m)[n]
            key = sc.key(fl1.PRODUCT[k])
            out.fail("reflectance", "%s is %d, expected %.1f (count %d, gain %.7g, offset %.7g, sun zenith %.2f)" % (
                fl1.PRODUCT[k], b[k, n], a[k, n]/mu*1e4, sc.dn[key][i, j], sc.rmul[key], sc.radd[key], szen), [int(i), int(j)])
            break
        mu = min(max(cz, low), top)
        got = math.degrees(math.acos(max(-1.0, min(1.0, mu))))
        if mu > 1.0001 or abs(got-szen) > 0.2 and abs(mu-cz) > 4e-4:
            out.fail("sun", "reflectance implies a sun zenith of %.3f, the ephemeris says %.3f (%s %s at %.3f, %.3f)" % (got, szen, sc.date, sc.time, lon, lat))
            break
        sat = (a/mu*1e4 > 32766) & (b < 32000)
        if sat.any():
            k, n = np.argwhere(sat)[0]
            out.fail("overflow", "%s is %d, expected %.1f or the largest number" % (fl1.PRODUCT[k], b[k, n], a[k, n]/mu*1e4))
            break
    out.sample = dict(sensor=label, size=[sc.nx, sc.ny], date=sc.date, lat=case["lat"], void=int(void.sum()), first=t.data[:, sc.ny//2, sc.nx//2].tolist())
    return out
