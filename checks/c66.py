"""Surface reflectance follows the atmosphere, the terrain and the viewing geometry that were given."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
import fl1
from harness import Outcome

ID = "C66"
RULE = ("a case is a synthetic Landsat scene corrected for a given aerosol load, water vapour, elevation or slope, with and without multiple scattering, adjacency, terrain and directional correction; "
        "one evaluation = one band of one pixel compared with the radiative transfer model or with the paired run; distinct non-trivial = compared values that the correction changes by more than 20 units (0.002)")
TIERS = {"quick": dict(examples=1500, budget=35), "thorough": dict(examples=6000, budget=80)}
ASSUMPTIONS = ["the gaseous transmittance of a band is not modelled: one factor per band and run is estimated from the run itself, and must lie between 0.4 and 1.01",
               "apart from the wide scenes, scenes are a few kilometres wide and the view is within 0.2 degrees of nadir; in wide scenes (up to 270 km) the angles come from a grid of 5 km: the view zenith is accepted within 5.2 km plus 1.5 pixels of the ground distance",
               "the correction is made in single precision and truncated: values within 4 units (0.0004) plus 0.3 % plus the effect of the rounded wavelength and of 0.6 % of the path reflectance (the view is not exactly nadir) are accepted as equal"]
NOMINAL = dict(BLUE=0.48, GREEN=0.56, RED=0.66, NIR=0.85, SWIR1=1.63, SWIR2=2.21)
COARSE, COARSE2 = 0.003, 0.006     # the angles come from a grid of 5 km
ROY = dict(BLUE=(0.0774, 0.0372, 0.0079), GREEN=(0.1306, 0.0580, 0.0178), RED=(0.1690, 0.0574, 0.0227),
           NIR=(0.3093, 0.1535, 0.0330), SWIR1=(0.3430, 0.1154, 0.0453), SWIR2=(0.2658, 0.0639, 0.0387))


@st.composite
def strategy_(draw, tier):
    return dict(mode=draw(st.sampled_from(["slope", "adj", "wide", "brdf", "flat", "slope", "lut", "wvp", "wide"])),
                sensor=draw(st.sampled_from([8, 5, 7, 9, 4])), nx=draw(st.integers(20, 110)), ny=draw(st.integers(20, 110)), seed=draw(st.integers(0, 2**31)),
                zone=draw(st.sampled_from([33, 30, 21, 48, -19, -34])), y=draw(st.integers(10, 75)), month=draw(st.integers(1, 12)), day=draw(st.integers(1, 28)),
                hour=draw(st.integers(-150, 150)), multi=draw(st.booleans()), lna=draw(st.integers(-400, -60)), ang=draw(st.integers(-220, -20)), curve=draw(st.integers(-30, 30)),
                wvp=draw(st.integers(0, 50)), dz=draw(st.integers(0, 4000)), dem=draw(st.booleans()), cover=draw(st.integers(0, 4)), uniform=draw(st.sampled_from([False, True])),
                slope=draw(st.integers(1, 60)), aspect=draw(st.integers(0, 359)), nlut=draw(st.integers(1, 12)), res=draw(st.sampled_from([2000, 2500, 1250, 1000, 500, 2500])), slant=draw(st.integers(0, 40)), daily=draw(st.sampled_from(["yes", "nodata", "far", "no"])))


def strategy(tier):
    return strategy_(tier)


COVER = [[], [("soil", 4, 12)], [("water", 2, 12), ("soil", 3, 9)], [("soil", 5, 10), ("cloud", 2, 6)], [("water", 1, 8), ("snow", 2, 8)]]


def phase(cospsi):
    g1, g2, al = 0.801, 0.580, 0.948
    pa = al*(1-g1*g1)/(1+g1*g1-2*g1*cospsi)**1.5 + (1-al)*(1-g2*g2)/(1+g2*g2+2*g2*cospsi)**1.5
    return pa, 0.75*(1+cospsi**2), 3*(al*(g1+g2)-g2)


def atmosphere(wvl, aod, z, mus, muv, cospsi, multi):
    """path reflectance, transmittances and spherical albedo of one band (Tanre 1979, Sobolev 1975)"""
    mod = 0.0088*wvl**(-4.15+0.2*wvl)*np.exp(-0.1188*z-0.0016*z*z)
    od = aod+mod
    pa, pr, sob = phase(cospsi)
    ts, tv = (np.exp(-(0.52*mod+0.167*aod)/m) for m in (mus, muv))
    tsd, tvd = np.exp(-od/mus), np.exp(-od/muv)
    if multi:
        xav = sob*aod/od
        ph = (aod*pa+mod*pr)/od
        rv, rs = (1+1.5*m+(1-1.5*m)*np.exp(-od/m) for m in (muv, mus))
        rho = 1-rv*rs/(4+(3-xav)*od) + ((3+xav)*mus*muv-2*(mus+muv)+ph)*(1-np.exp(-od*(1/mus+1/muv)))/(mus+muv)/4
    else:
        rho = (aod*pa+mod*pr)/(4*mus*muv)
    s = np.exp(-od)*(0.92*mod+0.333*aod)
    return dict(rho=rho, T=ts*tv, Ts=ts, Tv=tv, tsd=tsd, tvd=tvd, s=s)


def invert(a, toa, tg):
    x = (toa-a["rho"])/tg
    return x/(a["T"]+a["s"]*x)


def kernels(ti, tv, phi):
    """RossThick and LiSparse-Reciprocal (h/b 2, b/r 1)"""
    cxi = np.cos(ti)*np.cos(tv)+np.sin(ti)*np.sin(tv)*np.cos(phi)
    xi = np.arccos(np.clip(cxi, -1, 1))
    ross = ((math.pi/2-xi)*cxi+np.sin(xi))/(np.cos(ti)+np.cos(tv))-math.pi/4
    sec = 1/np.cos(ti)+1/np.cos(tv)
    d2 = np.tan(ti)**2+np.tan(tv)**2-2*np.tan(ti)*np.tan(tv)*np.cos(phi)
    ct = 2*np.sqrt(np.maximum(0, d2)+(np.tan(ti)*np.tan(tv)*np.sin(phi))**2)/sec
    t = np.arccos(np.clip(ct, -1, 1))
    o = np.maximum(0, (t-np.sin(t)*np.cos(t))*sec/math.pi)
    return ross, o-sec+0.5*(1+cxi)/np.cos(ti)/np.cos(tv)


def brdf(dom, ti, tv, phi):
    r, l = kernels(ti, tv, phi)
    i, v, g = ROY[dom]
    return i+v*r+g*l


def standard_zenith(date, lon, lat):
    """sun zenith at the mean overpass time of Landsat and Sentinel-2"""
    t = 0
    for inc, eq in ((98.2, 10.18333333), (98.62, 10.5)):
        t += (eq-math.degrees(math.asin(math.tan(math.radians(lat))/math.tan(math.radians(inc))))/15)/2
    gmt = t-lon/15
    return sun(date, (gmt, 0, 0), lon, lat)[0]


def sun(date, time, lon, lat):
    """zenith with refraction, azimuth [rad]"""
    z, a = fl1.sun_position(date, time, lon, lat)
    el = math.pi/2-z
    if 5 < math.degrees(el) < 85:
        te = math.tan(el)
        z -= math.radians((58.1/te-0.07/te**3+0.000086/te**5)/3600)
    return z, a


def spread(f, ny, nx):
    """a smooth function of row and column, evaluated at 7 x 7 nodes and interpolated"""
    n = 7
    r, c = np.linspace(0, ny-1, n), np.linspace(0, nx-1, n)
    v = np.array([[f(i, j) for j in c] for i in r])
    v = np.stack([np.interp(np.arange(nx), c, row) for row in v.reshape(n, n, -1).transpose(0, 2, 1).reshape(-1, n)]).reshape(n, -1, nx)
    return np.stack([[np.interp(np.arange(ny), r, v[:, k, j]) for j in range(nx)] for k in range(v.shape[1])]).transpose(0, 2, 1)


def geometry(sc, foot, wkt, date, time):
    """angles of a wide scene: the sensor flies 705 km above the line between the midpoints of the upper and the lower edge"""
    def at(i, j):
        lo, la = fl1.lonlat(sc.ulx+(j+0.5)*sc.res, sc.uly-(i+0.5)*sc.res, wkt)
        z, a = sun(date, time, lo, la)
        return z, math.sin(a), math.cos(a), standard_zenith(date, lo, la)
    szen, sa, ca, std = spread(at, sc.ny, sc.nx)
    sazi = np.arctan2(sa, ca)
    r, c = np.nonzero(foot)
    top, bot = c[r == r.min()].mean(), c[r == r.max()].mean()
    yy, xx = np.mgrid[:sc.ny, :sc.nx].astype(float)
    h = float(r.max()-r.min())
    left = (top+(bot-top)*(yy-r.min())/h-xx)*sc.res*h/math.hypot(h, top-bot)      # > 0: left of the track
    vzen = np.arctan2(np.abs(left), 705000.0)
    p = [fl1.lonlat(sc.ulx+x*sc.res, sc.uly-y*sc.res, wkt) for x, y in ((top, r.min()), (bot, r.max()))]
    head = math.atan2(p[0][0]-p[1][0], p[0][1]-p[1][1])
    vazi = head+np.where(left > 0, math.pi/2, -math.pi/2)
    mus, muv = np.cos(szen), np.cos(vzen)
    psi = -mus*muv-np.sin(szen)*np.sin(vzen)*np.cos(vazi-sazi)
    return dict(szen=szen, sazi=sazi, vzen=vzen, vazi=vazi, standard=std, cosines=(mus, muv, psi))


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng([case["seed"], 66])
    mode = case["mode"]
    # where and when
    zone = case["zone"]
    north = zone > 0
    x0 = float(rng.integers(12000, 24000))*30
    lat0 = case["y"] if north else -case["y"]*0.7
    s = fl1.utm_wkt(zone)
    geo = fl1.osr.SpatialReference(); geo.ImportFromEPSG(4326)
    lonc = (abs(zone)-1)*6-180+3
    y0 = round(fl1.transform([(lonc, lat0)], geo.ExportToWkt(), s)[0][1]/30)*30.0
    lon, lat = fl1.lonlat(x0, y0, s)
    date = (2018, case["month"], case["day"])
    utc = 10.2+case["hour"]/100-lon/15
    if not 1 < utc < 22.9:
        utc = 12.0-lon/15 if 1 < 12.0-lon/15 < 22.9 else 2.5
    hh = int(utc); mm = int((utc-hh)*60)
    time = (hh, mm, round(((utc-hh)*60-mm)*60, 1))
    z, az = sun(date, time, lon, lat)
    if math.degrees(z) > 72:
        case_month = 6 if north else 12
        date = (2018, case_month, case["day"])
        z, az = sun(date, time, lon, lat)
        if math.degrees(z) > 72:
            out.label("sun too low")
            return out
    wide = mode == "wide"
    sc = fl1.Scene(case["sensor"], case["nx"], case["ny"], x0, y0, zone, date=date, time=time)
    if wide:
        sc.res = float(case["res"])
    if mode == "adj" and case["uniform"]:
        cls = np.full((sc.ny, sc.nx), rng.choice(["veg", "soil"]), dtype=object)
        fl1.fill(sc, rng, cls, 0.0)
        for k, d in sc.bands:
            sc.dn[k] = np.full_like(sc.dn[k], int(np.median(sc.dn[k])))
    else:
        fl1.natural(sc, rng, COVER[case["cover"]], noise=0.1)
    if wide:
        # the footprint leans to the right, as that of a descending orbit
        foot = np.zeros((sc.ny, sc.nx), bool)
        lean = min(case["slant"]/100, 0.5*sc.nx/sc.ny)
        w = sc.nx-int(lean*(sc.ny-1))
        for i in range(sc.ny):
            a = int(lean*(sc.ny-1-i))
            foot[i, a:a+w] = True
        for k, _ in sc.bands:
            sc.dn[k][~foot] = 0
    d = sc.write(ctx.dir)
    if wide:
        lon, lat = fl1.lonlat(x0+sc.nx*sc.res/2, y0-sc.ny*sc.res/2, s)
    else:
        lon, lat = fl1.lonlat(x0+min(5000, sc.nx*30)/2, y0-min(5000, sc.ny*30)/2, s)
    z, az = sun(date, time, lon, lat)
    mus = math.cos(z)
    # aerosol table: sites, the nearest one counts
    a0, a1, a2 = case["lna"]/100, case["ang"]/100, case["curve"]/100
    os.makedirs(ctx.dir + "/aod")
    doy = (np.datetime64("%04d-%02d-%02d" % date)-np.datetime64("2018-01-01")).astype(int)+1
    sites = [(lon+0.05, lat-0.05, a0, a1, a2)]
    for _ in range(0 if wide else case["nlut"]-1):
        dx, dy = rng.uniform(1.0, 20)*rng.choice([-1, 1]), rng.uniform(1.0, 10)*rng.choice([-1, 1])
        sites.append((lon+dx, lat+dy, rng.uniform(-4, -0.5), rng.uniform(-2, 0), rng.uniform(-0.3, 0.3)))
    rng.shuffle(sites)
    for k in range(1, 367):
        with open(ctx.dir + "/aod/AOD_%03d.txt" % k, "w") as fp:
            for st_ in (sites if k == doy else [(lon, lat, -5.0 + (k % 7)*0.5, -1.2, 0.0)]):
                fp.write("%.4f %.4f %.4f %.4f %.4f\n" % tuple(st_))
    # water vapour
    wv = case["wvp"]/10
    vapor = dict(WATER_VAPOR="%.1f" % wv)
    if mode == "lut":
        os.makedirs(ctx.dir + "/wvp")
        clim = round(float(rng.uniform(0.2, 4)), 3)
        far = round(float(rng.uniform(0.2, 4)), 3)
        day = round(float(rng.uniform(0.2, 4)), 3)
        for m in range(1, 13):
            with open(ctx.dir + "/wvp/WVP_0000-%02d-00.txt" % m, "w") as fp:
                rows = [(lon+0.3, lat, clim if m == date[1] else far, "30"), (lon-0.9, lat+0.7, far, "30"), (lon+7, lat-3, far, "12")]
                fp.write("".join("%.4f %.4f %.3f %s\n" % r for r in rows))
        wv = clim
        if case["daily"] != "no":
            with open(ctx.dir + "/wvp/WVP_%04d-%02d-%02d.txt" % date, "w") as fp:
                off = 2.5 if case["daily"] == "far" else 0.2
                val, src = (9999, "TBD") if case["daily"] == "nodata" else (day, "MOD")
                fp.write("%.4f %.4f %.3f %s\n%.4f %.4f %.3f %s\n" % (lon-8, lat+1, far, "MYD", lon+off, lat-0.1, val, src))
            if case["daily"] == "yes":
                wv = day
        other = "%04d-%02d-%02d" % (date[0], date[1], date[2] % 28 + 1)
        with open(ctx.dir + "/wvp/WVP_%s.txt" % other, "w") as fp:
            fp.write("%.4f %.4f %.3f %s\n" % (lon, lat, far, "MOD"))
        vapor = dict(DIR_WVPLUT=ctx.dir + "/wvp", WATER_VAPOR="NULL")
    # terrain
    zkm = 0.0
    dem = {}
    sl, asp = 0.0, 0.0
    if mode in ("slope", "flat") or case["dem"] and not wide:
        pad = 25
        base = case["dz"]
        yy, xx = np.mgrid[-pad:sc.ny+pad, -pad:sc.nx+pad].astype(float)
        if mode == "slope":
            sl, asp = math.radians(case["slope"]), math.radians(case["aspect"])
            # the surface falls towards the aspect (clockwise from north)
            h = -math.tan(sl)*(xx*30*math.sin(asp)-yy*30*math.cos(asp))
            h = h-h.min()+10+base/4
        else:
            h = np.full(yy.shape, float(base+1))
        if h.max() > 8500:
            out.label("too steep")
            return out
        F.write_raster(ctx.dir + "/dem.tif", h[None].astype("float32"), (x0-pad*30, 30, 0, y0+pad*30, 0, -30), s, -32767, "float32")
        dem = dict(FILE_DEM=ctx.dir + "/dem.tif", DEM_NODATA=-32767)
        hs = h[pad:-pad, pad:-pad]/1000
        zkm = float(hs.mean())
    exe = ctx.exe("force-l2ps")

    def go(name, **kw):
        root = os.path.join(ctx.dir, name)
        os.makedirs(root)
        p = fl1.params(root, **dict(dict(DO_TILE="FALSE", NTHREAD=1, OUTPUT_HOT="FALSE", OUTPUT_DST="FALSE", OUTPUT_VZN="TRUE" if wide else "FALSE", OUTPUT_AOD="TRUE", OUTPUT_WVP="TRUE",
                                         DO_AOD="FALSE", DIR_AOD=ctx.dir + "/aod", **vapor, **dem), **kw))
        r = fl1.run(exe, root, d, p)
        if r.rc != 0:
            out.fail("exit", "%s: exit %s %s" % (name, r.rc, r.tail()))
            return None
        return {k[1]: F.Raster(v) for k, v in fl1.products(root + "/l2").items()}

    M = dict(MULTI_SCATTERING="TRUE" if case["multi"] else "FALSE")
    T0 = go("toa", DO_ATMO="FALSE")
    A0 = go("boa", DO_ATMO="TRUE", **M) if T0 else None
    if not A0:
        return out
    if "TOA" not in T0 or "BOA" not in A0:
        out.fail("products", "%s / %s" % (sorted(T0), sorted(A0)))
        return out
    toa, boa = T0["TOA"].data.astype(float), A0["BOA"].data.astype(float)
    qai = A0["QAI"].data[0].astype(int)
    ok = np.ones(qai.shape, bool)
    ok[0], ok[-1], ok[:, 0], ok[:, -1] = False, False, False, False
    ok &= (qai & 1) == 0
    ok &= (toa != -9999).all(0)
    if ok.sum() < 20:
        out.label("few pixels")
        return out
    for l in (mode, "multi" if case["multi"] else "single", "dem" if dem else "sea level"):
        out.label(l)
    co = [float("%.4f" % v) for v in (a0, a1, a2)]
    wl = []
    for i, dom in enumerate(fl1.PRODUCT):
        m = A0["BOA"].bandmeta[i] if hasattr(A0["BOA"], "bandmeta") else {}
        w = float(m.get("Wavelength", NOMINAL[dom]))
        wl.append(w)
        if abs(w-NOMINAL[dom]) > 0.06:
            out.fail("wavelength", "%s: %g um" % (dom, w))
            return out
    muv = 1.0
    depth = lambda w: math.exp(co[0])*w**(co[1]+co[2]*math.log(w))
    # the product gives wavelengths with three digits only
    zp = hs[ok] if mode == "slope" else zkm
    geom = (mus, muv, -mus*muv)
    air = np.ones(int(ok.sum()))
    if wide:
        S = geometry(sc, foot, s, date, time)
        geom = tuple(v[ok] for v in S["cosines"])
        air = 1/geom[0]+1/geom[1]
        air = air/np.median(air)
        got = A0["VZN"].data[0][ok]/100
        df = np.abs(got-np.degrees(S["vzen"][ok]))
        tol = 0.03+math.degrees(math.atan((5200+1.5*sc.res)/705000))
        out.evals += int(ok.sum()); out.nontrivial += int((got > 2*tol).sum())
        out.label("view to %d" % got.max())
        if (df > tol).any():
            j = int(np.argmax(df))
            i = np.argwhere(ok)[j]
            out.fail("view", "view zenith %.2f instead of %.2f at pixel %s (%g m, %dx%d)" % (got[j], math.degrees(S["vzen"][ok][j]), i.tolist(), sc.res, sc.nx, sc.ny), i.tolist())
    near = [[atmosphere(w+dw, depth(w+dw), zp, *geom, case["multi"]) for dw in (-0.00055, 0, 0.00055)] for w in wl]
    atm = [atmosphere(w, depth(w), zkm, mus, muv, -mus*muv, case["multi"]) for w in wl]
    aod = [depth(w) for w in wl]

    # products of what was used
    got = A0["AOD"].data[0][ok]
    exp = aod[1]*1000
    relief = float(hs.max()-hs.min()) if mode == "slope" else 0.0      # a scale height of 1000 km
    if (np.abs(got-exp) > 1.5+(0.002+relief/1000)*exp).any():
        out.fail("aod", "aerosol product %d..%d instead of %.1f" % (got.min(), got.max(), exp))
    got = A0["WVP"].data[0][ok]
    if (np.abs(got-wv*1000) > 1.5).any():
        out.fail("vapour", "water vapour product %s instead of %.1f" % (np.unique(got)[:3], wv*1000))
    if (((qai[ok] >> 6) & 3) != 3).any():
        out.fail("flag", "aerosol state %s where the aerosol was given from outside" % np.unique((qai[ok] >> 6) & 3))

    # the model, one gas factor per band
    tgs = []
    for i, dom in enumerate(fl1.PRODUCT):
        t, b = toa[i][ok]/1e4, boa[i][ok]/1e4
        a = near[i][1]
        use = (t-a["rho"] > 0.03) & (b < 1.2) & (b > 0.02)
        if use.sum() < 10:
            tgs.append(None)
            continue
        # b (T + s x) = x  ->  x = b T / (1 - b s), tg = (t - rho)/x
        es = []
        for v in near[i]:
            x = b*v["T"]/(1-b*v["s"])
            tg = float(np.median(((t-v["rho"])/np.where(use, x, 1))[use]))
            # more air, more gas
            es.append((tg, invert(v, t, max(tg, 1e-3)**air)*1e4))
        tg = es[1][0]
        tgs.append(tg)
        if min(v[0] for v in es) > 1.01 or tg < 0.4:
            out.fail("gas", "%s: transmittance of the gases %.4f" % (dom, tg))
            continue
        if dom in ("SWIR1", "SWIR2") and wv == 0 and max(v[0] for v in es) < 0.99:
            out.fail("gas", "%s: transmittance of the gases %.4f without water vapour" % (dom, tg))
        e = es[1][1]
        tol = 4+0.003*np.abs(e)+0.006*a["rho"]/a["T"]*1e4+np.maximum(np.abs(es[0][1]-e), np.abs(es[2][1]-e))
        if wide:
            tol = tol+e*np.abs(np.log(max(tg, 1e-3))*(air-1))*0.5+COARSE*np.abs(e)+COARSE2*a["rho"]/a["T"]*1e4
        bad = (np.abs(e-boa[i][ok]) > tol) & (e > -9000) & (e < 32000)
        out.evals += int(bad.size)
        out.nontrivial += int((np.abs(e-toa[i][ok]) > 20).sum())
        if bad.any():
            j = int(np.argmax(np.abs(e-boa[i][ok])-tol))
            out.fail("model", "%s: top of atmosphere %d gives %d instead of %.1f (aerosol %.3f, path %.4f, T %.4f, s %.4f, gas %.4f; %d of %d)" % (
                dom, toa[i][ok][j], boa[i][ok][j], e[j], aod[i], np.mean(a["rho"]), np.mean(a["T"]), np.mean(a["s"]), tg, bad.sum(), bad.size))
    # flags of values out of range
    sub = F.qai_get(qai, "subzero")
    neg = (boa < -2).any(0) & ok
    low = (boa >= 0).all(0) & (boa > 1).all(0) & ok
    if (sub[neg] == 0).any():
        out.fail("subzero", "negative reflectance without its flag")
    if (sub[low] == 1).any():
        out.fail("subzero", "flag of negative reflectance at positive values")
    out.evals += 2*int(ok.sum())
    if out.fails:
        return out
    good = np.stack([ok & (toa[i]/1e4-atm[i]["rho"] > 0.02) & (boa[i] > 200) & (boa[i] < 15000) for i in range(6)])

    ok0 = ok.copy()

    def common(B):
        """restrict the comparison to pixels present in both runs; a pixel vanishes only if its reflectance gets below -1"""
        gone = ok & ((B["QAI"].data[0].astype(int) & 1) == 1)
        if (gone & (boa.min(0) > -6000)).any():
            i, j = np.argwhere(gone & (boa.min(0) > -6000))[0]
            out.fail("gone", "pixel %d,%d with %s is not in the second run" % (i, j, boa[:, i, j].tolist()), [int(i), int(j)])
        ok[gone] = False
        good[:, gone] = False

    def ratio(B, i):
        g = good[i]
        if g.sum() < 10:
            return None
        return np.median(B["BOA"].data[i][g].astype(float)/boa[i][g])

    if wide:
        B = go("brdf", DO_ATMO="TRUE", DO_BRDF="TRUE", **M)
        if B is None:
            return out
        common(B)
        for i, dom in enumerate(fl1.PRODUCT):
            g = good[i]
            if not g.any():
                continue
            e = (brdf(dom, S["standard"], 0, 0)/brdf(dom, S["szen"], S["vzen"], S["sazi"]-S["vazi"]))[g]
            r = B["BOA"].data[i][g]/boa[i][g]
            out.evals += int(g.sum()); out.nontrivial += int((np.abs(e-1) > 0.02).sum())
            bad = np.abs(r-e) > 0.006+6/boa[i][g]
            if bad.any():
                j = int(np.argmax(np.abs(r-e)))
                out.fail("brdf", "%s: factor %.4f instead of %.4f (sun %.2f, standard %.2f, view %.2f, difference of azimuths %.1f)" % (
                    dom, r[j], e[j], *(math.degrees(v[g][j]) for v in (S["szen"], S["standard"], S["vzen"], S["sazi"]-S["vazi"]))))
                break
    elif mode == "wvp":
        hi = go("wet", DO_ATMO="TRUE", WATER_VAPOR="%.1f" % (wv+2.0), **M)
        if hi is None:
            return out
        common(hi)
        for i, dom in enumerate(fl1.PRODUCT):
            g = good[i]
            df = (hi["BOA"].data[i].astype(float)-boa[i])[g]
            out.evals += int(g.sum())
            if (df < -1).any():
                out.fail("wetter", "%s: more water vapour lowers the reflectance by %d" % (dom, -df.min()))
            if dom in ("SWIR1", "SWIR2", "NIR") and g.sum() > 10 and (boa[i][g] > 1500).any():
                df = df[boa[i][g] > 1500]
                out.nontrivial += int((df > 0).sum())
                if (df <= 0).all():
                    out.fail("wetter", "%s: more water vapour changes nothing" % dom)
        if (np.abs(hi["WVP"].data[0][ok]-(wv+2)*1000) > 1.5).any():
            out.fail("vapour", "water vapour product")
    elif mode == "brdf":
        B = go("brdf", DO_ATMO="TRUE", DO_BRDF="TRUE", **M)
        if B is None:
            return out
        common(B)
        zs = standard_zenith(date, lon, lat)
        for i, dom in enumerate(fl1.PRODUCT):
            r = ratio(B, i)
            if r is None:
                continue
            out.evals += int(good[i].sum()); out.nontrivial += int(good[i].sum())*(abs(r-1) > 0.002)
            e = brdf(dom, zs, 0, 0)/brdf(dom, z, 0, 0)
            if abs(r-e) > 0.006:
                out.fail("brdf", "%s: factor %.4f instead of %.4f (sun %.2f, standard %.2f)" % (dom, r, e, math.degrees(z), math.degrees(zs)))
            rr = B["BOA"].data[i][good[i]].astype(float)
            if (np.abs(rr-boa[i][good[i]]*e) > 4+0.006*rr).any():
                out.fail("brdf", "%s: factor not the same for all pixels" % dom)
    elif mode == "adj":
        B = go("adj", DO_ATMO="TRUE", ADJACENCY_EFFECT="TRUE", **M)
        if B is None:
            return out
        common(B)
        clear = ((qai & 1) == 0) & (((qai >> 1) & 3) == 0)
        holes = not (clear.any(0).all() and clear.any(1).all())
        for i, dom in enumerate(fl1.PRODUCT):
            a, tg = atm[i], tgs[i]
            if tg is None or good[i].sum() < 10:
                continue
            g = good[i]
            t, b = toa[i][g]/1e4, B["BOA"].data[i][g].astype(float)/1e4
            src = boa[i][ok]/1e4
            lo, hi = src.min(), src.max()
            if holes:       # nothing clear in a row or column: the surroundings start from 0 there
                lo = min(lo, 0)
            f = lambda k: ((t/tg-a["rho"])*(1-k*a["s"])-a["Ts"]*(a["Tv"]-a["tvd"])*k)/(a["Ts"]*a["tvd"])
            tol = 0.0012+0.008*np.abs(b)
            out.evals += int(g.sum()); out.nontrivial += int((np.abs(b*1e4-boa[i][g]) > 20).sum())
            bad = (b > f(lo)+tol) | (b < f(hi)-tol)
            if bad.any():
                j = int(np.argmax(np.maximum(b-f(lo), f(hi)-b)))
                out.fail("adjacency", "%s: %.4f outside %.4f..%.4f, what surroundings of %.4f..%.4f allow" % (dom, b[j], f(hi)[j], f(lo)[j], lo, hi))
            elif hi-lo > 0.15 and not holes:
                # the weight of the surroundings: bright pixels get brighter than dark ones
                k = (t/tg-a["rho"]-b*a["Ts"]*a["tvd"])/((t/tg-a["rho"])*a["s"]+a["Ts"]*(a["Tv"]-a["tvd"]))
                w = a["Ts"]*(a["Tv"]-a["tvd"])
                if w > 0.05 and np.std(k) > np.std(src)*1.05:
                    out.fail("adjacency", "%s: the surroundings vary more (%.4f) than the scene (%.4f)" % (dom, np.std(k), np.std(src)))
    elif mode == "flat":
        B = go("topo", DO_ATMO="TRUE", DO_TOPO="TRUE", **M)
        if B is None:
            return out
        common(B)
        g = ok[None] & (np.abs(boa) < 20000)
        df = np.abs(B["BOA"].data.astype(float)-boa)
        out.evals += int(g.sum()); out.nontrivial += int(g.sum())
        bad = (df > 2+0.001*np.abs(boa)) & g
        if bad.any():
            b, i, j = [int(v[0]) for v in np.nonzero(bad)]
            out.fail("flat", "flat terrain of %.0f m: %s of pixel %d,%d changes from %d to %d" % (zkm*1000, fl1.PRODUCT[b], i, j, boa[b, i, j], B["BOA"].data[b, i, j]), [i, j])
        cls_ = 0 if mus > 0.5735764 else 1 if mus > 0.1736482 else 2
        if abs(mus-0.5735764) > 0.002 and abs(mus-0.1736482) > 0.002:
            v = (B["QAI"].data[0].astype(int)[ok] >> 11) & 3
            if (v != cls_).any():
                out.fail("illumination", "class %s instead of %d at flat terrain" % (np.unique(v), cls_))
        if ((B["QAI"].data[0].astype(int)[ok] >> 13) & 1).any():
            out.fail("slope", "slope flag at flat terrain")
    elif mode == "slope":
        B = go("topo", DO_ATMO="TRUE", DO_TOPO="TRUE", **M)
        if B is None:
            return out
        common(B)
        ci = mus*math.cos(sl)+math.sin(z)*math.sin(sl)*math.cos(az-asp)
        q = B["QAI"].data[0].astype(int)
        ill, slp = (q[ok] >> 11) & 3, (q[ok] >> 13) & 1
        e = 0 if ci > 0.5735764 else 1 if ci > 0.1736482 else 2 if ci > 0 else 3
        out.evals += 2*int(ok.sum())
        if min(abs(ci-v) for v in (0.5735764, 0.1736482, 0)) > 0.01 and (ill != e).any():
            out.fail("illumination", "slope %d towards %d, sun %.1f at %.1f (cosine %.3f): class %s instead of %d" % (
                case["slope"], case["aspect"], math.degrees(z), math.degrees(az), ci, np.unique(ill), e))
        if abs(case["slope"]-2) > 0.2 and (slp != (case["slope"] > 2)).any():
            out.fail("slope", "slope flag %s at %d degrees" % (np.unique(slp), case["slope"]))
        out.label("lit" if ci > 0 else "unlit")
        rs = []
        for i, dom in enumerate(fl1.PRODUCT):
            g = good[i]
            if g.sum() < 10:
                rs.append(None)
                continue
            r = B["BOA"].data[i][g].astype(float)/boa[i][g]
            rs.append(float(np.median(r)))
            tol = 0.012+4/boa[i][g]
            out.evals += int(g.sum())
            if ci < -0.01:
                bad = np.abs(r-1) > tol
                what = "1 (no direct light)"
            elif ci > 0.02:
                sky = 1-sl/math.pi
                lo, hi = min(1, mus/ci), max(mus/ci, 1/sky)
                bad = (r < lo*(1-tol)) | (r > hi*(1+tol))
                what = "%.3f..%.3f" % (lo, hi)
                out.nontrivial += int(g.sum())*(abs(mus/ci-1) > 0.02)
            else:
                continue
            if bad.any():
                out.fail("terrain", "%s: factor %.4f, expected %s (slope %d towards %d, cosine %.3f, sun %.3f)" % (dom, float(r[bad][0]), what, case["slope"], case["aspect"], ci, mus))
        if ci > 0.02 and good[5].sum() > 10 and not out.fails:
            # the part of the sky light in the infrared explains the factor of the other bands
            sky = 1-sl/math.pi
            r5 = B["BOA"].data[5].astype(float)/np.where(good[5], boa[5], 1)
            f = [np.broadcast_to((v["Ts"]-v["tsd"])/v["tsd"], qai[ok0].shape)[ok[ok0]] for v in (n[1] for n in near)]
            for i, dom in enumerate(fl1.PRODUCT[:5]):
                g = good[i] & good[5]
                if g.sum() < 10:
                    continue
                A = []
                rb = (f[i]/f[5])[g[ok]]
                for e in (-1, 1):
                    v = r5[g]*(1+e*(0.004+3/boa[5][g]))
                    den = v*sky-1
                    k = (mus-v*ci)/np.where(np.abs(den) < 1e-6, 1e-6, den)
                    k = np.where((k < 0) | (k > 50), np.nan, k)
                    A.append((mus+k*rb)/(ci+sky*k*rb))
                lo, hi = np.fmin(*A), np.fmax(*A)
                r = B["BOA"].data[i][g].astype(float)/boa[i][g]
                tol = 0.006+3/boa[i][g]
                sure = np.isfinite(A[0]) & np.isfinite(A[1])
                bad = sure & ((r < lo*(1-tol)) | (r > hi*(1+tol)))
                out.evals += int(sure.sum()); out.nontrivial += int((sure & (hi-lo < 0.05) & (np.abs(r-r5[g]) > 0.02)).sum())
                if bad.any():
                    j = int(np.nonzero(bad)[0][0])
                    out.fail("spectrum", "%s: factor %.4f instead of %.4f..%.4f, when it is %.4f in the short-wave infrared (cosine %.3f, sun %.3f)" % (dom, r[j], lo[j], hi[j], r5[g][j], ci, mus))
                    break
    out.sample = dict(mode=mode, sun=round(math.degrees(z), 1), aerosol=round(aod[1], 3), vapour=wv, km=round(zkm, 2), gas=[round(t, 3) if t else None for t in tgs])
    return out
