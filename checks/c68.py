"""Sentinel-2 granules: reflectance, quality, view angles and resolution merge."""
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

import fcube as F
import fl1
import fs2
from harness import Outcome

ID = "C68"
RULE = ("a case is a synthetic Sentinel-2 granule (satellite, both naming conventions, scale and band offsets, place, time, view angle grids of several detectors; void, saturated and unseen parts; surfaces and clouds), "
        "processed uncut, with one of the four resolution merge options, and partly also cut into tiles; one evaluation = one band of one pixel; distinct non-trivial = valid pixels of the 10 m bands, and "
        "merged pixels of the 20 m bands that differ from the coarse input")
TIERS = {"quick": dict(examples=1500, budget=32), "thorough": dict(examples=6000, budget=85)}
ASSUMPTIONS = ["values are cut to integers up to twice: reflectance may be 2 below the expected value; merged values may differ by 4, and 1 % of the merged pixels may differ more (similarity thresholds decided in single precision)",
               "regression is judged where the 5 x 5 neighbourhood is complete"]


@st.composite
def strategy_(draw, tier):
    cells = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4]))
    n = draw(st.integers(10, 40)) if cells == 1 else draw(st.integers((cells-1)*500//6+2, min(cells*500//6, (cells-1)*500//6+40)))
    return dict(n=6*n, seed=draw(st.integers(0, 2**31)), letter=draw(st.sampled_from("ABCD")), long=draw(st.booleans()),
                quant=draw(st.sampled_from([10000, 10000, 10000, 1000])), offset=draw(st.sampled_from(["none", "same", "bands"])),
                merge=draw(st.sampled_from(["NONE", "REGRESSION", "IMPROPHE", "STARFM", "REGRESSION", "IMPROPHE", "STARFM"])), cover=draw(st.integers(0, 5)),
                void=draw(st.sampled_from(["none", "none", "edge", "band", "patch"])), sat=draw(st.booleans()), unseen=draw(st.booleans()),
                zone=draw(st.integers(1, 60)), y=draw(st.integers(1500, 6500)), month=draw(st.integers(3, 9)), day=draw(st.integers(1, 28)), year=draw(st.integers(2015, 2030)),
                thread=draw(st.sampled_from([1, 2, 4])), tile=draw(st.sampled_from([False, False, True])), ts=draw(st.integers(20, 120)))


def strategy(tier):
    return strategy_(tier)


#            UB    B     G     R     RE1   RE2   RE3   BNIR  NIR   VAP   CIR   S1    S2
SURFACE = {
    "veg":   (.060, .050, .060, .040, .090, .220, .280, .290, .300, .100, .0010, .150, .070),
    "soil":  (.090, .085, .105, .135, .160, .180, .200, .215, .225, .090, .0010, .280, .240),
    "water": (.050, .042, .035, .020, .015, .012, .011, .010, .010, .006, .0010, .005, .003),
    "cloud": (.450, .450, .450, .460, .470, .480, .490, .500, .500, .200, .0060, .400, .300),
    "snow":  (.720, .700, .700, .680, .660, .640, .620, .600, .600, .200, .0010, .080, .050),
    "crop":  (.075, .070, .095, .080, .140, .260, .330, .360, .370, .120, .0010, .220, .130),
}
COVER = [[("crop", 6, 12)], [("soil", 5, 9), ("crop", 5, 7)], [("water", 3, 12), ("crop", 4, 6)], [("cloud", 2, 9), ("soil", 4, 8)], [("crop", 30, 3), ("soil", 30, 2)], [("snow", 2, 10), ("cloud", 2, 8), ("water", 2, 9)]]


def granule(case, rng):
    n = case["n"]
    cm = case["zone"]*6 - 183
    wkt = fl1.utm_wkt(case["zone"])
    ulx, uly = 300000 + 60*int(rng.integers(0, 6000)), case["y"]*1000 + 60*int(rng.integers(0, 10))
    lon, lat = fl1.lonlat(ulx, uly, wkt)
    ut = (10.5*60 + int(rng.integers(-30, 90)) - 4*lon) % 1440
    off = None
    if case["offset"] == "same":
        off = [-case["quant"]//10]*13
    elif case["offset"] == "bands":
        off = [-int(v)*case["quant"]//10000 for v in rng.integers(300, 1500, 13)]
    g = fs2.Granule(n, ulx, uly, case["zone"], (case["year"], case["month"], case["day"]), (int(ut//60), int(ut % 60), int(rng.integers(0, 60))),
                    case["letter"], case["quant"], off, "%02d%s%s%s" % (case["zone"], *(chr(65+int(v)) for v in rng.integers(0, 8, 3))), case["long"])
    cls = np.full((n, n), "veg", dtype=object)
    for name, k, size in COVER[case["cover"]]:
        for _ in range(k):
            cls[fl1.blob(rng, n, n, size)] = name
    names = sorted(set(cls.ravel().tolist()))
    idx = np.searchsorted(names, cls.ravel().astype(str)).reshape(cls.shape)
    table = np.array([SURFACE[s] for s in names])
    common = 1 + rng.choice([0.02, 0.08, 0.25])*rng.standard_normal((n, n))
    common = np.clip(common, 0.6, 1.4)
    for b, (_, dom, res) in enumerate(fs2.BANDS):
        k = res//10
        v = (table[idx, b]*common).reshape(n//k, k, n//k, k).mean((1, 3))
        v = v*(1 + 0.01*rng.standard_normal(v.shape))
        add = off[b] if off else 0
        g.dn[dom] = np.clip(np.round(v*g.quant - add), 1, 60000).astype("uint16")
    doms = [d for _, d, _ in fs2.BANDS]
    if case["void"] == "edge":
        w = int(rng.integers(1, n//12+1))
        for _, dom, res in fs2.BANDS:
            g.dn[dom][:, :w*60//res] = 0
        if rng.random() < 0.5:
            g.dn[doms[int(rng.integers(0, 13))]][-3:] = 0
    elif case["void"] == "band":
        for dom in doms:
            g.dn[dom][rng.random(g.dn[dom].shape) < 0.003] = 0
    elif case["void"] == "patch":
        w = int(rng.integers(1, max(2, n//20)))
        m = fl1.blob(rng, n//6, n//6, w)
        for _, dom, res in fs2.BANDS:
            g.dn[dom][np.repeat(np.repeat(m, 60//res, 0), 60//res, 1)] = 0
    if case["sat"]:
        for dom in doms:
            g.dn[dom][rng.random(g.dn[dom].shape) < 0.002] = 65535
    # view angles: a few detectors, each seeing a part of the nodes
    m = g.nodes
    zen = 4 + 3*rng.random() + np.arange(m)[None, :]*0.3 + np.arange(m)[:, None]*0.1
    seen = np.ones((m, m), bool)
    if case["unseen"] and m > 2:
        if rng.random() < 0.5:
            seen[:, :int(rng.integers(1, m-1))+1] = False
        else:
            seen[int(rng.integers(1, m-1)):] = False
        if not seen.any():
            seen[:] = True
    for b in range(13):
        dets = sorted(rng.choice(12, 3, replace=False).tolist())
        for k, det in enumerate(dets):
            # the first detector sees everything, the others a part
            s = seen.copy() if k == 0 else seen & (rng.random((m, m)) < 0.5)
            z = np.round(zen + 0.05*b + 0.2*k + 0.1*rng.random((m, m)), 4)
            a = np.round(100 + 2*b + k + rng.random((m, m)), 4)
            g.zen[b, det+1] = np.where(s, z, np.nan)
            g.azi[b, det+1] = np.where(s, a, np.nan)
    return g


def windows(a, at, r=2):
    """complete (2r+1)^2 neighbourhoods of the given pixels: array (pixel, neighbour)"""
    w = np.lib.stride_tricks.sliding_window_view(a, (2*r+1, 2*r+1))
    return w[at[:, 0]-r, at[:, 1]-r].reshape(len(at), -1)


def regression(t, at):
    """20 m bands predicted from green, red and broad NIR in 5 x 5 neighbourhoods at the given pixels"""
    X = np.stack([np.ones((len(at), 25))] + [windows(t[d], at)/1e4 for d in ("GREEN", "RED", "BROADNIR")], 2)
    P = np.linalg.pinv(X, rcond=1e-12)
    x = X[:, 12]
    return {d: np.einsum("nk,nk->n", x, np.einsum("nkw,nw->nk", P, windows(t[d], at)/1e4))*1e4 for d in fs2.COARSE}


def improphe(t, clear, at):
    """weighted mean of spectrally similar clear neighbours within two pixels"""
    n = clear.shape[0]
    key = ("GREEN", "RED", "BROADNIR")
    thr = np.float32([0.0025, 0.005, 0.01, 0.02, 0.025])
    out = {d: np.zeros(len(at)) for d in fs2.COARSE}
    offs = [(a, b) for a in range(-2, 3) for b in range(-2, 3) if a*a+b*b <= 4]
    for q, (i, j) in enumerate(at):
        nb = [(i+a, j+b) for a, b in offs if 0 <= i+a < n and 0 <= j+b < n and clear[i+a, j+b]]
        ii, jj = np.array(nb).T
        S = sum(np.abs(t[k][ii, jj].astype(float) - float(t[k][i, j]))/1e4 for k in key)/3
        cl = np.array([next((c for c in range(5) if s < thr[c]), 9) for s in S])
        c = next((c for c in range(5) if (cl <= c).sum() >= 3), 4)
        use = cl <= c
        s = S[use]
        pos = s[s > 0]
        lo, hi = (pos.min(), pos.max()) if len(pos) else (0, 0)
        W = np.ones(len(s))
        if hi > lo:
            W = np.where(s > 0, 1/(1+np.exp(25*(s-lo)/(hi-lo)-7.5)), 1.0)
        for d in fs2.COARSE:
            out[d][q] = (W*t[d][ii, jj][use]).sum()/W.sum()
    return out


def starfm(t, at):
    """spectral parameterisation of the image fusion with two pairs of images; granules without void pixels"""
    n = t["RED"].shape[0]
    fine = [(t["GREEN"] + t["RED"])/2e4, t["BROADNIR"]/1e4]
    h = np.arange(-2, 3)
    ker = np.exp(-(h[:, None]**2 + h[None, :]**2)/0.5)
    coarse = []
    for f in fine:
        pf, pn = np.pad(f, 2), np.pad(np.ones_like(f), 2)
        s = sum(ker[a, b]*pf[a:a+n, b:b+n] for a in range(5) for b in range(5))
        w = sum(ker[a, b]*pn[a:a+n, b:b+n] for a in range(5) for b in range(5))
        c = (s/w).reshape(n//2, 2, n//2, 2).mean((1, 3))
        coarse.append(np.repeat(np.repeat(c, 2, 0), 2, 1))
    cut = [f.std()*2/40 for f in fine]
    ur = math.sqrt(2*0.002**2)
    ua = math.sqrt(2*ur**2)
    out = {}
    for d in fs2.COARSE:
        tg = t[d]/1e4
        v = np.zeros(len(at))
        for q, (i, j) in enumerate(at):
            mc = min(abs(coarse[p][i, j]-tg[i, j]) for p in (0, 1))
            mf = min(abs(coarse[p][i, j]-fine[p][i, j]) for p in (0, 1))
            sw = sp = 0.0
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    y, x = i+a, j+b
                    if not (0 <= y < n and 0 <= x < n):
                        continue
                    for p in (0, 1):
                        if abs(fine[p][y, x]-fine[p][i, j]) > cut[p]:
                            continue
                        rc, rf = coarse[p][y, x]-tg[y, x], coarse[p][y, x]-fine[p][y, x]
                        if not (abs(rc) < mc+ur or abs(rf) < mf+ur):
                            continue
                        ts = (abs(rc)+0.0001)*(abs(rf)+0.0001)
                        w = 1.0 if ts < ua else 1/(ts*(1+math.hypot(a, b)))
                        sw += w; sp += w*(fine[p][y, x]-rc)
            v[q] = sp/sw*1e4 if sw > 0 else tg[i, j]*1e4
        out[d] = v
    return out


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng([case["seed"], 68])
    g = granule(case, rng)
    n = g.n
    d = g.write(ctx.dir)
    exe = ctx.exe("force-l2ps")
    for l in (case["merge"], "%d cells" % (g.nodes-1), "SEN2" + g.letter):
        out.label(l)

    def go(name, **kw):
        root = os.path.join(ctx.dir, name)
        os.makedirs(root)
        p = fl1.params(root, **kw)
        return root + "/l2", fl1.run(exe, root, d, p)

    l2, r = go("whole", DO_TILE="FALSE", RES_MERGE=case["merge"], NTHREAD=case["thread"])
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    pr = fl1.products(l2)
    frame = "T" + g.tile
    want = {"TOA", "QAI", "DST", "HOT", "VZN"}
    void = g.void()
    cell = np.arange(n)*10//fs2.STEP
    vz = g.cells(g.zen)
    unseen = ~np.isfinite(vz)[cell[:, None], cell[None, :]]
    if (void | unseen).all():
        return out
    if {k[1] for k in pr if k[0] == frame} != want or len(pr) != 5:
        out.fail("products", "%s instead of %s in %s" % (sorted(pr), sorted(want), frame))
        return out
    base = "%04d%02d%02d_LEVEL2_SEN2%s_" % (g.date + (g.letter,))
    ra = {}
    for k in want:
        f = pr[frame, k]
        if os.path.basename(f).rsplit(".", 1)[0] != base + k:
            out.fail("name", "%s instead of %s" % (os.path.basename(f), base + k))
        ra[k] = F.Raster(f)
        nb = 10 if k == "TOA" else 1
        if ra[k].data.shape != (nb, n, n) or not np.allclose(ra[k].gt, (g.ulx, 10, 0, g.uly, 0, -10), rtol=0, atol=1e-6):
            out.fail("grid", "%s: %s at %s, expected %s at %s" % (k, ra[k].data.shape, ra[k].gt, (nb, n, n), (g.ulx, g.uly)))
            return out
    T, Q = ra["TOA"].data.astype(np.int32), ra["QAI"].data[0].astype(np.int32)
    doms = [(m or {}).get("Domain") for m in ra["TOA"].bandmeta] if ra["TOA"].bandmeta else None
    if doms and any(doms) and doms != fs2.PRODUCT:
        out.fail("bands", "band domains %s" % doms)
    # seam between seen and unseen cells: a pixel either way
    seam = np.zeros((n, n), bool)
    if unseen.any():
        e = np.pad(unseen, 1, mode="edge")
        seam = ~(e[:-2, 1:-1] & e[2:, 1:-1] & e[1:-1, :-2] & e[1:-1, 2:] & unseen) & ~(~e[:-2, 1:-1] & ~e[2:, 1:-1] & ~e[1:-1, :-2] & ~e[1:-1, 2:] & ~unseen)
    off = void | unseen
    bad = off & ~(seam & ~void) & ((T != -9999).any(0) | ((Q & 1) == 0))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("void", "pixel without %s: reflectance %s, quality %d" % ("data" if void[i, j] else "view angle", T[:, i, j].tolist(), Q[i, j]), [int(i), int(j)])
    inner = np.zeros((n, n), bool)
    inner[1:-1, 1:-1] = True
    ok = ~off & ~seam
    sat = np.zeros((n, n), bool)
    for _, dom, _ in fs2.BANDS:
        sat |= g.full(dom) == 65535
    # predictions around saturated pixels may leave the range of reflectance
    p = np.pad(sat, 3)
    near = np.array([p[a:a+n, b:b+n] for a in range(7) for b in range(7)]).any(0) if sat.any() else sat
    wild = near if case["merge"] != "NONE" else np.zeros((n, n), bool)
    bad = ok & inner & ~wild & ((T == -9999).any(0) | ((Q & 1) == 1))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("lost", "valid pixel: reflectance %s, quality %d" % (T[:, i, j].tolist(), Q[i, j]), [int(i), int(j)])
    ok &= (T != -9999).all(0) & ((Q & 1) == 0)
    bad = ok & (((Q >> 9) & 1).astype(bool) != sat) & (sat | ~(T > 9990).any(0))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("saturation", "quality %d, %s" % (Q[i, j], "saturated" if sat[i, j] else "not saturated"), [int(i), int(j)])
    # reflectance
    cloudy = ((Q >> 1) & 3 > 0) | ((Q >> 3) & 1 > 0)
    for k, dom in enumerate(fs2.PRODUCT):
        e = g.reflectance(dom)
        m = ok.copy()
        if case["merge"] != "NONE" and dom in fs2.COARSE:
            if case["merge"] == "STARFM":
                continue
            m &= cloudy
        top = np.minimum(e, 32767)
        bad = m & ((T[k] > top + 1) | (T[k] < top - 2.01))
        out.evals += int(m.sum())
        if dom not in fs2.COARSE:
            out.nontrivial += int(m.sum())
        if bad.any():
            i, j = np.argwhere(bad)[0]
            out.fail("reflectance", "%s is %d, expected %.1f (count %d, scale %d, offset %s)" % (dom, T[k, i, j], e[i, j], g.full(dom)[i, j], g.quant, g.offset and g.offset[[x for _, x, _ in fs2.BANDS].index(dom)]), [int(i), int(j)])
            break
    # view zenith: within the range of the cells around, exactly that of the only cell
    V = ra["VZN"].data[0]
    m = np.isfinite(vz)
    lo, hi = np.nanmin(vz)*100, np.nanmax(vz)*100
    bad = ok & ((V < lo-3) | (V > hi+3))
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("view", "view zenith %.2f, the metadata hold %.2f to %.2f" % (V[i, j]/100, lo/100, hi/100), [int(i), int(j)])
    elif m.sum() > 1 and not unseen.any():
        for a, b in np.argwhere(m):
            i, j = min(a*500+250, n-1), min(b*500+250, n-1)
            # in the middle of a cell the angle is that of the cell
            if i == a*500+250 and j == b*500+250 and ok[i, j] and abs(V[i, j]-vz[a, b]*100) > 0.35*(hi-lo) + 3:
                out.fail("view", "view zenith %.2f in the middle of a cell with %.2f" % (V[i, j]/100, vz[a, b]), [int(i), int(j)])
                break
    # resolution merge
    if case["merge"] != "NONE" and not out.fails:
        # the 10 m bands and the clouds are those of the granule without merging
        l2, r = go("plain", DO_TILE="FALSE", RES_MERGE="NONE", NTHREAD=1)
        pp = fl1.products(l2)
        if r.rc != 0 or (frame, "TOA") not in pp or (frame, "QAI") not in pp:
            out.fail("exit", "not merged: exit %s, %s %s" % (r.rc, sorted(pp), r.tail()))
            return out
        P, PQ = F.Raster(pp[frame, "TOA"]).data.astype(np.int32), F.Raster(pp[frame, "QAI"]).data[0].astype(np.int32)
        both = ok & ((PQ & 1) == 0)
        fine = [k for k, x in enumerate(fs2.PRODUCT) if x not in fs2.COARSE]
        for what, bad in (("10 m bands", (P[fine] != T[fine]).any(0)), ("cloud flags", ((PQ ^ Q) & 14) != 0)):
            bad &= both
            out.evals += int(both.sum())
            if bad.any():
                i, j = np.argwhere(bad)[0]
                out.fail("merge", "%s: %s differ in %d pixels: %s quality %d, not merged %s quality %d" % (case["merge"], what, bad.sum(), T[fine, i, j].tolist(), Q[i, j], P[fine, i, j].tolist(), PQ[i, j]), [int(i), int(j)])
                return out
        # the input of the merge are integers, cut after some division: the model is evaluated on several roundings
        t = {x: np.minimum(np.trunc(g.reflectance(x) + 1e-3), 32767) for x in fs2.PRODUCT}
        roundings = [t, {x: np.minimum(np.trunc(g.reflectance(x, np.float32).astype(float)), 32767) for x in fs2.PRODUCT}]
        roundings += [{x: t[x] - (rng.random(t[x].shape) < 0.5) for x in fs2.PRODUCT} for _ in range(3)]
        cand = ok & inner
        if case["merge"] != "STARFM":
            cand &= ~cloudy
        if case["merge"] == "REGRESSION":
            o = np.ones((n, n), bool)
            v = ~(ok | (~off & (Q & 1 == 0)))
            o[2:-2, 2:-2] = np.array([v[a:n-4+a, b:n-4+b] for a in range(5) for b in range(5)]).any(0)
            cand &= ~o
        # saturated numbers disturb their neighbourhood: leave them out
        cand &= ~near
        at = np.argwhere(cand)
        lim = {"REGRESSION": 1000, "IMPROPHE": 200, "STARFM": 120}[case["merge"]]
        if case["merge"] == "STARFM" and (off.any() or sat.any()):
            at = at[:0]
        if len(at) > lim:
            at = at[np.sort(rng.permutation(len(at))[:lim])]
        if len(at) > 20:
            clear = ~cloudy & (Q & 1 == 0)
            model = {"REGRESSION": lambda t: regression(t, at), "IMPROPHE": lambda t: improphe(t, clear, at), "STARFM": lambda t: starfm(t, at)}[case["merge"]]
            ev = [model(v) for v in roundings]
            e = ev[0]
            for k, dom in enumerate(fs2.PRODUCT):
                if dom not in fs2.COARSE:
                    continue
                got = T[k, at[:, 0], at[:, 1]]
                lo, hi = np.min([v[dom] for v in ev], 0), np.max([v[dom] for v in ev], 0)
                df = np.maximum(np.maximum(lo - got - 0.7, got + 0.7 - hi), 0)
                out.evals += len(at)
                out.nontrivial += int((np.abs(e[dom]-t[dom][at[:, 0], at[:, 1]]) > 8).sum())
                bad = df > 4 + 0.002*np.abs(e[dom])
                if bad.sum() > 2 + 0.01*len(at):
                    q = int(np.argmax(df))
                    i, j = at[q]
                    out.fail("merge", "%s, %s: %d of %d pixels differ; %d, expected %.1f (before: %d)" % (case["merge"], dom, bad.sum(), len(at), got[q], e[dom][q], t[dom][i, j]), [int(i), int(j)])
                    break
            out.label("merge judged")
    # a granule cut into tiles is first reduced to the cells seen, which fits the 60 m pixels in groups of three cells
    if case["tile"] and not out.fails and (g.nodes == 5 or not unseen.any()):
        import c61
        sx = max(case["ts"], n//4)
        olon, olat = fl1.lonlat(g.ulx - 10*int(rng.integers(-40, 3*sx)), g.uly + 10*int(rng.integers(-40, 3*sx)), g.wkt)
        l2, r = go("cut", NTHREAD=1, RES_MERGE=case["merge"], TILE_SIZE="%d %d" % (sx*10, sx*10), ORIGIN_LON="%.15g" % olon, ORIGIN_LAT="%.15g" % olat)
        if r.rc != 0:
            out.fail("exit", "cut: exit %s %s" % (r.rc, r.tail()))
            return out
        org = fl1.origin(dict(ORIGIN_LON=olon, ORIGIN_LAT=olat), g.wkt)
        ax, ay = round((org[0]-g.ulx)/10), round((g.uly-org[1])/10)
        for p, nod in (("TOA", -9999), ("QAI", 1)):
            tiles = c61.read_tiles(l2, p, nod)
            if not tiles:
                out.fail("cut", "no tile of %s" % p)
                return out
            a, x0, y0 = c61.mosaic(tiles, sx, sx, nod)
            w = c61.window(a, -ax, -ay, x0, y0, n, n, nod)
            ref = T if p == "TOA" else Q[None]
            if unseen.any():
                # the seam may shift by a pixel, and with it everything that looks at neighbours
                if p == "QAI":
                    continue
                fine = [k for k, x in enumerate(fs2.PRODUCT) if x not in fs2.COARSE]
                w, ref = np.where(seam | wild, 0, w[fine]), np.where(seam | wild, 0, ref[fine])
            ne = (w != ref).any(0)
            out.evals += int(ref.size)
            if ne.any():
                i, j = np.argwhere(ne)[0]
                out.fail("cut", "%s: %d pixels differ from the uncut granule, first %s instead of %s" % (p, ne.sum(), w[:, i, j].tolist(), ref[:, i, j].tolist()), [int(i), int(j)])
                return out
        out.label("cut")
    out.sample = dict(satellite="SEN2" + g.letter, size=n, cells=g.nodes-1, merge=case["merge"], scale=g.quant, void=int(void.sum()), cloudy=int((cloudy & ok).sum()), first=T[:, n//2, n//2].tolist())
    return out
