"""Best-available-pixel composites against a reference model of scores and selection."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
import modules as M
from harness import Outcome

ID = "C31"
RULE = ("a case is a generated time series of images (several sensors, clouds, water, auxiliary distance/haze/view products) and a compositing configuration "
        "(target, score functions and weights, selection or weighting, additive or multiplicative, filters, static or phenology-adaptive); one evaluation = one pixel "
        "of one product; distinct non-trivial = pixels with at least two usable observations of different score")
TIERS = {"quick": dict(examples=900, budget=28), "thorough": dict(examples=2600, budget=75)}
ASSUMPTIONS = ["the DOY score is only disabled together with OFF_SEASON = TRUE", "sigmoid score functions are fitted numerically: their DOY and year scores are measured "
               "on pixels with a single observation and checked for monotony and fit", "decisions within 1e-5 of a threshold or of another score are not judged",
               "pixels without any phenology are not judged with OFF_SEASON = TRUE"]
f4 = np.float32
LAYOUT = [(["LND08", "LND05"], "LNDLG"), (["SEN2A"], "SEN2L"), (["LND07", "SEN2B", "LND09"], "LNDLG"), (["S1BID", "S1AIA"], "VVVHP"), (["LND08"], "LNDLG")]
GAUSS, DES, ASC = range(3)


@st.composite
def strategy_(draw, tier):
    lay = draw(st.integers(0, len(LAYOUT) - 1))
    ns = len(LAYOUT[lay][0])
    kind = draw(st.sampled_from([GAUSS, GAUSS, DES, ASC]))
    yt, yr = 2015, draw(st.integers(0, 2))
    lo, hi = (yt - yr) * 365, (yt + yr + 1) * 365 - 1
    p1 = draw(st.integers(1, 365))
    left, right = draw(st.integers(5, 120)), draw(st.integers(5, 120))
    wrap = lambda v: (v - 1) % 365 + 1
    dt = [wrap(p1 - left), p1, wrap(p1 + right)]
    if kind == GAUSS:
        ds = [draw(st.sampled_from([0.01, 0.1, 0.3])), draw(st.sampled_from([0.99, 0.9, 0.7])), draw(st.sampled_from([0.01, 0.05, 0.4]))]
    elif kind == DES:
        ds = [0.99, draw(st.sampled_from([0.5, 0.7, 0.3])), 0.01]
    else:
        ds = [0.01, draw(st.sampled_from([0.5, 0.7, 0.3])), 0.99]
    season = [(yt + y) * 365 + p1 for y in range(-yr, yr + 1)]
    day = st.one_of(st.integers(lo, hi), st.tuples(st.sampled_from(season), st.integers(-left, right)).map(lambda a: min(hi, max(lo, a[0] + a[1]))))
    acq = draw(st.lists(st.tuples(day, st.integers(0, ns - 1)), min_size=1, max_size=10, unique=True))
    if kind != GAUSS:
        pts = [yt * 365 + p1 - left - 1, yt * 365 + p1 - 1, yt * 365 + p1 + right - 1]
        acq = list(acq) + [(c, 0) for c in pts if lo <= c <= hi and (c, 0) not in acq]
    w = {k: draw(st.sampled_from(v)) for k, v in dict(DOY=[1.0, 0.5, 0.0], YEAR=[1.0, 0.3, 0.0], CLOUD=[0.4, 0.0, 1.0], HAZE=[0.3, 0.0, 0.8],
                                                      CORREL=[0.0, 0.5], VZEN=[0.2, 0.0]).items()}
    if not any(w.values()):
        w["DOY"] = 1.0
    pac = None
    if kind == GAUSS and draw(st.integers(0, 2)) == 0:
        pac = dict(y0=draw(st.integers(yt - yr - 1, yt)), ny=draw(st.integers(1, 5)), thr=draw(st.sampled_from([182, 365, 5, 0])), start=draw(st.sampled_from([2000 * 365 + 1, 2010 * 365 + 1])),
                   gaps=draw(st.sampled_from([0.2, 0.0, 0.7])), noise=draw(st.sampled_from([3, 0, 40])))
    return dict(lay=lay, kind=kind, yt=yt, yr=yr, yf=draw(st.sampled_from([0.75, 1.0, 2.0, 0.3])), dt=dt, ds=ds, left=left, right=right, acq=sorted([list(a) for a in acq]), w=w, pac=pac,
                select=draw(st.sampled_from([True, True, False])) if kind == GAUSS else True, mul=draw(st.sampled_from([False, False, True])), off=True if w["DOY"] == 0 else draw(st.booleans()),
                cloudy=draw(st.booleans()), hazy=draw(st.booleans()), dreq=draw(st.sampled_from([3000, 500, 1])), hreq=draw(st.sampled_from([-150, 0, 200])),
                vreq=draw(st.sampled_from([7.5, 1, 30])), res=draw(st.sampled_from([10, 75, 200])), nx=draw(st.sampled_from([6, 4, 9])), ny=draw(st.sampled_from([4, 6])),
                out=draw(st.lists(st.sampled_from(["BAP", "INF", "SCR", "OVV"]), min_size=1, max_size=4, unique=True)), seed=draw(st.integers(0, 2**31 - 1)),
                mask=draw(st.sampled_from([False, False, True])), gaps=draw(st.sampled_from([0.4, 0.1, 0.8])))


def strategy(tier):
    return strategy_(tier)


def static_target(c):
    t = []
    for y in range(2 * c["yr"] + 1):
        yy = c["yt"] - c["yr"] + y
        d = c["dt"]
        t.append([(yy - (d[0] > d[1])) * 365 + d[0], yy * 365 + d[1], (yy + (d[2] < d[1])) * 365 + d[2]])
    return np.array(t, float)


def adaptive_target(c, lsp):
    """lsp [3][ny] raw values or nan; None if there is no phenology"""
    pac = c["pac"]
    y0, n = pac["y0"], pac["ny"]
    y1 = c["yt"] - c["yr"]
    yn = 2 * c["yr"] + 1
    t = np.zeros((yn, 3))
    yrs = np.arange(y0, y0 + n)
    for f in range(3):
        v = lsp[f] + pac["start"] - 1
        yy = np.floor((v - 1) / 365)
        ok = ~np.isnan(v) & (np.abs(np.nan_to_num(yy, nan=-9e9) - yrs) <= 1)
        if not ok.any():
            return None, True
        # a year one off is spurious only beyond +-1; the exact turn of the year is left to chance
        edge = ~np.isnan(v) & (np.abs((np.nan_to_num(v, nan=1e6) - yrs * 365) - 365 / 2) > 365 * 1.5 - 2)
        if edge.any():
            return None, False
        if ok.sum() > 1:
            s, i = np.polyfit(yrs[ok] - y0, v[ok], 1)
        else:
            s, i = 365.0, v[ok][0] - 365.0 * (yrs[ok][0] - y0)
        rmse = np.sqrt(np.mean((v[ok] - (i + s * (yrs[ok] - y0))) ** 2))
        if abs(rmse - pac["thr"]) < 0.2:
            if pac["thr"] == 0:
                rmse = 1 if rmse > 0.2 else 0
            if rmse == 0 and pac["thr"] == 0:
                pass                                    # prediction and values are the same up to rounding
            else:
                return None, False
        vv = np.where(~ok | (rmse > pac["thr"]), i + s * (yrs - y0), v)
        for y in range(yn):
            k = y1 + y - y0
            t[y, f] = vv[k] if 0 <= k < n else i + s * k
    if (np.abs(t * 16 % 1 - 0.5) < 0.02).any():        # targets are single precision: 1/16 day
        return None, False
    return t.astype(f4).astype(float), True


def run_case(c, ctx):
    out = Outcome()
    base = ctx.dir
    hl.dirs(base)
    sens, target = LAYOUT[c["lay"]]
    bands = hl.TARGETS[target]
    ny, nx, res = c["ny"], c["nx"], c["res"]
    rng = np.random.default_rng(c["seed"])
    cube = F.Cube(base + "/lower", tile=(nx * res, ny * res), res=res)
    npx = ny * nx
    acq = sorted(((hl.date_str(hl.ymd_from_ce(a + 1)) + sens[k], a + 1, k) for a, k in c["acq"]))
    nt = len(acq)
    probe = c["kind"] != GAUSS
    w = c["w"]
    radar = target == "VVVHP"
    ok = rng.random((nt, npx)) > c["gaps"]
    water = rng.random(npx) < 0.25
    if probe:
        k = np.arange(npx) < nt
        ok[:, k] = False
        ok[np.arange(nt)[np.arange(nt) < npx], np.arange(nt)[np.arange(nt) < npx]] = True
        water[k] = False
    if radar:
        water[:] = False
    keep = hl.keep_mask(c, ny, nx).ravel()
    if probe:
        keep = keep | (np.arange(npx) < nt)
    ok &= keep[None]
    if radar:
        v = rng.integers(-2500, -300, (nt, len(bands), npx))
    else:
        v = rng.integers(0, 6000, (nt, 1, npx)) + rng.integers(-600, 2500, (nt, len(bands), npx))
    dst, hot, vzn = rng.choice([0, 1, 200, 1000, 1500, 3000, 5000], (nt, npx)), rng.choice([-500, -160, -140, 0, 30, 190, 400], (nt, npx)), rng.choice([0, 100, 300, 450, 800, 2000], (nt, npx))
    if probe:
        dst[:, :nt], hot[:, :nt], vzn[:, :nt] = 5000, -500, 0         # never filtered for clouds or haze
    wat = water[None] & (rng.random((nt, npx)) < 0.97)
    qs = rng.choice([0, 0, 1 << 11, 1 << 14], (nt, npx))
    sh = (ny, nx)
    for t, (name, cc, k) in enumerate(acq):
        d = hl.ymd_from_ce(cc)
        q = np.where(ok[t], qs[t] | (wat[t] << 5), 1 | (2 if t % 2 else 0)).astype(np.int16)
        qs[t] = q
        b = hl.SENSORS[sens[k]]
        boa = np.full((len(b), npx), 77)
        for i, n in enumerate(bands):
            boa[b.index(n)] = v[t, i]
        hl.write_acq(cube, (0, 0), d, sens[k], boa.reshape(len(b), ny, nx).astype(np.int16), q.reshape(sh))
        for n, a in (("DST", dst), ("HOT", hot), ("VZN", vzn)):
            hl.write_acq(cube, (0, 0), d, sens[k], a[t].reshape(1, ny, nx).astype(np.int16), None, product=n)
    aux = [n for n, k in (("DST", "CLOUD"), ("HOT", "HAZE"), ("VZN", "VZEN")) if w[k] > 0]
    rng.shuffle(aux)
    o = set(c["out"])
    if probe:
        o |= {"SCR"}
    if "OVV" in o and (res == 10 or "BAP" not in o):
        o.discard("OVV")
        o.add("BAP")
    kw = {"OUTPUT_" + n: "TRUE" if n in o else "FALSE" for n in ("BAP", "INF", "SCR", "OVV")}
    kw.update({"SCORE_%s_WEIGHT" % k: x for k, x in w.items()})
    yl = (c["yt"] - c["yr"], c["yt"] + c["yr"])
    mask = np.ones(npx, bool)
    if c["mask"]:
        mask = rng.random(npx) < 0.6
        mask[0] = True
        if probe:
            mask[:nt] = True
        F.Cube(base + "/mask", tile=(nx * res, ny * res), res=res).write(0, 0, "m.tif", mask.reshape(1, ny, nx).astype(np.uint8), nodata=255, dtype="uint8")
        kw.update(DIR_MASK=base + "/mask", BASE_MASK="m.tif")
    pac = c["pac"]
    if pac:
        lc = F.Cube(base + "/lsp", tile=(nx * res, ny * res), res=res)
        yrs = np.arange(pac["y0"], pac["y0"] + pac["ny"])
        shift = rng.integers(-60, 60, (1, 1, npx))
        raw = yrs[None, :, None] * 365 + c["dt"][1] + np.array([-c["left"], 0, c["right"]])[:, None, None] + shift - pac["start"] + rng.integers(-pac["noise"], pac["noise"] + 1, (3, pac["ny"], npx))
        raw = np.clip(raw, -32000, 32000).astype(float)
        raw[rng.random(raw.shape) < pac["gaps"]] = np.nan
        raw[:, :, rng.random(npx) < 0.1] = np.nan
        for f, n in enumerate(("a.tif", "b.tif", "c.tif")):
            lc.write(0, 0, n, np.where(np.isnan(raw[f]), -32768, raw[f]).reshape(-1, ny, nx).astype(np.int16), nodata=-32768)
        kw.update(LSP_DO="TRUE", DIR_LSP=base + "/lsp", BASE_LSP="a.tif b.tif c.tif", LSP_1ST_YEAR=pac["y0"], LSP_START=pac["start"], LSP_THRESHOLD=pac["thr"], LSP_NODATA=-32768)
    p = M.params(ctx, "LEVEL3", SENSORS=" ".join(sens), TARGET_SENSOR=target, RESOLUTION=res, DATE_RANGE="%d-01-01 %d-12-31" % yl, SCREEN_QAI="NODATA CLOUD_OPAQUE", ABOVE_NOISE=0, BELOW_NOISE=0,
                 CHUNK_SIZE="%d %d" % (nx * res, ny * res), X_TILE_RANGE="0 0", Y_TILE_RANGE="0 0", YEAR_TARGET=c["yt"], YEAR_NUM=c["yr"], Y_FACTOR=c["yf"], SELECT="TRUE" if c["select"] else "FALSE",
                 COMBINE_SCORES="MULTIPLICATIVE" if c["mul"] else "ADDITIVE", REQUIRE_AUX_PRODUCTS=" ".join(aux) or "NULL", DOY_SCORE=" ".join(map(str, c["ds"])), DOY_STATIC=" ".join(map(str, c["dt"])),
                 OFF_SEASON="TRUE" if c["off"] else "FALSE", USE_CLOUDY="TRUE" if c["cloudy"] else "FALSE", USE_HAZY="TRUE" if c["hazy"] else "FALSE", DREQ=c["dreq"], HREQ=c["hreq"], VREQ=c["vreq"], **kw)
    r = hl.run_hl(ctx, "LEVEL3", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    outs = hl.outputs(base + "/higher")
    m = c["dt"][{GAUSS: 1, DES: 0, ASC: 2}[c["kind"]]]
    ymd = hl.ymd_from_ce(c["yt"] * 365 + m)
    exp = {n: "X0000_Y0000/%s_LEVEL3_%s_%s.tif" % (hl.date_str(ymd), target, n) for n in o}
    if sorted(exp.values()) != sorted(outs):
        out.fail("files", "%s, expected %s" % (sorted(outs), sorted(exp.values())))
        return out
    D = {n: outs[e].data.reshape(outs[e].nb, -1) for n, e in exp.items()}
    N = {n: outs[e].names for n, e in exp.items()}
    want = dict(BAP=bands, INF=["QAI", "NUM", "DOY", "YEAR", "dDOY", "SENSOR"], SCR=["TOTAL", "DOY", "YEAR", "DISTANCE", "HAZE", "CORREL", "VZEN"], OVV=["RED", "GREEN", "BLUE"])
    for n in o:
        if N[n] != want[n]:
            out.fail("names", "%s bands %s" % (n, N[n]))
            return out
    ce = np.array([a[1] for a in acq])
    year = np.array([hl.ymd_from_ce(a[1])[0] for a in acq])
    doy = np.array([hl.doy(*hl.ymd_from_ce(a[1])[1:]) for a in acq])
    st_t = static_target(c)
    tol = 1e-5 if c["kind"] == GAUSS else 2.5e-4
    msr = None
    if probe:
        msr = measure(c, D["SCR"], ce, st_t, out, npx)
        if msr is None:
            return out
    for px in range(npx):
        where = [px]
        if not mask[px]:
            for n in ("BAP", "INF", "SCR"):
                if n in o and (D[n][:, px] != hl.ND).any():
                    out.fail("mask", "masked pixel %d: %s is %s" % (px, n, D[n][:, px].tolist()), where)
            continue
        T, sure = st_t, True
        if pac:
            T, sure = adaptive_target(c, raw[:, :, px])
            if not sure or (T is None and c["off"]):
                continue
        idx = np.flatnonzero(ok[:, px])
        sc = []
        nwat = sum(1 for t in idx if qs[t, px] & 32)
        if len(idx) and abs(nwat / len(idx) - 0.9) < 1e-6:
            continue
        isw = len(idx) > 0 and nwat / len(idx) > 0.9
        cor = corr(v[:, :, px], idx)
        for t in idx:
            sc.append(scores(c, T, ce[t], year[t], dst[t, px], hot[t, px], vzn[t, px], cor.get(t), msr[t] if msr is not None else None,
                             (v[t, bands.index("SWIR2"), px], v[t, bands.index("NIR"), px]) if isw else None) if T is not None else None)
        if T is None or not len(idx):
            if T is None and len(idx):
                sc = []
            idx = []
        if any(s is None for s in sc):
            continue
        # haze statistics of the season's observations
        hs = [s["h"] for s in sc if c["off"] or s["d"] >= 0.01]
        near = any(abs(s["d"] - 0.01) < tol for s in sc) and not c["off"]
        hm, hsd = (np.mean(hs), np.std(hs, ddof=1) if len(hs) > 1 else 0.0) if hs else (-1, -1)
        usehz = hm > 0.01 and hsd > 0.01
        if near or abs(hm - 0.01) < 1e-5 or abs(hsd - 0.01) < 1e-5:
            continue
        cand = []
        amb = False
        for t, s in zip(idx, sc):
            if not c["off"] and s["d"] < 0.01:
                continue
            if not c["hazy"] and w["HAZE"] > 0 and usehz:
                amb |= abs(s["h"] - 0.01) < 1e-6
                if s["h"] < 0.01:
                    continue
            if not c["cloudy"] and w["CLOUD"] > 0:
                amb |= abs(s["c"] - 0.01) < 1e-6
                if s["c"] < 0.01:
                    continue
            cand.append((t, s))
        if amb:
            continue
        tot = np.array([s["t"] for _, s in cand])
        if len(cand) > 1 and tot.max() - tot.min() > 1e-3:
            out.nontrivial += 1
        out.evals += 1
        desc = "pixel %d, %d observations %s, scores %s" % (px, len(cand), [acq[t][0] for t, _ in cand], [round(float(x), 5) for x in tot])
        if not c["select"] and len(cand) and tot.sum() < 20 * tol * len(cand):
            continue                                     # weights of rounding size
        empty = len(cand) == 0
        if empty:
            e = dict(BAP=[hl.ND] * len(bands), INF=[1, 0] + [hl.ND] * 4, SCR=[hl.ND] * 7)
            for n in e:
                if n in o and D[n][:, px].tolist() != e[n]:
                    out.fail("empty", "%s is %s; %s" % (n, D[n][:, px].tolist(), desc), where)
            continue
        if c["select"]:
            good = [(t, s) for t, s in cand if s["t"] >= tot.max() - 2 * tol]
            fits = []
            for t, s in good:
                f = []
                if "BAP" in o and D["BAP"][:, px].tolist() != v[t, :, px].tolist():
                    f.append("BAP %s expected %s" % (D["BAP"][:, px].tolist(), v[t, :, px].tolist()))
                if "INF" in o:
                    e = [int(qs[t, px]), len(cand), int(doy[t]), int(year[t]), None, acq[t][2] + 1]
                    e[4] = s["dist"]
                    g = D["INF"][:, px].tolist()
                    if g[:4] + g[5:] != e[:4] + e[5:] or (e[4] is not None and abs(g[4] - e[4]) > (0 if not pac else 1)):
                        f.append("INF %s expected %s" % (g, e))
                if "SCR" in o:
                    g = D["SCR"][:, px]
                    keys = "t" if isw else "tdychrv"
                    for i, kk in enumerate(keys):
                        if not -1.2 - tol * 1e4 <= g[i] - s[kk] * 10000 <= tol * 1e4 + 0.2:
                            f.append("score %s is %d expected %.2f" % (want["SCR"][i], g[i], s[kk] * 10000))
                if not f:
                    break
                fits.append("%s: %s" % (acq[t][0], "; ".join(f)))
            else:
                out.fail("select", "%s; %s%s" % (desc, fits[:2], " (water)" if isw else ""), where)
        else:
            avg = (tot[:, None] * np.array([v[t, :, px] for t, _ in cand])).sum(0) / tot.sum()
            slack = 1.01 + 10000 * 2 * tol * len(cand) / tot.sum()
            if "BAP" in o and (np.abs(D["BAP"][:, px] - avg) > slack).any():
                out.fail("weight", "composite %s, expected %s; %s" % (D["BAP"][:, px].tolist(), np.round(avg, 2).tolist(), desc), where)
            if "INF" in o and (D["INF"][1, px] != len(cand) or (D["INF"][2:, px] != hl.ND).any()):
                out.fail("weight-inf", "information %s; %s" % (D["INF"][:, px].tolist(), desc), where)
            if "SCR" in o:
                keys = "t" if isw else "tdychrv"
                for i, kk in enumerate(keys):
                    e = np.mean([s[kk] for _, s in cand]) * 10000
                    if not -1.2 - tol * 1e4 <= D["SCR"][i, px] - e <= tol * 1e4 + 0.2:
                        out.fail("weight-scr", "score %s is %d, expected %.2f; %s" % (want["SCR"][i], D["SCR"][i, px], e, desc), where)
    if "OVV" in o:
        out.evals += overview(c, outs[exp["OVV"]].data, D["BAP"].reshape(-1, ny, nx), radar, out)
    for x in (["gauss", "descending", "ascending"][c["kind"]], "select" if c["select"] else "weight", "mul" if c["mul"] else "add", "PAC" if pac else "static"):
        out.label(x)
    if water.any():
        out.label("water")
    out.sample = dict(target=[c["yt"], c["yr"], c["dt"], c["ds"]], weights=w, products=sorted(o), acquisitions=[a[0] for a in acq][:6])
    return out


def closest(T, ce):
    d = np.abs(ce - np.trunc(T[:, 1]) if False else np.abs(ce - T[:, 1]))
    return int(np.argmin(d)), d


def corr(v, idx):
    """mean absolute correlation with the other usable observations"""
    r = {}
    for t in idx:
        cs = []
        for u in idx:
            if t == u:
                continue
            a, b = v[t] - v[t].mean(), v[u] - v[u].mean()
            q = np.sqrt((a * a).sum() * (b * b).sum())
            if q > 0:
                cs.append(abs((a * b).sum() / q))
        r[t] = np.mean(cs) if cs else None
    return r


def sig(x):
    return 1 / (1 + np.exp(np.clip(x, -700, 700)))


def scores(c, T, ce, year, dst, hot, vzn, cor, msr, water):
    w, ds = c["w"], [float(f4(x)) for x in c["ds"]]
    y, d = closest(T, ce)
    if (np.sort(d)[:2].ptp() if len(d) > 1 else 9) < 1.5:
        return None
    s = {}
    if c["kind"] == GAUSS:
        lft = ce < T[y, 1]
        if abs(ce - T[y, 1]) < 1 and c["pac"]:
            return None
        ref = T[y, 0] if lft else T[y, 2]
        span = abs(ref - T[y, 1])
        a = span / np.sqrt(-2 * np.log((ds[0] if lft else ds[2]) / ds[1]))
        if span < 1:
            return None
        width = T[y, 1] - T[y, 0] if lft else T[y, 2] - T[y, 1]
        q = f4(width) / (f4(c["yr"] + 1) * f4(c["yf"]))
        if c["pac"] and abs(q - np.rint(q)) < 1e-2 or width < 0:
            return None
        sl = int(q)
        dist = ce - T[y, 1]
        dd = int(dist)
        dy = abs(year - c["yt"])
        s["d"] = ds[1] * np.exp(-dd * dd / (2 * a * a))
        s["y"] = ds[1] * np.exp(-(dy * sl) ** 2 / (2 * a * a))
        if c["pac"] and abs(dist - np.rint(dist)) < 1e-2 and abs(dist - dd) > 0.5:
            return None
        s["dist"] = dd
    else:
        s["d"], s["y"] = msr
        s["dist"] = int(ce - T[y, 0]) if c["kind"] == DES else int(ce - T[y, 2])
    if w["DOY"] == 0:
        s["d"] = 0.0
    if w["YEAR"] == 0:
        s["y"] = 0.0
    s["c"] = sig(-10.0 / c["dreq"] * (dst - c["dreq"] / 2)) if w["CLOUD"] else 0.0
    s["h"] = sig(0.05 * (hot - c["hreq"])) if w["HAZE"] else 0.0
    s["r"] = (sig(-30.0 * (cor - 2 / 3)) if cor is not None else 0.0) if w["CORREL"] else 0.0
    s["v"] = sig(10.0 / c["vreq"] * (vzn * 0.01 - c["vreq"] / 2)) if w["VZEN"] else 0.0
    ws = [(w["DOY"], s["d"]), (w["YEAR"], s["y"]), (w["CLOUD"], s["c"]), (w["HAZE"], s["h"]), (w["CORREL"], s["r"]), (w["VZEN"], s["v"])]
    ws = [(a, b) for a, b in ws if a > 0]
    s["t"] = float(np.prod([a * b for a, b in ws])) if c["mul"] else sum(a * b for a, b in ws) / sum(a for a, b in ws)
    if water is not None:
        sw, nir = water
        s["t"] = (10000 - sw) / 10000 / (2 if nir < sw else 1)
    return s


def measure(c, scr, ce, T, out, npx):
    """DOY and year scores of the sigmoid functions from the pixels with one observation"""
    nt = len(ce)
    if nt > npx:
        return None
    msr = []
    for t in range(nt):
        g = scr[:, t]
        if g[0] == hl.ND:
            msr.append((0.0, 0.0))          # out of season
            if c["off"]:
                out.fail("sigmoid-missing", "pixel %d with one observation has no composite" % t, [t])
                return None
            continue
        msr.append((g[1] / 1e4 + 5e-5, g[2] / 1e4 + 5e-5))
    if c["w"]["DOY"] == 0:
        return msr
    pts = []
    for t in range(nt):
        y, d = closest(T, ce[t])
        x = ce[t] - T[y, 1]
        inside = ce[t] >= T[y, 0] if c["kind"] == DES else ce[t] <= T[y, 2]
        if not inside:
            if msr[t][0] > 1e-4:
                out.fail("sigmoid-zero", "DOY score %s of %s is not 0 outside the target window %s" % (msr[t], ce[t], T[y].tolist()), [t])
            continue
        pts.append((x, msr[t][0]))
    pts.sort()
    v = [b for _, b in pts]
    if c["kind"] == DES:
        v = v[::-1]
    if any(b < a - 1.5e-4 for a, b in zip(v, v[1:])):
        out.fail("sigmoid-monotone", "DOY scores are not monotone in time: %s" % pts)
    # fit
    top = c["ds"][0] if c["kind"] == DES else c["ds"][2]
    want = {float(T[0, i] - T[0, 1]): c["ds"][i] for i in range(3)}
    got = [(want[x], b) for x, b in pts if x in want]
    if len({x for x, b in pts if x in want}) == 3:
        rm = np.sqrt(np.mean([(a - b) ** 2 for a, b in got]))
        if rm > 0.12:
            out.fail("sigmoid-fit", "DOY scores %s do not reproduce the wanted values %s (top %s)" % (pts, want, top))
        else:
            out.label("sigmoid fit judged")
    return msr


def overview(c, ovv, bap, radar, out):
    res = c["res"]
    step = max(150, res) / res
    ny, nx = int(c["ny"] * res / max(150, res)), int(c["nx"] * res / max(150, res))
    if ovv.shape[1:] != (ny, nx):
        out.fail("overview-size", "%s, expected %s" % (ovv.shape, (ny, nx)))
        return 0
    n = 0
    for i in range(ny):
        for j in range(nx):
            b = bap[:, int(i * step), int(j * step)].astype(float)
            if radar:
                vv, vh = b[0], b[1]
                f = lambda x, lo: 0 if x < lo or x == hl.ND else 255 if x > lo + 1000 else (x - lo) / 1000 * 255
                ratio = vv / vh if vh else 0
                e = [f(vv, -1600), f(vh, -2200), 0 if ratio < 0.2 or hl.ND in (vv, vh) else min(255, (ratio - 0.2) / 0.8 * 255)]
            else:
                e = [0 if x < 0 else 255 if x > 2500 else x / 2500 * 255 for x in (b[2], b[1], b[0])]
            g = ovv[:, i, j].astype(float)
            n += 3
            if (np.abs(g - np.floor(e)) > 1).any():
                out.fail("overview", "quicklook pixel (%d,%d) is %s, composite %s gives %s" % (i, j, g.tolist(), b.tolist(), np.round(e, 1).tolist()))
                return n
    return n


def minimise(case, where):
    yield from hl.minimise_pixels(case, where)
    if len(case["acq"]) > 1:
        for i in range(len(case["acq"])):
            yield dict(case, acq=case["acq"][:i] + case["acq"][i + 1:])
