"""Polar phenology metrics against a reference computed from the interpolated series."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
import series as S
from harness import Outcome

ID = "C29"
RULE = ("a case is a generated seasonal multi-year series (amplitude, phase, season length and noise per pixel), thresholds, static or adaptive season start and an "
        "interpolation; one evaluation = one metric of one pixel and year or one coordinate of the polar transformed series; distinct non-trivial = metrics of "
        "years in which a season was found")
TIERS = {"quick": dict(examples=900, budget=25), "thorough": dict(examples=2600, budget=70)}
ASSUMPTIONS = ["the series starts on 1 January; seasons whose boundary or thresholds fall within rounding of a decision are not judged",
               "metrics of a part of the season without any interpolation step, and seasons without positive values are not judged"]
METRICS = ("DEM DLM DPS DSS DMS DES DEV DAV DLV LTS LGS LGV VEM VLM VPS VSS VMS VES VEV VAV VLV VBL VGA VSA VPA VGM VGV DPY DPV "
           "IST IBL IBT IGS IRR IFR RAR RAF RMR RMF").split()


@st.composite
def strategy_(draw, tier):
    th = sorted(draw(st.lists(st.integers(4, 96), min_size=3, max_size=3, unique=True)))
    if th[1] - th[0] < 3 or th[2] - th[1] < 3:
        th = [20, 50, 80]
    years = draw(st.integers(2, 5))
    return dict(y0=draw(st.sampled_from([2015, 1999, 2020])), years=years, nx=draw(st.integers(2, 6)), ny=draw(st.integers(2, 5)),
                seed=draw(st.integers(0, 2 ** 31)), every=draw(st.sampled_from([12, 20, 35, 8])), step=draw(st.sampled_from([8, 16, 5, 10, 30])),
                th=[t / 100 for t in th], adaptive=draw(st.booleans()), method=draw(st.sampled_from(["LINEAR", "RBF", "MOVING"])),
                shape=draw(st.sampled_from(["sine", "bump", "double", "clipped", "noise"])), noise=draw(st.sampled_from([50, 0, 300])),
                mask=draw(st.sampled_from([None, None, 0.5])), trend=draw(st.sampled_from([False, True])),
                metrics=draw(st.sampled_from([6, 12, 20, 39, 0])), pct=draw(st.booleans()))


def strategy(tier):
    return strategy_(tier)


def write(case, ctx):
    rng = np.random.default_rng(case["seed"])
    ny, nx = case["ny"], case["nx"]
    cube = F.Cube(ctx.dir + "/lower", tile=(nx * 10, ny * 10))
    phase = rng.uniform(0, 1, (ny, nx))
    amp = rng.uniform(1000, 7000, (ny, nx))
    base = rng.uniform(100, 1500, (ny, nx))
    jit = rng.normal(0, 0.04, (case["years"] + 2, ny, nx))
    day = 0
    keep = hl.keep_mask(case, ny, nx)
    while day < case["years"] * 365:
        yr = day / 365.0
        ph = yr - phase
        k = np.floor(ph).astype(int) + 1
        ph = ph + np.take_along_axis(jit, np.clip(k, 0, case["years"] + 1)[None], 0)[0]
        if case["shape"] == "sine":
            v = base + amp * (0.5 - 0.5 * np.cos(2 * np.pi * ph))
        elif case["shape"] == "bump":
            v = base + amp * np.exp(-((ph - np.floor(ph) - 0.5) / 0.12) ** 2)
        elif case["shape"] == "double":
            v = base + amp * (0.4 - 0.3 * np.cos(2 * np.pi * ph) - 0.1 * np.cos(4 * np.pi * ph))
        elif case["shape"] == "clipped":
            v = amp * (0.2 - 0.5 * np.cos(2 * np.pi * ph))
        else:
            v = rng.uniform(0, 6000, (ny, nx))
        v = np.clip(np.rint(v + rng.normal(0, 1, (ny, nx)) * case["noise"]), -2000, 9999).astype(np.int16)
        boa = np.full((6, ny, nx), 500, np.int16)
        boa[2] = v
        q = np.where(keep & (rng.random((ny, nx)) < 0.9), 0, 1).astype(np.int16)
        hl.write_acq(cube, (0, 0), hl.from_ord(day, case["y0"]), "LND08", boa, q)
        day += max(1, int(case["every"] + rng.integers(-3, 4)))
    return cube, rng


def near_int(x, tol):
    return abs(x - round(x)) < tol


def reference(v, ce, case):
    """v: series, ce: days since the start of the first year; -> {year index: {metric: (value, tolerance)}} or None if not decidable"""
    ni, step, ns = len(v), case["step"], case["years"] - 1
    v = np.maximum(v.astype(float), 0)
    rad = ce % 365
    rad = np.where(rad == 0, 365, rad) / 365.0 * 2 * np.pi
    px, py = v * np.cos(rad), v * np.sin(rad)

    def direction(x, y):
        a = np.arctan2(y, x)
        return a + 2 * np.pi if a <= 0 else a

    if np.hypot(px.mean(), py.mean()) < 1:
        return None
    alpha = direction(px.mean(), py.mean())
    theta = alpha + np.pi if alpha < np.pi else alpha - np.pi
    d = theta * 365 / (2 * np.pi)
    if near_int(d, 2e-2) or abs(alpha - np.pi) < 1e-4:
        return None
    td = int(d)
    start = []
    for s in range(ns + 1):
        c = [i for i in range(ni) if ce[i] >= td + 365 * s]
        start.append(c[0] if c else ni)
    if start[0] == 0 and ce[0] - td > step:
        return None
    dpv = [None] * ns
    if case["adaptive"]:
        new = list(start)
        for s in range(ns):
            i0, i1 = start[s], start[s + 1]
            if np.hypot(px[i0:i1].mean(), py[i0:i1].mean()) < 1:
                return None
            a = direction(px[i0:i1].mean(), py[i0:i1].mean())
            if abs(a - theta) < 1e-3 or abs(a - np.pi) < 1e-3:
                return None
            # half a year before the mean direction of this season
            t0 = (a if a >= theta else a + 2 * np.pi) - np.pi
            dd = t0 * 365 / (2 * np.pi)
            if near_int(dd, 2e-2):
                return None
            t0d = int(np.floor(dd))
            sh = t0d + 365 * s - (td + 365 * s)
            dpv[s] = sh
            if start[s] > 0:
                new[s] = start[s] + int(np.sign(sh)) * (abs(sh) // step)
        start = new
        if any(b - a < 3 for a, b in zip(start[:-1], start[1:])) or start[0] < 0 or start[-1] > ni:
            return None
    res = {}
    for s in range(ns):
        i0, i1 = start[s], start[s + 1]
        y = s if td < 182 else s + 1
        vv = v[i0:i1]
        if i1 <= i0 or vv.sum() <= 0:
            res[y] = {}
            continue
        c = np.cumsum(vv) / vv.sum()
        if any(np.abs(c - t).min() < 2e-5 for t in case["th"]):
            res[y] = {}
            continue
        cc = ce[i0:i1]
        left = int(np.argmax(c > 0))
        ss, ms, es = (int(np.argmax(c >= t)) for t in case["th"])
        grow = np.arange(ss, es)
        r = i1 if i1 < ni else ni - 1
        e = dict(DEM=cc[left], DLM=ce[r], DSS=cc[ss], DMS=cc[ms], DES=cc[es], LTS=ce[r] - cc[left], LGS=cc[es] - cc[ss], VEM=vv[left], VLM=v[r], VSS=vv[ss], VMS=vv[ms],
                 VES=vv[es], DPY=td + 365 * s)
        e = {k: (float(x), 0) for k, x in e.items()}
        base, green = (vv[left] + v[r]) / 2, (vv[ss] + vv[es]) / 2
        e["VBL"] = (base, 1)
        e["IST"] = (np.maximum(vv - base, 0).sum() * step / 365, 1)
        e["IBL"] = (np.minimum(vv, base).sum() * step / 365, 1)
        e["IBT"] = (vv.sum() * step / 365, 1)
        dv = np.diff(np.concatenate([[v[i0 - 1] if i0 > 0 else vv[0]], vv]))
        e["IRR"] = (np.maximum(dv, 0).sum() * step / 30, 1)
        e["IFR"] = (np.maximum(-dv, 0).sum() * step / 30, 1)
        if dpv[s] is not None:
            e["DPV"] = (float(dpv[s]), 0)
        if len(grow):
            e["IGS"] = (np.maximum(vv[grow] - green, 0).sum() * step / 365, 1)
            e["VGM"] = (vv[grow].mean(), 1)
            if len(grow) > 1:
                e["VGV"] = (vv[grow].std(ddof=1), 1)
            pk = ss + int(np.argmax(vv[grow]))
            if vv[pk] > 0:
                e["VPS"], e["DPS"] = (vv[pk], 0), (float(cc[pk]), 0)
                e["VPA"], e["VSA"], e["VGA"] = (vv[pk] - vv[ms], 0), (vv[pk] - base, 1), (vv[pk] - green, 1)
        vec = {}
        for nm, idx in (("E", np.arange(ss, ms)), ("A", grow), ("L", np.arange(ms, es))):
            if not len(idx):
                continue
            mx, my = px[i0:i1][idx].mean(), py[i0:i1][idx].mean()
            vec[nm] = np.hypot(mx, my)
            e["V%sV" % nm] = (vec[nm], 1)
            a = direction(mx, my) * 365 / (2 * np.pi)
            if vec[nm] > 5 and not near_int(a, 2e-2) and abs(a - td) > 1.01:
                e["D%sV" % nm] = (float(int(a) + 365 * (s if a > td else s + 1)), 0)
        if "DLV" in e and "DEV" in e:
            e["LGV"] = (e["DLV"][0] - e["DEV"][0], 0)
        if ms > ss:
            up = np.maximum(dv[ss:ms], 0) / step
            e["RAR"], e["RMR"] = (up.mean() * 30, 1), (up.max() * 30, 1)
        if es > ms:
            dn = np.maximum(-dv[ms:es], 0) / step
            e["RAF"], e["RMF"] = (dn.mean() * 30, 1), (dn.max() * 30, 1)
        res[y] = {k: x for k, x in e.items() if abs(x[0]) < 32700}
    return res


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    cube, rng = write(case, ctx)
    ny, nx = case["ny"], case["nx"]
    y1 = case["y0"] + case["years"] - 1
    mets = [METRICS[i] for i in sorted(np.random.default_rng(case["seed"] + 1).permutation(len(METRICS))[:case["metrics"]])]
    pct_on = case["pct"] or not mets
    s = dict(y0=case["y0"], years=case["years"], nx=nx, ny=ny)
    p = S.params(ctx, s, INTERPOLATE=case["method"], INT_DAY=case["step"], MOVING_MAX=40, RBF_SIGMA="8 16 32", POL=" ".join(mets or ["VPS"]), OUTPUT_TSI="TRUE", OUTPUT_POL="TRUE" if mets else "FALSE",
                 OUTPUT_PCT=str(pct_on).upper(), OUTPUT_TRO=str(bool(mets) and case["trend"] and case["years"] > 2).upper(), POL_START_THRESHOLD=case["th"][0],
                 POL_MID_THRESHOLD=case["th"][1], POL_END_THRESHOLD=case["th"][2], POL_ADAPTIVE=str(case["adaptive"]).upper())
    mask = np.ones((ny, nx), bool)
    if case["mask"] is not None:
        mask = np.random.default_rng(case["seed"] + 2).random((ny, nx)) < case["mask"]
        mask[0, 0] = True
        F.Cube(ctx.dir + "/mask", tile=(nx * 10, ny * 10)).write(0, 0, "m.tif", mask[None].astype(np.uint8), nodata=255, dtype="uint8")
        p.update(DIR_MASK=ctx.dir + "/mask", BASE_MASK="m.tif")
    r = hl.run_hl(ctx, "TSA", p)
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    tsi = hl.one(o, "_TSI.tif")
    ce = np.array([hl.ce(int(n[:4]), int(n[4:6]), int(n[6:8])) for n in tsi.names]) - case["y0"] * 365
    pol = {m: hl.one(o, "_%s-POL.tif" % m) for m in mets}
    years = ["YEAR-%04d" % y for y in range(case["y0"], y1 + 1)]
    for m in mets:
        if pol[m].data.shape[0] != case["years"]:
            out.fail("bands", "%s has bands %s, expected one per year" % (m, pol[m].names))
            return out
    pct = [hl.one(o, "_%s.tif" % m).data for m in ("PCX", "PCY")] if pct_on else None
    n = nt = 0
    for y in range(ny):
        for x in range(nx):
            here = [y * nx + x]
            v = tsi.data[:, y, x].astype(float)
            if not mask[y, x] or (v == hl.ND).all():
                n += len(mets)
                for m in mets:
                    if (pol[m].data[:, y, x] != hl.ND).any():
                        out.fail("nodata", "%s of a pixel without data or outside the mask: %s" % (m, pol[m].data[:, y, x].tolist()), here)
                if pct_on and any((c[:, y, x] != hl.ND).any() for c in pct):
                    out.fail("nodata", "polar coordinates of a pixel without data or outside the mask are %s" % pct[0][:5, y, x].tolist(), here)
                continue
            ok = v != hl.ND
            v = np.interp(ce, ce[ok], v[ok])
            if pct_on:
                rr = ce % 365
                rr = np.where(rr == 0, 365, rr) / 365.0 * 2 * np.pi
                vp = np.maximum(v, 0)
                for c, e, nm in ((pct[0], vp * np.cos(rr), "X"), (pct[1], vp * np.sin(rr), "Y")):
                    n += len(e)
                    bad = np.abs(c[:, y, x] - e) > 1.01
                    if bad.any():
                        i = int(np.argmax(bad))
                        out.fail("coordinates", "%s coordinate of %s (value %.1f) is %d, expected %.2f" % (nm, tsi.names[i], vp[i], c[i, y, x], e[i]), here)
            ref = reference(v, ce, case)
            if ref is None:
                out.label("undecided")
                continue
            out.label("pixel")
            for k in range(case["years"]):
                for m in mets:
                    g = int(pol[m].data[k, y, x])
                    if k not in ref:
                        n += 1
                        if g != hl.ND:
                            out.fail("season", "%s of year %d is %d, expected nodata (no complete season)" % (m, k, g), here)
                    elif m in ref[k]:
                        n += 1
                        nt += 1
                        val, tol = ref[k][m]
                        if (tol == 0 and abs(g - val) > 0.999) or abs(g - np.trunc(val)) > tol:
                            out.fail("metric-" + m, "%s of year %d is %d, expected %.2f (series %s, steps of %d days, thresholds %s, adaptive %s)" % (
                                m, k, g, val, np.rint(v).astype(int).tolist(), case["step"], case["th"], case["adaptive"]), here)
                    elif not ref[k]:
                        out.label("undecided season")
            if mets and case["trend"] and case["years"] > 2:
                for m in mets:
                    if METRICS.index(m) < 9:
                        continue
                    got = hl.one(o, "_%s-TRO.tif" % m).data[:, y, x]
                    f = pol[m].data[:, y, x].astype(float)
                    kk = np.flatnonzero(f != hl.ND)
                    n += 1
                    if len(kk) < 3:
                        if (got != hl.ND).any():
                            out.fail("trend", "trend of %s with %d values: %s" % (m, len(kk), got.tolist()), here)
                        continue
                    e = S.regress(kk.astype(float), f[kk], len(f), 0.95, "TWO")
                    for b, nm in enumerate(S.TRD):
                        if nm in e and not S.judge_trunc(int(got[b]), *e[nm]):
                            out.fail("trend", "%s of the trend of %s %s is %d, expected %.3f" % (nm, m, f[kk].tolist(), got[b], e[nm][0]), here)
                            break
            if len(out.fails) > 10:
                break
    out.evals, out.nontrivial = max(n, 1), nt
    out.label(case["shape"])
    out.label("adaptive" if case["adaptive"] else "static")
    out.sample = dict(metrics=mets[:5], thresholds=case["th"], first={m: pol[m].data[:, 0, 0].tolist() for m in mets[:4]})
    return out


def minimise(case, where):
    if where:
        for c in hl.minimise_pixels(case, where):
            yield c
