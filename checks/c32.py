"""Clear-sky observation statistics against a reference count of the usable observations and their gaps."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
import modules as M
import series as S
from harness import Outcome

ID = "C32"
RULE = ("a case is a set of acquisitions of two sensors over up to three years with per-pixel quality flags, a date range, a day-of-year "
        "range, a window length and a list of statistics; one evaluation = one statistic of one pixel and window; distinct non-trivial = "
        "values of windows holding at least one usable observation")
TIERS = {"quick": dict(examples=1200, budget=25), "thorough": dict(examples=3000, budget=70)}
NDC = -32768
QS = ["Q%02d" % q for q in range(1, 100)]
MLEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
ASSUMPTIONS = ["standard deviation, skewness and kurtosis of a single gap (or equal gaps) are undefined and not judged"]


@st.composite
def strategy_(draw, tier):
    y0 = draw(st.integers(2015, 2019))
    ny = draw(st.integers(0, 2))
    if draw(st.booleans()):
        d0, d1 = (y0, 1, 1), (y0 + ny, 12, 31)
    else:
        m0, m1 = draw(st.integers(1, 12)), draw(st.integers(1, 12))
        if ny == 0 and m1 < m0:
            m0, m1 = m1, m0
        d0 = (y0, m0, draw(st.one_of(st.just(1), st.integers(1, MLEN[m0 - 1]))))
        d1 = (y0 + ny, m1, draw(st.one_of(st.just(MLEN[m1 - 1]), st.integers(1, MLEN[m1 - 1]))))
        if d1 < d0:
            d0, d1 = d1, d0
    day = st.one_of(st.integers(-20, (ny + 1) * 365 + 20), st.integers(0, ny * 12 + 11).map(lambda k: (k // 12) * 365 + sum(MLEN[:k % 12])))
    acq = draw(st.lists(st.tuples(day, st.sampled_from(["LND08", "LND05"])), min_size=6, max_size=26, unique=True))
    doys = (1, 365)
    if draw(st.integers(0, 3)) == 0:
        a, b = draw(st.integers(1, 365)), draw(st.integers(1, 365))
        doys = (min(a, b), max(a, b))
    metrics = draw(st.lists(st.one_of(st.sampled_from(S.STATS), st.sampled_from(["Q25", "Q75", "Q50"]), st.sampled_from(QS)),
                            min_size=1, max_size=6, unique=True))
    return dict(d0=d0, d1=d1, acq=[list(a) for a in acq], doys=doys, step=draw(st.sampled_from([1, 3, 2, 6, 12, 4, 5, 7])), metrics=metrics,
                side=draw(st.sampled_from([4, 6, 9])), p=draw(st.sampled_from([0.3, 0.6, 0.1, 0.0])), seed=draw(st.integers(0, 2**31 - 1)),
                mask=draw(st.integers(0, 3)) == 0, y0=y0)


def strategy(tier):
    return strategy_(tier)


def windows(d0, d1, step):
    y, m = d0[0], d0[1]
    w = []
    while (y, m) <= (d1[0], d1[1]):
        w.append((y, m))
        m += step
        if m > 12:
            y, m = y + 1, m - 12
    return w + [(y, m)]


def run_case(case, ctx):
    out = Outcome()
    n = case["side"]
    rng = np.random.default_rng(case["seed"])
    base = ctx.dir
    hl.dirs(base)
    cube = F.Cube(base + "/lower", tile=(n * 10, n * 10))
    keep = hl.keep_mask(case, n, n)
    ce0 = hl.ce(case["y0"], 1, 1)
    d0, d1 = tuple(case["d0"]), tuple(case["d1"])
    obs = []
    for off, sensor in sorted((a[0], a[1]) for a in case["acq"]):
        ymd = hl.ymd_from_ce(ce0 + off)
        bad = rng.random((n, n)) < case["p"]
        q = np.where(bad, F.qai_make(cloud=2), 0)
        q[rng.random((n, n)) < 0.1] = F.qai_make(off=1)
        boa = rng.integers(0, 5000, (len(hl.sensor_bands(ctx, sensor)), n, n))
        hl.write_acq(cube, (0, 0), ymd, sensor, boa, q)
        if d0 <= tuple(ymd) <= d1 and case["doys"][0] <= hl.doy(ymd[1], ymd[2]) <= case["doys"][1]:
            obs.append((ce0 + off, q == 0))
    kw = {}
    mask = None
    if case["mask"]:
        mask = (rng.random((n, n)) < 0.7).astype(np.uint8)
        mask[0, 0] = 1
        F.Cube(base + "/mask", tile=(n * 10, n * 10)).write(0, 0, "m.tif", mask[None], nodata=255, dtype="uint8")
        kw = dict(DIR_MASK=base + "/mask", BASE_MASK="m.tif")
    p = M.params(ctx, "CSO", CSO=" ".join(case["metrics"]), MONTH_STEP=case["step"], DOY_RANGE="%d %d" % tuple(case["doys"]),
                       DATE_RANGE="%04d-%02d-%02d %04d-%02d-%02d" % (d0 + d1), SENSORS="LND05 LND08", TARGET_SENSOR="LNDLG",
                       SCREEN_QAI="NODATA CLOUD_OPAQUE", CHUNK_SIZE="%d %d" % (n * 10, n * 10), **kw)
    r = M.run(ctx, "CSO", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(base + "/higher")
    if not obs:
        if o:
            out.fail("empty", "output %s although no acquisition is selected" % sorted(o))
        out.label("no acquisition")
        return out
    win = windows(d0, d1, case["step"])
    edges = [hl.ce(y, m, 1) for y, m in win]
    nt = tot = 0
    if len(o) != len(case["metrics"]):
        out.fail("files", "%s for %s" % (sorted(o), case["metrics"]))
        return out
    ctl = np.array([c for c, _ in obs])
    use = np.stack([u for _, u in obs])
    names = ["%04d%02d01" % w for w in win[:-1]]
    for m in case["metrics"]:
        ras = hl.one(o, "_HL_CSO_LNDLG_%s.tif" % m)
        if ras.names != names:
            out.fail("windows", "%s has windows %s, expected %s" % (m, ras.names, names))
            return out
        for w in range(len(names)):
            a, b = edges[w], edges[w + 1]
            sel = (ctl >= a) & (ctl < b)
            for y in range(n):
                for x in range(n):
                    if not keep[y, x]:
                        continue
                    g = int(ras.data[w, y, x])
                    d = ctl[sel & use[:, y, x]]
                    if mask is not None and not mask[y, x]:
                        e, good = NDC, g == NDC
                    elif m == "NUM":
                        e, good = len(d), g == len(d)
                    else:
                        gaps = np.diff(np.unique(np.concatenate([[a], d, [b]])))
                        e = S.stat(m, gaps)
                        if e is None:
                            continue
                        good = S.judge_trunc(g, *e)
                    tot += 1
                    nt += len(d) > 0
                    if not good:
                        out.fail("cso-" + (m if m[0] != "Q" else "Q"), "%s of window %s (%d days), clear observations on days %s, is %d, "
                                 "expected %s" % (m, names[w], b - a, (d - a).tolist(), g, e), [y * n + x])
    out.evals, out.nontrivial = tot, nt
    out.label("step %d" % case["step"])
    out.label("windows %s" % ("1" if len(names) == 1 else "2-6" if len(names) < 7 else ">6"))
    out.sample = dict(metrics=case["metrics"], dates=len(obs), windows=names[:4])
    return out


def minimise(case, where):
    return hl.minimise_pixels(case, where)
