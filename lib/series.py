"""Generated per-pixel time series, written as an analysis-ready cube whose RED band is the series."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl

KINDS = ["uniform", "smooth", "trend", "step", "const", "small", "extreme"]


@st.composite
def series(draw, min_t=1, max_t=24, max_years=4, dup=True, side=(3, 9), kinds=KINDS, min_years=1):
    """acquisition days (0-based from 1 January of y0 on the 365-day calendar), layout and data seed"""
    years = draw(st.integers(min_years, max_years))
    span = years * 365
    mode = draw(st.sampled_from(["spread", "cluster", "edge"]))
    nt = draw(st.integers(min_t, max_t))
    if mode == "spread":
        day = st.integers(0, span - 1)
    elif mode == "cluster":
        c = draw(st.integers(0, span - 1))
        day = st.integers(max(0, c - 40), min(span - 1, c + 40))
    else:
        day = st.one_of(st.integers(0, span - 1), st.sampled_from([0, 1, 30, 31, 58, 59, 89, 90, 364, 363, span - 1]))
    days = draw(st.lists(day, min_size=nt, max_size=nt, unique=True))
    acq = [[d, 8] for d in sorted(days)]
    if dup and nt > 1 and draw(st.booleans()):
        k = draw(st.lists(st.sampled_from(sorted(days)), min_size=1, max_size=3, unique=True))
        acq = sorted(acq + [[d, 9] for d in k])
    return dict(y0=draw(st.sampled_from([1990, 2003, 2015, 2016])), years=years, acq=acq,
                nx=draw(st.integers(*side)), ny=draw(st.integers(*side)), seed=draw(st.integers(0, 2**31 - 1)),
                kind=draw(st.sampled_from(kinds)), gaps=draw(st.sampled_from(["few", "mixed", "none", "many"])))


def values(s, rng):
    """[nt][ny][nx] int16 values and validity"""
    nt, ny, nx = len(s["acq"]), s["ny"], s["nx"]
    t = np.array([a[0] for a in s["acq"]], float)[:, None, None]
    sh = (1, ny, nx)
    k = s["kind"]
    if k == "uniform":
        v = rng.integers(-2000, 12000, (nt, ny, nx)).astype(float)
    elif k == "smooth":
        v = rng.uniform(1000, 6000, sh) + rng.uniform(0, 3000, sh) * np.sin(2 * np.pi * (t / 365 + rng.uniform(0, 1, sh)))
        v = v + rng.normal(0, 50, (nt, ny, nx))
    elif k == "trend":
        v = rng.uniform(500, 6000, sh) + rng.uniform(-3, 3, sh) * t + rng.normal(0, 1, sh) * rng.normal(0, 120, (nt, ny, nx))
    elif k == "step":
        v = rng.uniform(500, 8000, sh) + np.where(t > rng.uniform(0, 365 * s["years"], sh), rng.uniform(-4000, 4000, sh), 0)
        v = v + rng.normal(0, 20, (nt, ny, nx))
    elif k == "const":
        v = np.broadcast_to(rng.integers(-500, 9000, sh), (nt, ny, nx)).astype(float)
    elif k == "small":
        v = rng.integers(-3, 4, (nt, ny, nx)).astype(float)
    else:
        v = rng.choice([-9000, -5000, -1, 0, 1, 9999, 10000, 16000], (nt, ny, nx)).astype(float)
    v = np.clip(np.rint(v), -9000, 20000).astype(np.int16)
    p = {"none": np.array([1.0]), "few": np.array([0.9]), "mixed": np.array([0.0, 0.2, 0.5, 0.8, 1.0]),
         "many": np.array([0.05, 0.15, 0.3])}[s["gaps"]]
    pp = rng.choice(p, sh)
    ok = rng.random((nt, ny, nx)) < pp
    keep = hl.keep_mask(s, ny, nx)
    ok &= keep[None]
    return v, ok


def write(ctx, s, band=2):
    """writes the cube below ctx.dir/lower; returns (expected TSS, dates, band names)"""
    base = ctx.dir
    hl.dirs(base)
    ny, nx = s["ny"], s["nx"]
    cube = F.Cube(base + "/lower", tile=(nx * 10, ny * 10))
    rng = np.random.default_rng(s["seed"])
    v, ok = values(s, rng)
    dates = [hl.from_ord(a[0], s["y0"]) for a in s["acq"]]
    names = []
    for t, (a, d) in enumerate(zip(s["acq"], dates)):
        boa = np.full((6, ny, nx), 500, np.int16)
        boa[band] = v[t]
        q = np.where(ok[t], 0, 1).astype(np.int16)
        hl.write_acq(cube, (0, 0), d, "LND%02d" % a[1], boa, q)
        names.append(hl.date_str(d) + "_LND%02d" % a[1])
    return np.where(ok, v, hl.ND), dates, names


def params(ctx, s, **kw):
    y1 = s["y0"] + s["years"] - 1
    rng = "%d-01-01 %d-12-31" % (s["y0"], y1)
    d = dict(SENSORS="LND08 LND09", INDEX="RED", DATE_RANGE=rng, HARMONIC_FIT_RANGE=rng,
             CHUNK_SIZE="%d %d" % (s["nx"] * 10, s["ny"] * 10))
    d.update(kw)
    return hl.tsa_params(ctx.dir, **d)


def ces(s):
    return np.array([s["y0"] * 365 + 1 + a[0] for a in s["acq"]])


def minimise(case, where):
    """keep few pixels, then drop acquisitions"""
    s = case["s"]
    if where:
        for c in hl.minimise_pixels(s, where):
            yield dict(case, s=c)
    if len(s["acq"]) > 1:
        for i in range(len(s["acq"])):
            yield dict(case, s=dict(s, acq=s["acq"][:i] + s["acq"][i + 1:]))


def steps(rmin, rmax, step, got):
    """continuous days of the interpolation steps; the last, incomplete step may or may not be part of the series"""
    lo = max(0, (rmax - rmin + 1) // step)
    hi = -(-(rmax - rmin + 1) // step)
    n = got if lo <= got <= hi else lo
    return rmin + step * np.arange(n)


def interp_none(tss):
    return tss


def interp_linear(ce, tss, x):
    """lists of acceptable values [alternatives][ni][ny][nx]; alternatives: which of two same-day observations"""
    nt, ny, nx = tss.shape
    alts = np.full((4, len(x), ny, nx), float(hl.ND))
    for iy in range(ny):
        for ix in range(nx):
            y = tss[:, iy, ix]
            k = np.flatnonzero(y != hl.ND)
            if len(k) == 0:
                continue
            c, v = ce[k], y[k].astype(float)
            uc = np.unique(c)
            first = np.array([v[c == u][0] for u in uc])
            last = np.array([v[c == u][-1] for u in uc])
            for j, (a, b) in enumerate(((first, first), (first, last), (last, first), (last, last))):
                pos = np.searchsorted(uc, x, side="left")
                r = np.empty(len(x))
                for i, xx in enumerate(x):
                    q = pos[i]
                    if q < len(uc) and uc[q] == xx:
                        r[i] = a[q]
                    elif q == 0:
                        r[i] = a[0]
                    elif q == len(uc):
                        r[i] = a[-1]
                    else:
                        r[i] = a[q - 1] + (b[q] - a[q - 1]) * (xx - uc[q - 1]) / (uc[q] - uc[q - 1])
                alts[j, :, iy, ix] = r
    return alts


def interp_moving(ce, tss, x, width):
    w = (np.abs(x[:, None] - ce[None, :]) <= width).astype(float)
    ok = (tss != hl.ND).astype(float)
    num = np.einsum("it,tyx->iyx", w, ok)
    s = np.einsum("it,tyx->iyx", w, np.where(tss != hl.ND, tss, 0).astype(float))
    return np.where(num > 0, s / np.maximum(num, 1), hl.ND)


def rbf_support(sigmas, cutoff):
    """(largest day distance, weight within) per kernel; None if the support is too close to call"""
    res = []
    nbin = 8 * sigmas[-1]
    nbin += 1 - nbin % 2
    h = (nbin - 1) // 2
    for s in sigmas:
        tot, mce, mw = 0.0, 0, 0.0
        for d in range(h + 1):
            tot += np.exp(-d * d / (2.0 * s * s)) / (s * np.sqrt(2 * np.pi))
            if abs(tot - cutoff / 2) < 2e-5:
                return None
            if tot <= cutoff / 2:
                mce, mw = d, tot
            else:
                break
        if mw == 0:
            return None
        res.append((mce, 2 * mw))
    return res


def interp_rbf(ce, tss, x, sigmas, support):
    ok = (tss != hl.ND).astype(float)
    val = np.where(tss != hl.ND, tss, 0).astype(float)
    num = den = 0
    dx = x[:, None] - ce[None, :]
    for s, (mce, mw) in zip(sigmas, support):
        w = np.exp(-dx * dx / (2.0 * s * s)) / (s * np.sqrt(2 * np.pi)) * (np.abs(dx) <= mce)
        num = num + np.einsum("it,tyx->iyx", w, val) / mw
        den = den + np.einsum("it,tyx->iyx", w, ok) / mw
    return np.where(den > 0, num / np.where(den > 0, den, 1), hl.ND)


def period(ymd, by):
    y, m, d = ymd
    n = hl.doy(m, d)
    return {"Y": y, "Q": (m + 2) // 3, "M": m, "W": min(52, (n + 6) // 7), "D": n}[by]


BYNAME = {"Y": "YEAR-%04d", "Q": "QUARTER-%d", "M": "MONTH-%02d", "W": "WEEK-%02d", "D": "DOY-%03d"}


def periods(s, by, doys=(1, 365)):
    if by == "Y":
        return list(range(s["y0"], s["y0"] + s["years"]))
    dd = range(doys[0], doys[1] + 1) if doys[0] <= doys[1] else list(range(1, doys[1] + 1)) + list(range(doys[0], 366))
    return sorted({period(hl.ymd_from_ce(365 + n), by) for n in dd})


def stat(name, y):
    """(expected real value, tolerance) of a statistic over the valid values y (1-d, non-empty); None = not judged"""
    y = np.asarray(y, float)
    n = len(y)
    if name == "NUM":
        return n, 0
    if name == "MIN":
        return y.min(), 0
    if name == "MAX":
        return y.max(), 0
    if name == "RNG":
        return y.max() - y.min(), 0
    if name == "AVG":
        return y.mean(), 1
    if name == "STD":
        return (y.std(ddof=1), 1) if n > 1 else None
    if name in ("SKW", "KRT"):
        m2 = ((y - y.mean()) ** 2).mean()
        if n < 2 or y.min() == y.max():
            return None
        k = 3 if name == "SKW" else 4
        v = ((y - y.mean()) ** k).mean() / m2 ** (k / 2) - (0 if k == 3 else 3)
        return float(np.clip(v * 1000, -30000, 30000)), 1.01
    if name == "IQR":
        q = np.quantile(y, [0.25, 0.75])
        return float(np.trunc(q[1]) - np.trunc(q[0])), 1
    if name.startswith("Q"):
        return float(np.quantile(y, int(name[1:]) / 100.0)), 1
    raise KeyError(name)


STATS = ["MIN", "MAX", "RNG", "AVG", "STD", "SKW", "KRT", "NUM", "IQR"]


def t_sf2(t, df):
    """two-sided tail probability of Student's t (regularised incomplete beta, continued fraction)"""
    from math import lgamma, exp, log
    t = abs(t)
    if t > 1e12:
        return 0.0
    x = df / (df + t * t)
    a, b = df / 2.0, 0.5

    def cf(a, b, x):
        qab, qap, qam = a + b, a + 1, a - 1
        c, d = 1.0, 1 - qab * x / qap
        d = 1 / (d if abs(d) > 1e-300 else 1e-300)
        h = d
        for m in range(1, 400):
            m2 = 2 * m
            aa = m * (b - m) * x / ((qam + m2) * (a + m2))
            d = 1 + aa * d
            d = 1 / (d if abs(d) > 1e-300 else 1e-300)
            c = 1 + aa / c
            h *= d * c
            aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2))
            d = 1 + aa * d
            d = 1 / (d if abs(d) > 1e-300 else 1e-300)
            c = 1 + aa / c
            h *= d * c
            if abs(d * c - 1) < 1e-12:
                break
        return h
    if x <= 0 or x >= 1:
        return 1.0 if x >= 1 else 0.0
    bt = exp(lgamma(a + b) - lgamma(a) - lgamma(b) + a * log(x) + b * log(1 - x))
    if x < (a + 1) / (a + b + 2):
        return bt * cf(a, b, x) / a
    return 1 - bt * cf(b, a, 1 - x) / b


_tc = {}


def t_crit(p2, df):
    """t with two-sided tail probability p2"""
    k = (round(p2, 9), df)
    if k not in _tc:
        lo, hi = 0.0, 1e6
        for _ in range(200):
            mid = (lo + hi) / 2
            if t_sf2(mid, df) > p2:
                lo = mid
            else:
                hi = mid
        _tc[k] = (lo + hi) / 2
    return _tc[k]


TRD = ["MEAN", "OFFSET", "SLOPE", "PRC_GAIN", "ABS_GAIN", "RSQ", "SIG", "RMSE", "MAE", "MAXE", "NUM", "LEN"]


def regress(x, y, nlen, conf, tail, x_off=0.0):
    """expected trend bands {name: (value, tolerance)} of >= 3 points; names absent where not judged"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    k = len(x)
    mx, my = x.mean(), y.mean()
    sxx = ((x - mx) ** 2).sum()
    syy = ((y - my) ** 2).sum()
    sxy = ((x - mx) * (y - my)).sum()
    slp = sxy / sxx
    off = my - slp * mx
    e = y - (off + slp * x)
    sse = (e * e).sum()
    o = off + slp * x_off
    r = dict(MEAN=(my, 1), OFFSET=(o, 1), SLOPE=(slp, 1), ABS_GAIN=(slp * nlen, 1), RMSE=(np.sqrt(sse / k), 1),
             MAE=(np.abs(e).mean(), 1), MAXE=(np.abs(e).max(), 1), NUM=(k, 0), LEN=(nlen, 0))
    if syy > 0:
        r["RSQ"] = (sxy * sxy / (sxx * syy) * 10000, 1.01)
    if abs(o) > 1:
        g = slp * nlen / o * 100
        if abs(g) < 32000:
            r["PRC_GAIN"] = (g if o > 0 else 0.0, 1.01)
    # significance, where clearly decided
    if k > 2 and sse > 1e-6 * max(1.0, syy):
        t = slp / (np.sqrt(sse / (k - 2)) / np.sqrt(sxx))
        p2 = (1 - conf) if tail == "TWO" else 2 * (1 - conf)
        tc = t_crit(p2, k - 2)
        if tail == "LEFT":
            lo, hi = t <= -tc * 1.05, t >= -tc * 0.95
            s = -1 if lo else (0 if hi else None)
        elif tail == "RIGHT":
            s = 1 if t >= tc * 1.05 else (0 if t <= tc * 0.95 else None)
        else:
            s = (1 if t > 0 else -1) if abs(t) >= tc * 1.05 else (0 if abs(t) <= tc * 0.95 else None)
        if s is not None:
            r["SIG"] = (s, 0)
    return {n: v for n, v in r.items() if abs(v[0]) < 32760}


def judge_trunc(got, val, tol):
    """True if an integer result equals a real value truncated (tol >= 1 allows for one unit of rounding)"""
    if tol == 0:
        return got == val
    return abs(got - np.trunc(val)) <= 1 if tol == 1 else abs(got - val) <= tol + 1
