"""Inputs and reference of the ImproPhe modules."""
import numpy as np

import fcube as F
import hl
import modules as M

ND = hl.ND
THR = (0.025, 0.05, 0.1, 0.2, 0.4)


def pattern(rng, ny, nx, kind):
    y, x = np.mgrid[0:ny, 0:nx]
    if kind == "groups":
        g = np.zeros((ny, nx), int)
        for _ in range(int(rng.integers(1, 4))):
            cy, cx, r = rng.uniform(0, ny), rng.uniform(0, nx), rng.uniform(1.5, 5)
            g[(y - cy) ** 2 + (x - cx) ** 2 <= r * r] = 1
        return g.astype(float)
    if kind == "mixed":
        return (rng.random((ny, nx)) < 0.4).astype(float)
    if kind == "steps":
        return np.floor(4 * x / nx) / 3.0
    return np.sin((x + 2 * y + rng.uniform(0, 9)) / 4.0)


def fine(rng, c, ny, nx, nb=10):
    """{(ymd, sensor): (boa, qai, valid)}"""
    pat = pattern(rng, ny, nx, c["pattern"])
    out = {}
    # equal contrast in all bands is as likely as contrast in some bands only
    gain = np.full(nb, 1200.0) if rng.random() < 0.5 else rng.choice([-1500.0, 0.0, 700.0, 1500.0], nb)
    if not gain.any():
        gain[:] = 900.0
    base = rng.uniform(2500, 5000, nb)
    for i, (o, s) in enumerate(c["fine"]):
        v = base[:, None, None] + gain[:, None, None] * pat * rng.uniform(0.8, 1.2) + rng.normal(0, c["noise"], (nb, ny, nx))
        cl = rng.random((ny, nx)) < c["cloud"]
        q = np.where(cl, F.qai_make(cloud=2), 0).astype(np.int64)
        off = np.zeros((ny, nx), bool)
        if c["void"]:
            off = rng.random((ny, nx)) < 0.05
            if rng.random() < 0.3:
                off[:, :nx // 2] = True
        v = np.rint(v).astype(np.int16)
        v[:, off] = ND
        q[off] = 1
        out[hl.from_ord(o, 2015), s] = (v, q.astype(np.int16), ~(cl | off))
    return pat, out


def seasonal(fine_, window, year, mask):
    """truncated averages per window; without data in a window the mean of all windows; None if there is nothing"""
    nwin = len(window) - 1
    items = list(fine_.items())
    nb, ny, nx = items[0][1][0].shape
    tot, cnt = np.zeros((nwin + 1, nb, ny, nx)), np.zeros((nwin + 1, ny, nx), int)
    for ((y, m, d), s), (v, q, ok) in items:
        doy = hl.doy(m, d)
        w = None
        for k in range(nwin):
            a, b = window[k], window[k + 1]
            if a < b and a <= doy < b and (year is None or y == year):
                w = k
            elif a > b and ((doy >= a and (year is None or y in (year - 1, year))) or (doy < b and (year is None or y in (year, year + 1)))):
                w = k
            if w is not None:
                break
        if w is None:
            continue
        for j in (w, nwin):
            tot[j][:, ok] += v[:, ok]
            cnt[j][ok] += 1
    ok = (cnt[nwin] > 0) & mask
    if not ok.any():
        return None, ok
    avg = np.where(cnt[:nwin, None] > 0, tot[:nwin] / np.maximum(cnt[:nwin, None], 1), tot[nwin] / np.maximum(cnt[nwin], 1))
    return np.trunc(avg.reshape(nwin * nb, ny, nx)), ok


def components(avg, ok):
    """standardized principal components that hold 97.5 % of the variance; second result: is the choice clear?"""
    X = avg[:, ok].T
    if len(X) < 3:
        return None, False
    X = X - X.mean(0)
    ev, U = np.linalg.eigh(X.T @ X / (len(X) - 1))
    ev, U = ev[::-1], U[:, ::-1]
    if ev[0] <= 1e-6:
        return None, False
    share = np.cumsum(ev) / ev.sum()
    n = int(np.argmax(share > 0.975)) + 1
    clear = abs(share - 0.975).min() > 1e-4 and all(ev[i] - ev[i + 1] > 5e-3 * ev[i] for i in range(min(n, len(ev) - 1)))
    P = X @ U[:, :n]
    P = (P - P.mean(0)) / P.std(0, ddof=1)
    hr = np.full((n,) + ok.shape, np.nan)
    hr[:, ok] = P.T
    return hr, clear


def focal_sd(a, h):
    """largest standard deviation over the bands in a square window, nan = no data"""
    nb, ny, nx = a.shape
    out = np.zeros((ny, nx))
    for i in range(ny):
        for j in range(nx):
            w = a[:, max(0, i - h):i + h + 1, max(0, j - h):j + h + 1].reshape(nb, -1)
            for b in range(nb):
                v = w[b][~np.isnan(w[b])]
                if len(v) > 1:
                    out[i, j] = max(out[i, j], v.std(ddof=1) if v.min() != v.max() else 0.0)
    return out


def weight(v, use):
    pos = v[use & (v > 0)]
    lo, hi = (pos.min(), pos.max()) if len(pos) else (0.0, 0.0)
    if hi == lo:
        return np.ones_like(v), np.inf
    return np.where(v == 0, 1.0, 1 + np.exp(np.minimum(25 * (v - lo) / (hi - lo) - 7.5, 50))), hi - lo


def predict(hr, avg, mr, h, ht):
    """per pixel: expected values, bounds over the similar neighbours, is the value sharp? (hr nan = no fine data, mr nan = no coarse data)"""
    nb, ny, nx = mr.shape
    t = focal_sd(hr, ht)
    u = np.stack([focal_sd(mr[b:b + 1], ht) for b in range(nb)])
    exp, lo, hi = (np.full((nb, ny, nx), np.nan) for _ in range(3))
    sharp = np.zeros((ny, nx), bool)
    hv, mv = ~np.isnan(hr[0]), ~np.isnan(mr).any(0)
    yy, xx = np.mgrid[0:ny, 0:nx]
    mink = int(((2 * h + 1) ** 2 * np.pi / 4) * 0.5 / 100)
    for i in range(ny):
        for j in range(nx):
            if not mv[i, j]:
                continue
            if not hv[i, j]:
                # no fine data at the pixel: only that the value stems from the kernel
                k = ((yy - i) ** 2 + (xx - j) ** 2 <= h * h) & mv
                lo[:, i, j], hi[:, i, j] = mr[:, k].min(1), mr[:, k].max(1)
                continue
            k = ((yy - i) ** 2 + (xx - j) ** 2 <= h * h) & mv & hv
            S = abs(hr[:, k] - hr[:, i, j][:, None]).mean(0)
            near = abs(S[:, None] - np.array(THR)).min() < 2e-4
            cand = S < THR[-1] + 2e-4
            m = mr[:, k]
            lo[:, i, j], hi[:, i, j] = m[:, cand].min(1), m[:, cand].max(1)
            n = [int((S < s).sum()) for s in THR]
            sc = next((x for x in range(5) if n[x] >= mink), 4)
            use = S < THR[sc]
            same = (avg[:, k] == avg[:, i, j][:, None]).all(0)
            Sx = np.where(same, 0.0, S)
            ws, rs = weight(Sx, use)
            T = t[k]
            wt, rt = weight(T, use)
            ok = not near and rs > 0.002 and rt > 0.002 and not ((Sx > 0) & (Sx < 1e-5)).any() and not ((T > 0) & (T < 1e-5)).any()
            for b in range(nb):
                wu, ru = weight(u[b][k], use)
                ok = ok and ru > 0.002
                w = 1 / (ws * wt * wu)
                exp[b, i, j] = (w[use] * m[b][use]).sum() / w[use].sum()
            sharp[i, j] = ok
    return exp, lo, hi, sharp


def params(ctx, kind, c):
    p = M.params(ctx, kind)
    p.update(X_TILE_RANGE="0 0", Y_TILE_RANGE="0 0", RESOLUTION=10, CHUNK_SIZE="%d %d" % (10 * c["nx"], 10 * c["ny"]), SENSORS="SEN2A SEN2B", TARGET_SENSOR="SEN2L",
             DATE_RANGE="2015-01-01 2016-12-31", SCREEN_QAI="NODATA CLOUD_OPAQUE", ABOVE_NOISE=0, BELOW_NOISE=0, SEASONAL_WINDOW=" ".join(map(str, c["window"])),
             KERNEL_SIZE=10 * c["h"], KERNEL_TEXT=10 * c["ht"])
    if kind == "L2IMP":
        p.update(SENSORS_LOWRES="LND08 LND09")
    else:
        p.update(DIR_COARSE=ctx.dir + "/coarse", BASE_COARSE=" ".join("cf%d.tif" % i for i in range(c["fields"])), COARSE_1ST_YEAR=c["first"], COARSE_NODATA=ND,
                 COARSE_PREDICT_YEARS=" ".join(map(str, c["years"])))
    return p


def build(ctx, c):
    """writes the inputs; (parameters, mask, fine data, coarse data)"""
    rng = np.random.default_rng([c["seed"], 39])
    ny, nx = c["ny"], c["nx"]
    p = params(ctx, c["kind"], c)
    cube = F.Cube(ctx.dir + "/lower", tile=(nx * 10, ny * 10))
    pat, fin = fine(rng, c, ny, nx)
    for (ymd, s), (v, q, ok) in fin.items():
        hl.write_acq(cube, (0, 0), ymd, s, v, q)
    mask = np.ones((ny, nx), bool)
    if c["mask"]:
        mask = np.zeros((ny, nx), bool) if c["mask"] == "none" else rng.random((ny, nx)) < 0.8
        mc = F.Cube(ctx.dir + "/mask", tile=(nx * 10, ny * 10))
        mc.write(0, 0, "m.tif", mask[None].astype(np.uint8), nodata=255, dtype="uint8")
        p.update(DIR_MASK=ctx.dir + "/mask", BASE_MASK="m.tif")

    def coarse(nb):
        """values that follow the fine pattern, smeared"""
        v = np.stack([rng.uniform(500, 3000) + rng.choice([-1, 1]) * 400 * pat + rng.normal(0, 60, (ny, nx)) for _ in range(nb)])
        if c["coarse"] == "constant":
            v[:] = np.round(v[:, :1, :1])
        elif c["coarse"] == "blocks":
            v = v[:, (np.arange(ny) // 3 * 3)][:, :, (np.arange(nx) // 3 * 3)]
        v = np.rint(v).astype(np.int16)
        off = rng.random((ny, nx)) < c["cvoid"]
        v[:, off] = ND
        return v, off
    co = {}
    if c["kind"] == "L2IMP":
        for i, o in enumerate(c["acq"]):
            v, off = coarse(6)
            cl = rng.random((ny, nx)) < c["cloud"]
            q = np.where(off, 1, np.where(cl, F.qai_make(cloud=2), 0)).astype(np.int16)
            ymd, s = hl.from_ord(o, 2015), "LND%02d" % (8 + i % 2)
            hl.write_acq(cube, (0, 0), ymd, s, v, q)
            co[ymd, s] = (v, ~(off | cl))
    else:
        cc = F.Cube(ctx.dir + "/coarse", tile=(nx * 10, ny * 10))
        for f in range(c["fields"]):
            v = coarse(c["bands"])[0]
            cc.write(0, 0, "cf%d.tif" % f, v, nodata=ND)
            co[f] = v
    return p, mask, fin, co
