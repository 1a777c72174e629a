"""Harmonic interpolation: exact recovery, model space, locality to the fitting period, forecast residuals."""
import numpy as np
from hypothesis import strategies as st

import hl
import series as S
from harness import Outcome

ID = "C23"
RULE = ("a case is a set of acquisition days over 1-4 years, a fitting period, one to three modes with or without trend, and per-pixel "
        "series that either follow the model exactly (rounded) or are arbitrary, with missing observations; one evaluation = one value "
        "of the interpolated or the forecast-residual product; distinct non-trivial = values at pixels with enough observations in the "
        "fitting period for a well-conditioned fit")
TIERS = {"quick": dict(examples=700, budget=25), "thorough": dict(examples=2400, budget=70)}
ASSUMPTIONS = ["fits are judged against the generating model only where observations exceed twice the number of coefficients and the "
               "design is well conditioned at the judged date (leverage below 3)"]


@st.composite
def strategy_(draw, tier):
    years = draw(st.integers(1, 4))
    span = years * 365
    nt = draw(st.one_of(st.integers(20, 60), st.integers(1, 14)))
    days = draw(st.lists(st.integers(0, span - 1), min_size=nt, max_size=nt, unique=True))
    acq = [[d, 8] for d in sorted(days)]
    for d in draw(st.lists(st.sampled_from(sorted(days)), max_size=2, unique=True)):
        acq.append([d, 9])
    acq.sort()
    s = dict(y0=draw(st.sampled_from([1990, 2003, 2016])), years=years, acq=acq, nx=draw(st.integers(3, 8)), ny=draw(st.integers(3, 8)),
             seed=draw(st.integers(0, 2**31 - 1)), kind="uniform", gaps=draw(st.sampled_from(["none", "few", "mixed"])))
    full = draw(st.integers(0, 3)) == 0
    a = 0 if draw(st.booleans()) else draw(st.integers(0, span // 3))
    fit = [0, span - 1] if full else [a, draw(st.integers(a + 1, span - 1))]
    fit = fit if fit[1] - fit[0] > 1 else [0, span - 1]
    return dict(s=s, fit=fit, modes=draw(st.sampled_from([2, 1, 3])), trend=draw(st.booleans()), data=draw(st.sampled_from(["model", "model", "any"])),
                step=draw(st.sampled_from([16, 10, 5, 30, 90])), nrt=draw(st.sampled_from([True, True, False])), pert=draw(st.booleans()))


def strategy(tier):
    return strategy_(tier)


def basis(x, modes, trend, x0):
    c = [np.ones(len(x))]
    if trend:
        c.append((x - x0) / 365.0)
    for k in range(1, modes + 1):
        c += [np.cos(2 * np.pi * k * x / 365.0), np.sin(2 * np.pi * k * x / 365.0)]
    return np.stack(c, 1)


def run_case(case, ctx):
    out = Outcome()
    s = case["s"]
    r0 = s["y0"] * 365 + 1
    lo, hi = r0 + case["fit"][0], r0 + case["fit"][1]
    ce = S.ces(s)
    rng = np.random.default_rng(s["seed"] ^ 0x5bd1)
    ny, nx = s["ny"], s["nx"]
    modes, trend = case["modes"], case["trend"]
    B = basis(ce, modes, trend, r0)
    coef = rng.uniform(-700, 700, (B.shape[1], ny, nx))
    coef[0] += rng.choice([3000, 3000, 0, -3000], (ny, nx))
    inside = (ce >= lo) & (ce <= hi)
    truth = np.einsum("tk,kyx->tyx", B, coef)
    orig = S.values

    def vals(ss, r):
        v, ok = orig(ss, r)
        if case["data"] == "model":
            v = np.where(inside[:, None, None], np.clip(np.rint(truth), -9000, 20000), v).astype(np.int16)
        return v, ok
    S.values = vals
    try:
        tss, dates, names = S.write(ctx, s)
    finally:
        S.values = orig
    d = "%04d-%02d-%02d"
    p = S.params(ctx, s, INTERPOLATE="HARMONIC", INT_DAY=case["step"], HARMONIC_MODES=modes, HARMONIC_TREND="TRUE" if trend else "FALSE",
                 HARMONIC_FIT_RANGE=(d + " " + d) % (hl.ymd_from_ce(lo) + hl.ymd_from_ce(hi)), OUTPUT_TSI="TRUE",
                 OUTPUT_NRT="TRUE" if case["nrt"] else "FALSE")
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    tsi = hl.one(o, "_TSI.tif").data.astype(float)
    x = S.steps(r0, r0 + s["years"] * 365 - 1, case["step"], tsi.shape[0])
    if len(x) != tsi.shape[0]:
        out.fail("steps", "%d interpolation dates, expected %d" % (tsi.shape[0], len(x)))
        return out
    nc = B.shape[1]
    k = ((tss != hl.ND) & inside[:, None, None]).sum(0)
    few = k < nc
    out.evals = tsi.size
    bad = (tsi != hl.ND) & few
    if bad.any():
        i = np.argwhere(bad)[0]
        out.fail("few", "%d observations in the fitting period, %d coefficients, but value %d" % (k[i[1], i[2]], nc, tsi[tuple(i)]),
                 [a[1] * nx + a[2] for a in np.argwhere(bad)[:50]])
    after = ce > hi
    nrt = None
    have = [f for f in o if "_NRT" in f]
    if case["nrt"] and after.any():
        if len(have) != 1:
            out.fail("nrt-file", "no forecast residual product; outputs %s" % sorted(o))
            return out
        g = o[have[0]]
        nrt = g.data.astype(float)
        want = [n for n, a in zip(names, after) if a]
        if [n[:8] for n in g.names] != [n[:8] for n in want]:
            out.fail("nrt-names", "bands %s, expected %s" % (g.names, want))
            return out
        nd = (nrt == hl.ND)
        exp_nd = (tss[after] == hl.ND) | few[None]
        m = (nd != exp_nd)
        if m.any():
            i = np.argwhere(m)[0]
            out.fail("nrt-nodata", "forecast residual %d at band %s, observation %d, %d observations for %d coefficients" % (
                nrt[tuple(i)], g.names[i[0]], tss[after][tuple(i)], k[i[1], i[2]], nc), [a[1] * nx + a[2] for a in np.argwhere(m)[:50]])
        out.evals += nrt.size
    elif have:
        out.fail("nrt-file", "unexpected %s" % have)
    # the curve is a member of the model family, and (for model data) the generating one
    Bx = basis(x, modes, trend, r0)
    Ba = basis(ce[after], modes, trend, r0)
    for iy in range(ny):
        for ix in range(nx):
            if few[iy, ix]:
                continue
            sel = (tss[:, iy, ix] != hl.ND) & inside
            A = B[sel]
            if k[iy, ix] < 2 * nc + 2 or len(np.unique(ce[sel])) < 2 * nc:
                continue
            sv = np.linalg.svd(A, compute_uv=False)
            if sv[-1] < 1e-2:
                continue
            pinv = np.linalg.pinv(A)
            lev = np.abs(Bx @ pinv).sum(1)       # bound on the effect of unit errors in the observations
            y = tsi[:, iy, ix]
            rangeok = np.abs(y) < 32000
            if case["data"] == "model":
                e = Bx @ coef[:, iy, ix]
                j = (lev < 3) & (np.abs(e) < 30000) & (np.abs(truth[sel, iy, ix]).max() < 8900)
                b = j & (np.abs(y - e) > 1 + 3 * lev)
                out.nontrivial += int(j.sum())
                if b.any():
                    q = int(np.flatnonzero(b)[0])
                    out.fail("fit", "observations follow the model exactly, value %d at date %s, model %.1f (modes %d, trend %s, %d observations)" % (
                        y[q], hl.date_str(hl.ymd_from_ce(x[q])), e[q], modes, trend, k[iy, ix]), [iy * nx + ix])
                if nrt is not None:
                    ea = Ba @ coef[:, iy, ix]
                    la = np.abs(Ba @ pinv).sum(1)
                    ob = tss[after, iy, ix]
                    e = ob - ea
                    j = (la < 3) & (ob != hl.ND) & (np.abs(e) < 32000)
                    b = j & (np.abs(nrt[:, iy, ix] - e) > 1 + 3 * la)
                    out.nontrivial += int(j.sum())
                    out.label("forecast residuals", j.sum())
                    if b.any():
                        q = int(np.flatnonzero(b)[0])
                        out.fail("nrt", "residual %d for observation %d, prediction %.1f" % (nrt[q, iy, ix], ob[q], ea[q]), [iy * nx + ix])
            else:
                # away from the observations the curve may leave the range of the data type
                j = (lev < 3) & (x >= ce[sel].min()) & (x <= ce[sel].max()) & rangeok
                if j.sum() <= 2 * nc + 2 or np.abs(np.diff(y[j])).max() > 20000:
                    continue
                c, _, rank, _ = np.linalg.lstsq(Bx[j], y[j], rcond=None)
                res = np.abs(Bx[j] @ c - y[j]).max()
                out.nontrivial += int(j.sum())
                if rank == nc and res > 1.6:
                    out.fail("family", "the interpolated curve deviates by %.1f from every curve with %d modes, trend %s" % (res, modes, trend),
                             [iy * nx + ix])
    out.label("%s modes %d%s" % (case["data"], modes, " trend" if trend else ""))
    out.label("too few", few.sum())
    # observations outside the fitting period play no role
    if case["pert"] and (~inside).any() and inside.any() and not out.fails:
        import shutil
        shutil.rmtree(ctx.dir + "/higher")
        shutil.rmtree(ctx.dir + "/lower")
        s2 = dict(s)

        def vals2(ss, r):
            v, ok = vals(ss, r)
            o2 = rng.random(ok.shape) < 0.7
            v2 = rng.integers(-2000, 12000, v.shape)
            out_ = ~inside[:, None, None]
            return np.where(out_, v2, v).astype(np.int16), np.where(out_, o2, ok)
        S.values = vals2
        try:
            S.write(ctx, s2)
        finally:
            S.values = orig
        r = hl.run_hl(ctx, "TSA", p)
        if r.rc != 0:
            out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
            return out
        t2 = hl.one(hl.outputs(ctx.dir + "/higher"), "_TSI.tif").data.astype(float)
        out.evals += hl.compare(out, "outside", t2, tsi, what="interpolation after changing observations outside the fitting period")
        out.label("perturbed outside")
    out.sample = dict(modes=modes, trend=trend, observations=len(ce), in_fit=int(inside.sum()), dates=len(x))
    return out


minimise = S.minimise
