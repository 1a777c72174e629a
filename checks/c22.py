"""Interpolation against a direct evaluation of its definition."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
import series as S
from harness import Outcome

ID = "C22"
RULE = ("a case is a generated set of acquisition days (gaps, clusters, two sensors on one day), per-pixel series with missing "
        "observations, a date range, an interpolation method and a step; one evaluation = one value of the interpolated series; "
        "distinct non-trivial = interpolated values at pixels with at least two observations that are not nodata")
TIERS = {"quick": dict(examples=900, budget=25), "thorough": dict(examples=2400, budget=70)}


@st.composite
def strategy_(draw, tier):
    s = draw(S.series(max_years=3))
    m = draw(st.sampled_from(["RBF", "LINEAR", "MOVING", "RBF", "LINEAR", "MOVING", "NONE"]))
    span = s["years"] * 365
    if draw(st.booleans()):
        rng = [0, span - 1]
    else:
        a = draw(st.integers(0, span - 1))
        rng = [a, draw(st.integers(a, span - 1))]
    return dict(s=s, method=m, step=draw(st.one_of(st.integers(1, 40), st.sampled_from([1, 7, 8, 10, 16, 30, 365]))), range=rng,
                mov=draw(st.sampled_from([1, 2, 5, 8, 16, 30, 90, 365])),
                sigma=draw(st.lists(st.sampled_from([2, 4, 8, 16, 24, 32, 64]), min_size=1, max_size=4, unique=True).map(sorted)),
                cut=draw(st.sampled_from([0.5, 0.7, 0.9, 0.95, 0.99])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    s = case["s"]
    r0 = s["y0"] * 365 + 1
    rmin, rmax = r0 + case["range"][0], r0 + case["range"][1]
    sel = [i for i, a in enumerate(s["acq"]) if case["range"][0] <= a[0] <= case["range"][1]]
    if not sel:     # nothing selected: bring the range back to the full series
        rmin, rmax = r0, r0 + s["years"] * 365 - 1
        sel = list(range(len(s["acq"])))
    step = min(case["step"], rmax - rmin + 1)
    tss, dates, names = S.write(ctx, s)
    tss, ce = tss[sel], S.ces(s)[sel]
    names = [names[i] for i in sel]
    support = S.rbf_support(case["sigma"], case["cut"])
    method = case["method"]
    if method == "RBF" and support is None:
        method = "MOVING"
    d = "%04d-%02d-%02d"
    p = S.params(ctx, s, INTERPOLATE=method, INT_DAY=step, MOVING_MAX=case["mov"], OUTPUT_TSS="TRUE", OUTPUT_TSI="TRUE",
                 RBF_SIGMA=" ".join(map(str, case["sigma"])), RBF_CUTOFF=case["cut"],
                 DATE_RANGE=(d + " " + d) % (hl.ymd_from_ce(rmin) + hl.ymd_from_ce(rmax)))
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    g_tss, g_tsi = hl.one(o, "_TSS.tif"), hl.one(o, "_TSI.tif")
    if g_tss.names != names:
        out.fail("tss-names", "%s, expected %s" % (g_tss.names, names))
    hl.compare(out, "tss", g_tss.data, tss, what="time series")
    got = g_tsi.data
    if method == "NONE":
        exp_names = [n[:8] for n in names]
        exp = tss[None].astype(float)
    else:
        x = S.steps(rmin, rmax, step, got.shape[0])
        exp_names = [hl.date_str(hl.ymd_from_ce(c)) for c in x]
        if method == "LINEAR":
            exp = S.interp_linear(ce, tss, x)
        elif method == "MOVING":
            exp = S.interp_moving(ce, tss, x, case["mov"])[None]
        else:
            exp = S.interp_rbf(ce, tss, x, case["sigma"], support)[None]
    if g_tsi.names != exp_names:
        out.fail("tsi-names", "%s, expected %s" % (g_tsi.names[:9], exp_names[:9]))
        return out
    if got.shape != exp.shape[1:]:
        out.fail("tsi-shape", "%s, expected %s" % (got.shape, exp.shape[1:]))
        return out
    # nodata exactly where the reference says so; the values truncated, give or take one unit of rounding
    isnd = exp[0] == hl.ND
    ok = np.zeros(got.shape, bool)
    for e in exp:
        ok |= np.abs(got - np.trunc(e)) <= (0 if method == "NONE" else 1)
    ok = np.where(isnd, got == hl.ND, ok)
    if not ok.all():
        i = np.argwhere(~ok)
        t, y, xx = i[0]
        out.fail("tsi-" + method, "%s: %d of %d values differ, first: date %s pixel (%d,%d) got %d expected %s; series %s" % (
            method, len(i), got.size, exp_names[t], y, xx, got[t, y, xx], sorted(set(np.round(exp[:, t, y, xx], 2))),
            [(int(c), int(v)) for c, v in zip(ce, tss[:, y, xx]) if v != hl.ND][:12]), [a[1] * s["nx"] + a[2] for a in i[:100]])
    out.evals = got.size + tss.size
    out.nontrivial = int(((~isnd) & ((tss != hl.ND).sum(0) > 1)).sum())
    out.label(method)
    out.label("nodata", isnd.sum())
    out.sample = dict(method=method, steps=got.shape[0], pixels=int(s["nx"] * s["ny"]), observations=len(ce))
    return out


minimise = S.minimise
