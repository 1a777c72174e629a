"""Standardisation: centring and normalisation of exported series, nothing else changes."""
import os

import numpy as np
from hypothesis import strategies as st

import hl
import series as S
from harness import Outcome

ID = "C28"
RULE = ("a case runs the same series without and with standardisation of the exported series, interpolated series and folds; one "
        "evaluation = one value compared; distinct non-trivial = standardised values of pixels with at least two distinct values")
TIERS = {"quick": dict(examples=800, budget=25), "thorough": dict(examples=2000, budget=70)}
ASSUMPTIONS = ["pixels with fewer than two values, and constant pixels under NORMALIZE, are not judged"]
OPT = ["NORMALIZE", "CENTER", "NONE"]


@st.composite
def strategy_(draw, tier):
    s = draw(S.series(max_years=4, min_t=3, side=(2, 6)))
    return dict(s=s, tss=draw(st.sampled_from(OPT)), tsi=draw(st.sampled_from(OPT)), fold=draw(st.sampled_from(OPT)),
                by=draw(st.sampled_from("YMQW")), method=draw(st.sampled_from(["LINEAR", "NONE", "MOVING"])))


def strategy(tier):
    return strategy_(tier)


def standard(a, how):
    """(expected, judged)"""
    ok = a != hl.ND
    k = ok.sum(0)
    v = np.where(ok, a, 0).astype(float)
    avg = v.sum(0) / np.maximum(k, 1)
    ss = np.where(ok, (v - avg) ** 2, 0).sum(0)
    std = np.sqrt(ss / np.maximum(k - 1, 1))
    if how == "NONE":
        return a.astype(float), np.ones(a.shape, bool)
    if how == "CENTER":
        e = v - avg
        j = k >= 2
    else:
        e = (v - avg) / np.where(std > 0, std, 1) * 10000
        j = (k >= 2) & (std > 0)
    e = np.clip(np.trunc(e), -32768, 32767)
    e = np.where(ok, e, hl.ND)
    return e, ~ok | np.broadcast_to(j, a.shape)


def run_case(case, ctx):
    out = Outcome()
    s, by = case["s"], case["by"]
    S.write(ctx, s)
    kw = dict(INTERPOLATE=case["method"], INT_DAY=20, MOVING_MAX=20, OUTPUT_TSS="TRUE", OUTPUT_TSI="TRUE", OUTPUT_STM="TRUE",
              STM="AVG STD MIN")
    kw["OUTPUT_FB" + by] = kw["OUTPUT_TR" + by] = "TRUE"
    res = []
    for k, std in enumerate((("NONE",) * 3, (case["tss"], case["tsi"], case["fold"]))):
        p = S.params(ctx, s, STANDARDIZE_TSS=std[0], STANDARDIZE_TSI=std[1], STANDARDIZE_FOLD=std[2], **kw)
        p["DIR_HIGHER"] = os.path.join(ctx.dir, "higher%d" % k)
        r = hl.run_hl(ctx, "TSA", p)
        out.evals = 1
        if r.rc != 0:
            out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
            return out
        res.append(hl.outputs(p["DIR_HIGHER"]))
    plain, got = res
    if sorted(plain) != sorted(got):
        out.fail("files", "%s versus %s" % (sorted(plain), sorted(got)))
        return out
    n = nt = 0
    for what, how in (("TSS", case["tss"]), ("TSI", case["tsi"]), ("FB" + by, case["fold"]), ("STM", "NONE"), ("TR" + by, "NONE")):
        a, g = hl.one(plain, "_%s.tif" % what).data, hl.one(got, "_%s.tif" % what).data
        e, judge = standard(a, how)
        n += hl.compare(out, "std-" + how, g, e, tol=0 if how == "NONE" else 1, judge=judge, what="%s with %s" % (what, how))
        if how != "NONE":
            nt += int((judge & (a != hl.ND)).sum())
            out.label(how + " " + what[:2])
    out.evals, out.nontrivial = n, nt
    out.sample = dict(tss=case["tss"], tsi=case["tsi"], fold=case["fold"], by=by)
    return out


minimise = S.minimise
