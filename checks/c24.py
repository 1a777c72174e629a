"""Spectral temporal metrics against numpy statistics of the interpolated series."""
import numpy as np
from hypothesis import strategies as st

import hl
import series as S
from harness import Outcome

ID = "C24"
RULE = ("a case is a generated per-pixel series, an interpolation method and a list of metrics in random order; one evaluation = one "
        "metric value of one pixel; distinct non-trivial = metric values of pixels with at least two distinct valid values")
TIERS = {"quick": dict(examples=1000, budget=25), "thorough": dict(examples=2600, budget=70)}
QS = ["Q%02d" % q for q in range(1, 100)]
ASSUMPTIONS = ["STD of a single value and SKW/KRT of a constant series are undefined and not judged"]


@st.composite
def strategy_(draw, tier):
    s = draw(S.series(max_years=2, min_t=2))
    m = draw(st.lists(st.one_of(st.sampled_from(S.STATS), st.sampled_from(["Q25", "Q75", "Q50"]), st.sampled_from(QS)),
                      min_size=1, max_size=12, unique=True))
    return dict(s=s, metrics=m, method=draw(st.sampled_from(["NONE", "LINEAR", "MOVING"])), step=draw(st.sampled_from([10, 30, 73])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    s = case["s"]
    tss, dates, names = S.write(ctx, s)
    p = S.params(ctx, s, INTERPOLATE=case["method"], INT_DAY=case["step"], MOVING_MAX=20, OUTPUT_TSI="TRUE", OUTPUT_STM="TRUE",
                 STM=" ".join(case["metrics"]))
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    stm, tsi = hl.one(o, "_STM.tif"), hl.one(o, "_TSI.tif").data
    if case["method"] == "NONE":
        hl.compare(out, "tsi", tsi, tss, what="uninterpolated series")
    if stm.names != case["metrics"]:
        out.fail("names", "%s, expected %s" % (stm.names, case["metrics"]))
        return out
    n = nt = 0
    for y in range(s["ny"]):
        for x in range(s["nx"]):
            v = tsi[:, y, x]
            v = v[v != hl.ND]
            multi = len(np.unique(v)) > 1
            for b, m in enumerate(case["metrics"]):
                g = int(stm.data[b, y, x])
                if len(v) == 0:
                    good, e = g == hl.ND, hl.ND
                else:
                    e = S.stat(m, v)
                    if e is None:
                        continue
                    good = S.judge_trunc(g, *e)
                n += 1
                nt += multi
                if not good:
                    out.fail("stm-" + m[:1] if m[0] == "Q" else "stm-" + m, "%s of %s is %d, expected %s" % (m, v.tolist()[:40], g, e),
                             [y * s["nx"] + x])
    out.evals, out.nontrivial = n, nt
    for m in case["metrics"]:
        out.label(m if m[0] != "Q" else "Qxx")
    out.label(case["method"])
    out.sample = dict(metrics=case["metrics"], first_pixel=stm.data[:, 0, 0].tolist())
    return out


minimise = S.minimise
