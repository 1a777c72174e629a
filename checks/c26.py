"""Trend parameters against a direct linear regression of the folded series."""
import numpy as np
from hypothesis import strategies as st

import hl
import series as S
from harness import Outcome

ID = "C26"
RULE = ("a case is a generated multi-year series, a fold period and statistic, a confidence level and a tail; one evaluation = one trend "
        "parameter of one pixel; distinct non-trivial = parameters of pixels with at least three folded values")
TIERS = {"quick": dict(examples=1000, budget=25), "thorough": dict(examples=2600, budget=70)}
ASSUMPTIONS = ["the significance code is judged where the t statistic is more than 5 % away from the critical value",
               "results outside the 16-bit range and the relative gain for intercepts within one unit of zero are not judged"]


@st.composite
def strategy_(draw, tier):
    by = draw(st.sampled_from("YMQW"))
    if by == "Y":
        s = draw(S.series(max_years=9, min_years=3, min_t=6, max_t=26, kinds=["trend", "uniform", "step", "small", "const", "extreme"]))
    else:
        s = draw(S.series(max_years=2, min_t=6, max_t=26, kinds=["trend", "uniform", "smooth", "small", "const"]))
    return dict(s=s, by=by, type=draw(st.sampled_from(["AVG", "MAX", "Q50", "NUM"])), method=draw(st.sampled_from(["NONE", "LINEAR"])),
                conf=draw(st.sampled_from([0.95, 0.9, 0.975, 0.99])), tail=draw(st.sampled_from(["TWO", "LEFT", "RIGHT"])),
                doys=draw(st.sampled_from([[1, 365], [60, 300], [100, 365]])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    s, by = case["s"], case["by"]
    doys = case["doys"] if any(case["doys"][0] <= d[0] % 365 + 1 <= case["doys"][1] for d in s["acq"]) else [1, 365]
    S.write(ctx, s)
    p = S.params(ctx, s, INTERPOLATE=case["method"], INT_DAY=16, FOLD_TYPE=case["type"], TREND_TAIL=case["tail"],
                 TREND_CONF=case["conf"], DOY_RANGE="%d %d" % tuple(doys), **{"OUTPUT_FB" + by: "TRUE", "OUTPUT_TR" + by: "TRUE"})
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    fb, tr = hl.one(o, "_FB%s.tif" % by).data, hl.one(o, "_TR%s.tif" % by)
    if len(tr.names) != 12:
        out.fail("names", "%d trend bands: %s" % (len(tr.names), tr.names))
        return out
    per = np.array(S.periods(s, by, doys), float)
    xx = per - per[0]
    n = nt = 0
    for y in range(s["ny"]):
        for x in range(s["nx"]):
            k = fb[:, y, x] != hl.ND
            got = tr.data[:, y, x]
            if k.sum() < 3:
                n += 12
                if (got != hl.ND).any():
                    out.fail("few", "%d folded values give trend %s, expected nodata" % (k.sum(), got.tolist()), [y * s["nx"] + x])
                continue
            e = S.regress(xx[k], fb[k, y, x], fb.shape[0], case["conf"], case["tail"])
            for b, name in enumerate(S.TRD):
                if name not in e:
                    continue
                n += 1
                nt += 1
                if name == "SIG":
                    out.label("sig %+d" % e[name][0])
                if not S.judge_trunc(int(got[b]), *e[name]):
                    out.fail("trend-" + name, "%s is %d, expected %.3f for x=%s y=%s (tail %s, confidence %s)" % (
                        name, got[b], e[name][0], xx[k].tolist()[:30], fb[k, y, x].tolist()[:30], case["tail"], case["conf"]),
                        [y * s["nx"] + x])
    out.evals, out.nontrivial = n, nt
    out.label("TR" + by)
    out.sample = dict(by=by, first_pixel=tr.data[:, 0, 0].tolist())
    return out


minimise = S.minimise
