"""Folds against per-period statistics of the interpolated series."""
import numpy as np
from hypothesis import strategies as st

import hl
import series as S
from harness import Outcome

ID = "C25"
RULE = ("a case is a generated multi-year series, an interpolation method, a day-of-year window, a fold statistic and a subset of the "
        "five fold periods; one evaluation = one folded value; distinct non-trivial = folded values computed from at least one "
        "observation")
TIERS = {"quick": dict(examples=900, budget=25), "thorough": dict(examples=2400, budget=70)}
TYPES = S.STATS + ["Q05", "Q25", "Q50", "Q75", "Q90"]
ASSUMPTIONS = ["STD of a single value and SKW/KRT of a constant series are undefined and not judged"]


@st.composite
def strategy_(draw, tier):
    s = draw(S.series(max_years=4, min_t=2, side=(2, 5)))
    doys = draw(st.one_of(st.just([1, 365]), st.tuples(st.integers(1, 365), st.integers(1, 365)).map(list)))
    return dict(s=s, type=draw(st.sampled_from(TYPES)), by=draw(st.lists(st.sampled_from("YQMWD"), min_size=1, max_size=3, unique=True)),
                method=draw(st.sampled_from(["LINEAR", "NONE", "MOVING"])), step=draw(st.sampled_from([5, 7, 10, 30, 1])), doys=doys)


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    s = case["s"]
    a, b = case["doys"]
    wanted = lambda n: a <= n <= b if a <= b else (n <= b or n >= a)
    sel = [i for i, d in enumerate(s["acq"]) if wanted(d[0] % 365 + 1)]
    doys = case["doys"]
    if not sel:
        doys = [1, 365]
    tss, dates, names = S.write(ctx, s)
    kw = {"OUTPUT_FB" + k: "TRUE" for k in case["by"]}
    p = S.params(ctx, s, INTERPOLATE=case["method"], INT_DAY=case["step"], MOVING_MAX=20, OUTPUT_TSI="TRUE", FOLD_TYPE=case["type"],
                 DOY_RANGE="%d %d" % tuple(doys), **kw)
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    tsi = hl.one(o, "_TSI.tif")
    n = nt = 0
    for by in case["by"]:
        g = hl.one(o, "_FB%s.tif" % by)
        per = S.periods(s, by, doys)
        en = [S.BYNAME[by] % v for v in per]
        if g.names != en:
            out.fail("names", "FB%s bands %s, expected %s" % (by, g.names[:6], en[:6]))
            continue
        tp = np.array([S.period((int(d[:4]), int(d[4:6]), int(d[6:8])), by) for d in tsi.names])
        for f, v in enumerate(per):
            sub = tsi.data[tp == v]
            for y in range(s["ny"]):
                for x in range(s["nx"]):
                    z = sub[:, y, x]
                    z = z[z != hl.ND]
                    got = int(g.data[f, y, x])
                    if len(z) == 0:
                        good, e = got == hl.ND, hl.ND
                    else:
                        e = S.stat(case["type"], z)
                        if e is None:
                            continue
                        good = S.judge_trunc(got, *e)
                        nt += 1
                    n += 1
                    if not good:
                        out.fail("fold-" + by, "FB%s %s %s of %s is %d, expected %s" % (by, en[f], case["type"], z.tolist()[:30], got, e),
                                 [y * s["nx"] + x])
                        if len(out.fails) > 20:
                            return out
        out.label("FB" + by)
    out.evals, out.nontrivial = n, nt
    out.label(case["type"])
    out.label("window" if doys != [1, 365] else "full year")
    out.sample = dict(type=case["type"], by=case["by"], steps=len(tsi.names))
    return out


minimise = S.minimise
