"""Change, aftereffect, trend analysis against a direct evaluation of the folded series."""
import numpy as np
from hypothesis import strategies as st

import hl
import series as S
from harness import Outcome

ID = "C27"
RULE = ("a case is a generated multi-year series, a fold period, tail, confidence and penalty setting; one evaluation = one change or "
        "trend parameter of one pixel; distinct non-trivial = parameters of pixels with at least two folded values")
TIERS = {"quick": dict(examples=1000, budget=25), "thorough": dict(examples=2600, budget=70)}
ASSUMPTIONS = ["the significance code is judged where the t statistic is more than 5 % away from the critical value",
               "results outside the 16-bit range and relative gains for offsets within one unit of zero are not judged",
               "with the penalty on, only the consistency of the reported change with the reported time is judged"]


@st.composite
def strategy_(draw, tier):
    by = draw(st.sampled_from("YMQW"))
    if by == "Y":
        s = draw(S.series(max_years=12, min_years=3, min_t=6, max_t=30, side=(2, 6), kinds=["step", "trend", "uniform", "small", "const"]))
    else:
        s = draw(S.series(max_years=2, min_t=6, max_t=26, side=(2, 6), kinds=["step", "trend", "uniform", "small", "const"]))
    return dict(s=s, by=by, type=draw(st.sampled_from(["AVG", "MAX", "NUM"])), method=draw(st.sampled_from(["NONE", "LINEAR"])),
                conf=draw(st.sampled_from([0.95, 0.9, 0.99])), tail=draw(st.sampled_from(["TWO", "LEFT", "RIGHT"])),
                penalty=draw(st.sampled_from([False, False, True])), doys=draw(st.sampled_from([[1, 365], [60, 300]])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    s, by = case["s"], case["by"]
    doys = case["doys"] if any(case["doys"][0] <= d[0] % 365 + 1 <= case["doys"][1] for d in s["acq"]) else [1, 365]
    S.write(ctx, s)
    p = S.params(ctx, s, INTERPOLATE=case["method"], INT_DAY=16, FOLD_TYPE=case["type"], TREND_TAIL=case["tail"],
                 TREND_CONF=case["conf"], CHANGE_PENALTY=str(case["penalty"]).upper(), DOY_RANGE="%d %d" % tuple(doys),
                 **{"OUTPUT_FB" + by: "TRUE", "OUTPUT_CA" + by: "TRUE"})
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    fb, ca = hl.one(o, "_FB%s.tif" % by).data, hl.one(o, "_CA%s.tif" % by)
    if ca.data.shape[0] != 39:
        out.fail("names", "%d bands: %s" % (len(ca.names), ca.names))
        return out
    per = S.periods(s, by, doys)
    nf = len(per)
    n = nt = 0
    for y in range(s["ny"]):
        for x in range(s["nx"]):
            f = fb[:, y, x].astype(int)
            got = ca.data[:, y, x].astype(int)
            here = [y * s["nx"] + x]
            k = [i for i in range(nf) if f[i] != hl.ND]
            n += 39
            if len(k) < 2:
                if (got != hl.ND).any():
                    out.fail("few", "%d values give %s, expected nodata" % (len(k), got.tolist()), here)
                continue
            nt += 39
            drop = {b: f[a] - f[b] for a, b in zip(k[:-1], k[1:])}
            if case["penalty"]:
                if got[2] == hl.ND:
                    continue
                okay = [b for b in drop]
            else:
                okay = [b for b in drop if drop[b] == max(drop.values())]
            at = [b for b in okay if per[b] == got[2]]
            if not at:
                out.fail("time", "series %s: time of change %d, expected one of %s" % (f.tolist()[:40], got[2], [per[b] for b in okay]), here)
                continue
            at = at[0]
            if got[0] != drop[at]:
                out.fail("change", "series %s: change %d at %d, expected %d" % (f.tolist()[:40], got[0], got[2], drop[at]), here)
                continue
            if case["penalty"] and drop[at] > 0 and at == k[-1]:
                out.fail("penalty", "series %s: unconfirmed last drop reported as change" % f.tolist()[:40], here)
            if drop[at] > 0:
                out.label("loss")
            off = got[3 + 1]
            loss = got[0] / off * 100 if off > 0 else 0
            if abs(loss) < 32000 and abs(got[1] - np.trunc(loss)) > 1:
                out.fail("loss", "relative change %d, expected %.2f" % (got[1], loss), here)
            for part, (a, b) in enumerate(((0, nf), (0, at), (at, nf))):
                g = got[3 + 12 * part:15 + 12 * part]
                kk = [i for i in k if a <= i < b]
                if not kk:
                    e = {m: (hl.ND, 0) for m in S.TRD}
                elif len(kk) < 3:
                    e = {m: (hl.ND, 0) for m in S.TRD}
                    e.update(MEAN=(f[kk].mean(), 1), NUM=(len(kk), 0), LEN=(b - a, 0))
                else:
                    e = S.regress(np.array(kk, float), f[kk], b - a, case["conf"], case["tail"], x_off=a)
                for j, m in enumerate(S.TRD):
                    if m in e and not S.judge_trunc(int(g[j]), *e[m]):
                        out.fail("part-%d-%s" % (part, m), "series %s, change at %d: %s of part %d is %d, expected %.3f" % (
                            f.tolist()[:40], per[at], m, part, g[j], e[m][0]), here)
            if len(out.fails) > 20:
                return out
    out.evals, out.nontrivial = n, nt
    out.label("CA" + by)
    out.label("penalty" if case["penalty"] else "no penalty")
    out.sample = dict(by=by, first_pixel=ca.data[:, 0, 0].tolist())
    return out


minimise = S.minimise
