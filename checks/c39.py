"""ImproPhe of generated fine and coarse images against a reference prediction."""
import numpy as np
from hypothesis import strategies as st

import hl
import improphe as I
import modules as M
from harness import Outcome

ID = "C39"
RULE = ("a case is a tile with a generated fine pattern (patches, mixtures, steps, waves), a fine time series with clouds and gaps, and coarse reflectance images or coarse annual fields, "
        "refined with generated kernels and seasonal windows; one evaluation = one refined pixel; distinct non-trivial = pixels with several candidates in the kernel whose value is sharply defined")
TIERS = {"quick": dict(examples=1200, budget=32), "thorough": dict(examples=5000, budget=80)}
ASSUMPTIONS = ["one tile, one block", "pixels whose similarity is within 2e-4 of a class limit, and images whose components are not clearly separated, are judged by bounds only; 2 units tolerance"]


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(["L2IMP", "CFIMP"]))
    c = dict(kind=kind, seed=draw(st.integers(0, 2 ** 31)), nx=draw(st.integers(7, 14)), ny=draw(st.integers(7, 14)), h=draw(st.integers(1, 7)), ht=draw(st.integers(1, 3)),
             pattern=draw(st.sampled_from(["groups", "groups", "mixed", "steps", "wave"])), noise=draw(st.sampled_from([3.0, 15.0, 60.0])), cloud=draw(st.sampled_from([0.0, 0.1, 0.3])),
             void=draw(st.booleans()), cvoid=draw(st.sampled_from([0.0, 0.1])), coarse=draw(st.sampled_from(["follow", "follow", "blocks", "constant"])),
             mask=draw(st.sampled_from([None, None, "some", "some", "none"])),
             window=draw(st.sampled_from([[1, 365], [1, 182, 365], [1, 91, 181, 271, 365], [305, 90], [60, 200, 300], [305, 60, 180, 305]])),
             fine=draw(st.lists(st.tuples(st.integers(0, 729), st.sampled_from(["SEN2A", "SEN2B"])), min_size=1, max_size=6, unique=True)))
    if draw(st.integers(0, 4)) == 3:
        c.update(nx=draw(st.integers(13, 16)), ny=draw(st.integers(13, 16)), h=draw(st.integers(11, 13)))
    c["fine"] = [list(f) for f in c["fine"]]
    if kind == "L2IMP":
        c["acq"] = draw(st.lists(st.integers(0, 729), min_size=1, max_size=2, unique=True))
    else:
        c.update(fields=draw(st.integers(1, 2)), first=draw(st.sampled_from([2013, 2015])), bands=draw(st.integers(4, 5)),
                 years=draw(st.lists(st.sampled_from([2015, 2016]), min_size=1, max_size=2, unique=True)))
        if draw(st.integers(0, 15)) == 9:
            c.update(first=draw(st.sampled_from([2010, 2011, 2016, 2017, 2020])), years=[2015], bands=4)
    return c


def strategy(tier):
    return strategy_(tier)


def judge(out, what, got, src, use, mask, ref, each, nodata=I.ND):
    """got, src [bands][ny][nx]; use: coarse pixel takes part; ref: None without fine data, or (components, averages, clear, radii);
    each: the layers have their own nodata"""
    nb = len(src)
    bad = (got != nodata).any(0) & ~mask
    if bad.any():
        out.fail("mask", "%s: %s at %s outside of the mask" % (what, got[:, bad][:, 0], np.argwhere(bad)[0]))
    keep = mask & ~use
    bad = (got != src).any(0) & keep
    if bad.any():
        out.fail("keep", "%s: a pixel that is not refined has %s instead of %s at %s" % (what, got[:, bad][:, 0], src[:, bad][:, 0], np.argwhere(bad)[0]))
    sel = mask & use
    out.evals += int(sel.sum())
    if ref is None:
        bad = (got != src).any(0) & sel
        if bad.any():
            out.fail("copy", "%s: without fine images %s instead of %s at %s" % (what, got[:, bad][:, 0], src[:, bad][:, 0], np.argwhere(bad)[0]))
        return
    hr, avg, clear, h, ht = ref
    mr = np.where(mask & (src != nodata) if each else sel, src.astype(float), np.nan)
    if hr is None:
        return
    exp, lo, hi, sharp = I.predict(hr, avg, mr, h, ht)
    if not clear:
        out.label("components not clear")
        return
    g = got.astype(float)
    bad = sel & ((g < lo - 1) | (g > hi + 1)).any(0)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("bounds", "%s: %s at %s, the similar pixels of the kernel have %s - %s" % (what, got[:, i, j], (i, j), lo[:, i, j], hi[:, i, j]), where=[int(i), int(j)])
    sharp &= sel
    bad = sharp & (abs(g - exp) > 2).any(0)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        out.fail("value", "%s: %s at %s, expected %s (coarse %s)" % (what, got[:, i, j], (i, j), np.round(exp[:, i, j], 1), src[:, i, j]), where=[int(i), int(j)])
    n = int((sharp & (lo != hi).any(0)).sum())
    out.nontrivial += n


def run_case(case, ctx):
    out = Outcome()
    out.evals = out.nontrivial = 0
    c = case
    p, mask, fin, co = I.build(ctx, c)
    r = M.run(ctx, c["kind"], p)
    if r.timeout:
        out.label("timeout")
        out.evals = 1
        return out
    out.label(c["kind"])
    if r.rc != 0:
        out.evals = 1
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    outs = hl.outputs(p["DIR_HIGHER"])
    if c["kind"] == "CFIMP" and any(not 0 <= y - c["first"] < c["bands"] for y in c["years"]):
        out.evals = out.nontrivial = 1
        out.label("year without band")
        if outs:
            out.fail("year", "year %s of fields with %d bands from %d was refined" % (c["years"], c["bands"], c["first"]))
        return out

    def product(stem):
        k = [n for n in outs if stem in str(n)]
        if len(k) != 1:
            out.fail("files", "%s: %s of %s" % (stem, k, sorted(map(str, outs))))
            return None
        return outs[k[0]]
    if not mask.any():
        # nothing to do: no product, or all nodata
        out.evals = 1
        out.label("nothing in the mask")
        for k, a in outs.items():
            if (a.data != I.ND).any():
                out.fail("mask", "%s: values although nothing is in the mask" % (k,))
        return out

    def reference(year):
        avg, ok = I.seasonal(fin, c["window"], year, mask)
        if avg is None:
            return None
        hr, clear = I.components(avg, ok)
        return hr, avg, clear, c["h"], c["ht"]
    if c["kind"] == "L2IMP":
        ref = reference(None)
        for (ymd, s), (v, use) in co.items():
            a = product("%s_LEVEL2_%s_IMP" % (hl.date_str(ymd), s))
            if a is not None:
                judge(out, "%s %s" % (hl.date_str(ymd), s), a.data, v, use, mask, ref, False)
    else:
        use = np.ones(mask.shape, bool)
        for i, y in enumerate(c["years"]):
            src = np.stack([co[f][y - c["first"]] for f in range(c["fields"])])
            got = []
            for f in range(c["fields"]):
                a = product("cf%d_IMP" % f)
                if a is None or a.data.shape[0] != len(c["years"]):
                    out.fail("files", "bands")
                    out.evals = max(out.evals, 1)
                    return out
                got.append(a.data[i])
            ref = reference(y)
            judge(out, "year %d" % y, np.stack(got), src, (src != I.ND).all(0), mask, ref, True)
    out.evals = max(out.evals, 1)
    out.sample = dict(kind=c["kind"], pixels=int(mask.sum()), sharp=out.nontrivial)
    return out
