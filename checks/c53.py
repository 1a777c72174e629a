"""Histograms against numpy."""
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
from harness import Outcome

ID = "C53"
RULE = ("a case is a generated image (1-80 columns and rows, 1-4 bands, 8 or 16 bit, few to many values); one evaluation = one row of the histogram (or one refusal); "
        "distinct non-trivial = rows with a count above one, and refusals")
TIERS = {"quick": dict(examples=3000, budget=20), "thorough": dict(examples=9000, budget=60)}


@st.composite
def strategy_(draw, tier):
    nb = draw(st.integers(1, 4))
    return dict(nx=draw(st.integers(1, 80)), ny=draw(st.integers(1, 80)), nb=nb, band=draw(st.integers(1, nb + 1)), seed=draw(st.integers(0, 2 ** 31)),
                values=draw(st.sampled_from(["few", "any", "extreme", "negative", "nodata"])), nodata=draw(st.sampled_from([-9999, 255, 0, -32768, 32767, None])),
                dtype=draw(st.sampled_from(["int16", "int16", "uint8"])), give=draw(st.sampled_from([True, True, False])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng(case["seed"])
    sh = (case["nb"], case["ny"], case["nx"])
    a = {"few": lambda: rng.integers(0, 6, sh), "any": lambda: rng.integers(-32768, 32768, sh), "extreme": lambda: rng.choice([-32768, -32767, -1, 0, 1, 32766, 32767], sh),
         "negative": lambda: rng.integers(-40, 10, sh), "nodata": lambda: np.full(sh, case["nodata"] or 0)}[case["values"]]()
    nd = case["nodata"]
    if case["dtype"] == "uint8":
        a = a % 256
        nd = nd if nd is None or 0 <= nd < 256 else 255
    if nd is not None:
        a[rng.random(sh) < 0.2] = nd
    F.write_raster(ctx.dir + "/i.tif", a.astype(case["dtype"]), (0.0, 10.0, 0.0, 0.0, 0.0, -10.0), F.WKT, nd, case["dtype"])
    cmd = [ctx.exe("force-hist")]
    b = case["band"] if case["give"] else 1
    if case["give"]:
        cmd += ["-b", str(b)]
    o = ctx.dir + "/histogram.csv"
    if case["seed"] % 2:
        o = ctx.dir + "/h.txt"
        cmd += ["-o", o]
    r = F.run(cmd + [ctx.dir + "/i.tif"], cwd=ctx.dir)
    if b > case["nb"] or nd is None:
        out.label("refused")
        out.nontrivial = 1
        if r.rc == 0 or os.path.exists(o):
            out.fail("refuse", "band %d of %d, nodata %s was accepted" % (b, case["nb"], nd))
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    v, c = np.unique(a[b - 1][a[b - 1] != nd], return_counts=True)
    exp = {int(x): int(y) for x, y in zip(v, c)}
    lines = open(o).read().splitlines()
    if not lines or lines[0].split(",")[:2] != ["class", "count"]:
        out.fail("header", "first line is %r" % lines[:1])
        return out
    rows = [tuple(float(x) for x in l.split(",")) for l in lines[1:]]
    got = {int(x): y for x, y in rows}
    if len(got) != len(rows):
        out.fail("duplicate", "a value is listed twice")
    if got != exp:
        k = sorted(set(got) ^ set(exp) | {x for x in exp if got.get(x) != exp[x]})[0]
        out.fail("count", "value %d counted %s times, occurs %s times" % (k, got.get(k), exp.get(k)))
    out.evals = max(1, len(rows))
    out.nontrivial = int((c > 1).sum())
    out.label(case["values"])
    out.sample = dict(size=list(sh), band=b, nodata=nd, rows=[list(x) for x in rows[:5]])
    return out
