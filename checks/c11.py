"""Quality screening removes exactly the flagged observations."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
from harness import Outcome

ID = "C11"
RULE = ("a case is a random subset of the 18 screening criteria, a sensor/band and images whose pixels carry quality bit "
        "patterns (random, sparse, or consecutive blocks of all 32768); one evaluation = one observation's presence and value in the "
        "time series; distinct non-trivial = distinct non-zero patterns per image, at least one criterion selected")
TIERS = {"quick": dict(examples=1200, budget=25), "thorough": dict(examples=1600, budget=70)}
SENS = {"LND08": "LNDLG", "LND05": "LNDLG", "SEN2A": "SEN2L", "sen2b": "sen2l"}


@st.composite
def strategy_(draw, tier):
    flags = draw(st.one_of(
        st.lists(st.sampled_from(sorted(F.QAI_RULES)), min_size=1, max_size=3, unique=True),
        st.lists(st.sampled_from(sorted(F.QAI_RULES)), min_size=1, max_size=18, unique=True)))
    sensor = draw(st.sampled_from(sorted(SENS)))
    return dict(flags=flags, sensor=sensor, band=draw(st.integers(0, 3)), n=draw(st.integers(1, 3)),
                mode=draw(st.sampled_from(["sparse", "uniform", "block"])), seed=draw(st.integers(0, 2**31 - 1)),
                start=draw(st.integers(0, 31)))


def strategy(tier):
    return strategy_(tier)


def patterns(case, rng, ny, nx):
    n = ny * nx
    if case["mode"] == "uniform":
        q = rng.integers(0, 32768, n)
    elif case["mode"] == "sparse":      # few fields set
        q = np.zeros(n, np.int64)
        for name, b, w in F.QAI_FIELDS:
            v = rng.integers(0, 1 << w, n) * (rng.random(n) < 0.15)
            q |= v << b
    else:                               # consecutive patterns
        q = (np.arange(n) + case["start"] * 1024) % 32768
    return q.reshape(ny, nx)


def run_case(case, ctx):
    out = Outcome()
    nx = ny = 32
    rng = np.random.default_rng(case["seed"])
    base = ctx.dir
    hl.dirs(base)
    cube = F.Cube(base + "/lower", tile=(nx * 10, ny * 10))
    bands = hl.sensor_bands(ctx, case["sensor"])
    label = hl.sensor_label(ctx, case["sensor"])
    keep = hl.keep_mask(case, ny, nx)
    exp, names = [], []
    distinct = 0
    for t in range(case["n"]):
        q = patterns(case, rng, ny, nx)
        q[~keep] = 0
        boa = rng.integers(0, 10001, (len(bands), ny, nx)).astype(np.int16)
        ymd = (2015, 1 + t, 5 + t)
        hl.write_acq(cube, (0, 0), ymd, label, boa, q.astype(np.int16))
        exp.append(np.where(F.qai_pass(q, case["flags"]), boa[case["band"] % len(bands)], hl.ND))
        names.append(hl.date_str(ymd) + "_" + label)
        distinct += len(np.unique(q[q != 0]))
    p = hl.tsa_params(base, SENSORS=case["sensor"], TARGET_SENSOR=SENS[case["sensor"]], SCREEN_QAI=" ".join(case["flags"]),
                      INDEX=bands[case["band"] % len(bands)], OUTPUT_TSS="TRUE", CHUNK_SIZE="%d %d" % (nx * 10, ny * 10))
    r = hl.run_hl(ctx, "TSA", p)
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        out.evals = 1
        return out
    tss = hl.one(hl.outputs(base + "/higher"), "_TSS.tif")
    exp = np.stack(exp)
    if tss.names != names:
        out.fail("names", "band names %s, expected %s" % (tss.names, names))
    out.evals = hl.compare(out, "values", tss.data, exp, what="screened series (criteria %s)" % case["flags"])

    out.nontrivial = distinct
    out.label("screened", (exp == hl.ND).sum())
    out.label("used", (exp != hl.ND).sum())
    out.sample = dict(flags=case["flags"], used=int((exp != hl.ND).sum()), screened=int((exp == hl.ND).sum()))
    return out


minimise = hl.minimise_pixels
