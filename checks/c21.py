"""Spectral mixture analysis against least squares over all endmember subsets."""
import itertools

import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
from harness import Outcome

ID = "C21"
RULE = ("a case is an endmember table (2 to 4 endmembers), the sum-to-one / non-negativity / shade-normalisation switches, the returned "
        "endmember, and generated spectra (mixtures with noise, pure, dark, outside the simplex); one evaluation = one fraction or "
        "model-error value; distinct non-trivial = values of used observations")
TIERS = {"quick": dict(examples=800, budget=25), "thorough": dict(examples=2000, budget=70)}
ASSUMPTIONS = ["endmember matrices have a condition number below 300; fractions outside the 16-bit range and shade fractions within "
               "0.02 of one (shade normalisation) are not judged"]


@st.composite
def strategy_(draw, tier):
    m = draw(st.integers(2, 4))
    sto, pos = draw(st.sampled_from([(True, True), (True, False), (False, True)]))     # at least one is required
    return dict(m=m, emb=draw(st.integers(1, m)), sto=sto, pos=pos, shn=draw(st.booleans()),
                fam=draw(st.sampled_from(["LND", "SEN2"])), seed=draw(st.integers(0, 2**31 - 1)), sep=draw(st.sampled_from([" ", "\t", ","])),
                extra=draw(st.booleans()))


def strategy(tier):
    return strategy_(tier)


def nnls(Z, X):
    """non-negative least squares by enumeration of the supports: fractions [pixels][m]"""
    m = Z.shape[1]
    best = np.sum(X * X, 1)
    D = np.zeros((len(X), m))
    for k in range(1, m + 1):
        for sub in itertools.combinations(range(m), k):
            d = np.linalg.lstsq(Z[:, sub], X.T, rcond=None)[0].T
            r = np.sum((X - d @ Z[:, sub].T) ** 2, 1)
            use = (d >= -1e-12).all(1) & (r < best - 1e-15)
            D[use] = 0
            for j, c in enumerate(sub):
                D[use, c] = d[use, j]
            best = np.where(use, r, best)
    return D


def run_case(case, ctx):
    out = Outcome()
    nx = ny = 10
    rng = np.random.default_rng(case["seed"])
    sensor, target = ("SEN2A", "SEN2L") if case["fam"] == "SEN2" else ("LND08", "LNDLG")
    bands = hl.sensor_bands(ctx, sensor)
    nb, m = len(bands), case["m"]
    while True:
        Z = np.round(rng.uniform(0.01, 0.7, (nb, m)), 4)
        if case["shn"]:
            Z[:, -1] = np.round(rng.uniform(0.0, 0.03, nb), 4)
        if np.linalg.cond(Z) < 300:
            break
    n = nx * ny
    frac = rng.dirichlet(np.ones(m), n)
    frac[rng.random(n) < 0.3] *= 0.5
    X = frac @ Z.T + rng.normal(0, 1, (n, 1)) * rng.normal(0, 0.03, (n, nb))
    wild = rng.random(n) < 0.25
    X[wild] = rng.uniform(-0.1, 1.2, (wild.sum(), nb))
    keep = hl.keep_mask(case, ny, nx).reshape(-1)
    X[~keep] = Z[:, 0]
    boa = np.clip(np.rint(X * 10000), -3000, 16000).astype(np.int16)
    ok = rng.random(n) < 0.9
    hl.dirs(ctx.dir)
    cube = F.Cube(ctx.dir + "/lower", tile=(nx * 10, ny * 10))
    hl.write_acq(cube, (0, 0), (2015, 5, 7), sensor, boa.T.reshape(nb, ny, nx), np.where(ok, 0, 1).reshape(ny, nx).astype(np.int16))
    with open(ctx.dir + "/em.txt", "w") as f:
        for row in Z:
            f.write(case["sep"].join("%d" % round(v * 10000) for v in row) + "\n")
    tf = lambda b: "TRUE" if b else "FALSE"
    idx = "SMA" + (" NDVI" if case["extra"] else "")
    p = hl.tsa_params(ctx.dir, SENSORS=sensor, TARGET_SENSOR=target, INDEX=idx, FILE_ENDMEM=ctx.dir + "/em.txt", SMA_SUM_TO_ONE=tf(case["sto"]),
                      SMA_NON_NEG=tf(case["pos"]), SMA_SHD_NORM=tf(case["shn"]), SMA_ENDMEMBER=case["emb"], OUTPUT_RMS="TRUE",
                      OUTPUT_TSS="TRUE", CHUNK_SIZE="%d %d" % (nx * 10, ny * 10))
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    tss, rms = hl.one(o, "_SMA_", "TSS").data[0].reshape(-1), hl.one(o, "_SMA_", "RMS").data[0].reshape(-1)
    x = boa / 10000.0
    A = Z
    if case["sto"]:
        A = np.vstack([Z, np.ones(m)])
        x = np.hstack([x, np.ones((n, 1))])
    D = nnls(A, x) if case["pos"] else np.linalg.lstsq(A, x.T, rcond=None)[0].T
    err = np.sqrt(((x - D @ A.T) ** 2).mean(1)) * 10000
    judge = np.ones(n, bool)
    e = D[:, case["emb"] - 1].copy()
    if case["shn"]:
        s = 1 - D[:, -1]
        judge = np.abs(s) > 0.02
        e = np.where(judge, e / np.where(judge, s, 1), 0) if case["emb"] < m else np.zeros(n)
    e = e * 10000
    judge &= np.abs(e) < 32700
    judge |= ~ok
    exp = np.where(ok, np.trunc(e), hl.ND).reshape(ny, nx)
    shape = lambda a: a.reshape(ny, nx)
    n1 = hl.compare(out, "fraction", shape(tss), exp, tol=1, judge=shape(judge), what="fraction of endmember %d of %d (sum-to-one %s, "
                    "non-negative %s, shade %s)" % (case["emb"], m, case["sto"], case["pos"], case["shn"]))
    n2 = hl.compare(out, "error", shape(rms), np.where(shape(ok), np.trunc(shape(err)), hl.ND), tol=1, judge=shape(~ok | (err < 32700)),
                    what="model error")
    out.evals, out.nontrivial = n1 + n2, int((judge & ok).sum() + ok.sum())
    out.label("sto%d pos%d shn%d" % (case["sto"], case["pos"], case["shn"]))
    out.label("active constraint", (case["pos"] and (D <= 0).any(1) & ok).sum() if case["pos"] else 0)
    out.sample = dict(m=m, emb=case["emb"], fractions=tss[:4].tolist())
    return out


minimise = hl.minimise_pixels
