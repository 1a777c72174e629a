"""Noise screening against a reference implementation of the documented procedure."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
from harness import Outcome

ID = "C12"
RULE = ("a case is a set of acquisition days (also two sensors on one day), per-pixel series with planted spikes, quality-screened "
        "observations with and without data, and the two thresholds; one evaluation = one observation's presence and value after the "
        "screening; distinct non-trivial = observations of pixels where the screening removed or restored at least one observation; "
        "pixels with a decision within 0.1 % of a threshold or a near-tie of the largest residual are not judged")
TIERS = {"quick": dict(examples=900, budget=25), "thorough": dict(examples=2600, budget=70)}


@st.composite
def strategy_(draw, tier):
    nt = draw(st.one_of(st.integers(3, 16), st.integers(1, 6)))
    span = draw(st.sampled_from([700, 120, 20]))
    days = draw(st.lists(st.integers(0, span), min_size=min(nt, span), max_size=min(nt, span), unique=True))
    acq = [[d, 8] for d in sorted(days)]
    for d in draw(st.lists(st.sampled_from(sorted(days)), max_size=3, unique=True)):
        acq.append([d, 9])
        if draw(st.booleans()):
            acq.append([d, 5])
    acq.sort(key=lambda a: (a[0], a[1]))
    above = draw(st.sampled_from([1.5, 2, 3, 1, 1.2, 5, 0]))
    return dict(acq=acq, nx=draw(st.integers(4, 9)), ny=draw(st.integers(4, 9)), seed=draw(st.integers(0, 2**31 - 1)), above=above,
                below=draw(st.sampled_from([1, 0.5, 0, 2, 1.5])) if above > 0 else 0,
                base=draw(st.sampled_from(["trend", "const", "walk", "uniform"])), spikes=draw(st.sampled_from([0.15, 0.05, 0.4, 0])),
                masked=draw(st.sampled_from([0.2, 0.5, 0, 0.05])), lost=draw(st.sampled_from([0, 0.2, 0.5])),
                noise=draw(st.sampled_from([20, 3, 100, 0])), crit=draw(st.booleans()))


def strategy(tier):
    return strategy_(tier)


def resid(y, ce, l, m, r):
    if ce[r] == ce[l]:
        return abs(y[m] - (y[l] + y[r]) / 2.0)
    return abs(y[m] - (y[l] + (y[r] - y[l]) * (ce[m] - ce[l]) / float(ce[r] - ce[l])))


def screen(y, ce, ok, exists, above, below):
    """(mask after screening, clear) for one pixel; clear is False if some decision is too close to call"""
    nt = len(y)
    ok = ok.copy()
    if (above == 0 and below == 0) or nt < 3:
        return ok, True
    clear = True
    removed = np.zeros(nt, bool)
    noise = None
    while True:
        v = np.flatnonzero(ok)
        n = len(v) - 2
        if n < 2:
            break
        e = np.array([resid(y, ce, v[i - 1], v[i], v[i + 1]) for i in range(1, len(v) - 1)])
        who = []
        for i in range(1, len(v) - 1):
            l, m, r = y[v[i - 1]], y[v[i]], y[v[i + 1]]
            w = v[i]
            if i == 1 and abs(l - r) > abs(m - r):
                w = v[0]
            elif i == len(v) - 2 and abs(l - r) > abs(m - l):
                w = v[-1]
            who.append(w)
        noise = float(np.sqrt((e * e).sum() / n))
        if noise < 0.01:       # residuals of rounding size only
            return ok, False
        k = int(np.argmax(e))
        rel = e[k] / noise
        if abs(rel - above) < 1e-3 * max(1.0, above) + 2e-3 / noise:
            clear = False
        for j in range(len(e)):
            if j != k and who[j] != who[k] and e[k] - e[j] < 1e-3 * e[k] + 1e-3:
                # an exact tie is decided by the earlier one, but rounding may break exactness
                clear = False
        if rel <= above:
            break
        ok[who[k]] = False
        removed[who[k]] = True
        if n <= 2:
            break
    if noise is None:
        return ok, clear
    for m in range(1, nt - 1):
        if ok[m] or not exists[m] or removed[m]:
            continue
        l = np.flatnonzero(ok[:m])
        r = np.flatnonzero(ok[m + 1:])
        if len(l) == 0 or len(r) == 0:
            continue
        rel = resid(y, ce, l[-1], m, m + 1 + r[0]) / noise
        if abs(rel - below) < 1e-3 * max(1.0, below) + 2e-3 / noise and below > 0:
            clear = False
        if rel < below:
            ok[m] = True
    return ok, clear


def run_case(case, ctx):
    out = Outcome()
    base = ctx.dir
    hl.dirs(base)
    ny, nx, nt = case["ny"], case["nx"], len(case["acq"])
    rng = np.random.default_rng(case["seed"])
    t = np.array([a[0] for a in case["acq"]], float)[:, None, None]
    sh, full = (1, ny, nx), (nt, ny, nx)
    if case["base"] == "trend":
        v = rng.uniform(500, 5000, sh) + rng.uniform(-4, 4, sh) * t
    elif case["base"] == "const":
        v = np.broadcast_to(rng.integers(200, 8000, sh).astype(float), full)
    elif case["base"] == "walk":
        v = 3000 + np.cumsum(rng.normal(0, 120, full), 0)
    else:
        v = rng.uniform(0, 9000, full)
    v = v + rng.normal(0, max(case["noise"], 1e-9), full) * (case["noise"] > 0)
    v = v + (rng.random(full) < case["spikes"]) * rng.choice([-1.0, 1.0], full) * rng.uniform(200, 4000, full)
    v = np.clip(np.rint(v), -8000, 19000).astype(np.int64)
    ok = rng.random(full) >= case["masked"]
    exists = ok | (rng.random(full) >= case["lost"])
    keep = hl.keep_mask(case, ny, nx)
    ok &= keep[None]
    exists &= keep[None]
    cube = F.Cube(base + "/lower", tile=(nx * 10, ny * 10))
    names = []
    for i, a in enumerate(case["acq"]):
        d = hl.from_ord(a[0], 2015)
        boa = np.broadcast_to(np.where(exists[i], v[i], hl.ND), (6, ny, nx)).astype(np.int16).copy()
        boa[1:] = np.where(exists[i], 777, hl.ND)
        q = np.where(ok[i], 0, F.qai_make(cloud=2) if case["crit"] else F.qai_make(shadow=1)).astype(np.int16)
        q = np.where(exists[i], q, q | 1)
        hl.write_acq(cube, (0, 0), d, "LND%02d" % a[1], boa, q)
        names.append(hl.date_str(d) + "_LND%02d" % a[1])
    p = hl.tsa_params(base, SENSORS="LND08 LND09 LND05", INDEX="BLUE", OUTPUT_TSS="TRUE", SCREEN_QAI="NODATA CLOUD_OPAQUE CLOUD_SHADOW",
                      ABOVE_NOISE=case["above"], BELOW_NOISE=case["below"], CHUNK_SIZE="%d %d" % (nx * 10, ny * 10))
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    g = hl.one(hl.outputs(base + "/higher"), "_TSS.tif")
    if g.names != names:
        out.fail("names", "%s, expected %s" % (g.names, names))
        return out
    ce = np.array([2015 * 365 + 1 + a[0] for a in case["acq"]])
    out.evals = 0
    bad = []
    for iy in range(ny):
        for ix in range(nx):
            m, clear = screen(v[:, iy, ix].astype(float), ce, ok[:, iy, ix], exists[:, iy, ix], case["above"], case["below"])
            if not clear:
                out.label("too close to call")
                continue
            exp = np.where(m, v[:, iy, ix], hl.ND)
            out.evals += nt
            out.label("removed", (ok[:, iy, ix] & ~m).sum())
            out.label("restored", (~ok[:, iy, ix] & m).sum())
            if (m != ok[:, iy, ix]).any():
                out.nontrivial += nt
            if (g.data[:, iy, ix] != exp).any():
                bad.append((iy, ix, exp, m))
    if bad:
        iy, ix, exp, m = bad[0]
        out.fail("screen", "%d pixels differ; pixel (%d,%d): days %s values %s usable %s existing %s -> got %s expected %s (above %s below %s)" % (
            len(bad), iy, ix, [a[0] for a in case["acq"]], v[:, iy, ix].tolist(), ok[:, iy, ix].astype(int).tolist(),
            exists[:, iy, ix].astype(int).tolist(), (g.data[:, iy, ix] != hl.ND).astype(int).tolist(), m.astype(int).tolist(),
            case["above"], case["below"]), [b[0] * nx + b[1] for b in bad])
    if case["above"] == 0:
        out.nontrivial += 1
    out.label("off" if case["above"] == 0 else "on")
    out.sample = dict(acquisitions=nt, pixels=nx * ny, above=case["above"], below=case["below"])
    return out


def minimise(case, where):
    yield from hl.minimise_pixels(case, where)
    if len(case["acq"]) > 3:
        for i in range(len(case["acq"])):
            yield dict(case, acq=case["acq"][:i] + case["acq"][i + 1:])
