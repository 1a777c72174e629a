"""Texture metrics against a reference greyscale morphology on the mosaic of all tiles."""
import numpy as np
from hypothesis import strategies as st

import feat
import hl
import modules as M
from harness import Outcome

ID = "C33"
RULE = ("a case is a cube of 1-4 tiles with generated feature images (band selection, order, nodata value, nodata exclusion, mask, block layout) and a kernel "
        "radius, iteration count and list of metrics; one evaluation = one output value; distinct non-trivial = values of processed pixels whose "
        "neighbourhood holds at least two values")
TIERS = {"quick": dict(examples=1000, budget=27), "thorough": dict(examples=3000, budget=75)}
METRICS = ["ERO", "DIL", "OPN", "CLS", "GRD", "THT", "BHT"]
ASSUMPTIONS = ["kernels (all iterations together) do not reach further than one block"]


@st.composite
def strategy_(draw, tier):
    sc = draw(feat.scene())
    sc["metrics"] = draw(st.lists(st.sampled_from(METRICS), min_size=1, max_size=4, unique=True))
    sc["radius"] = draw(st.sampled_from([1, 2, 3, 4, 5]))
    sc["iter"] = draw(st.sampled_from([1, 2, 3]))
    twice = 2 if set(sc["metrics"]) & {"OPN", "CLS", "THT", "BHT"} else 1
    g = sc["grid"]
    lim = min(g["nx"] // sc["blk"][0], g["ny"] // sc["blk"][1])
    while sc["radius"] * sc["iter"] * twice > lim:
        if sc["iter"] > 1:
            sc["iter"] -= 1
        elif sc["radius"] > 1:
            sc["radius"] -= 1
        else:
            break
    return sc


def strategy(tier):
    return strategy_(tier)


def ellipse(r):
    off = []
    for dy in range(-r, r + 1):
        dx = int(np.rint(np.sqrt(r * r - dy * dy)))
        off += [(dy, x) for x in range(-dx, dx + 1) if abs(x) <= r]
    return off


def rank(z, r, it, op):
    """repeated minimum/maximum filter; beyond the array edge: ignored"""
    fill = 10 ** 6 if op is np.minimum else -10 ** 6
    off = ellipse(r)
    for _ in range(it):
        zp = np.pad(z, r, constant_values=fill)
        res = None
        for dy, dx in off:
            v = zp[r + dy:r + dy + z.shape[0], r + dx:r + dx + z.shape[1]]
            res = v.copy() if res is None else op(res, v)
        z = res
    return z


def metric(m, z, r, it):
    if m == "ERO":
        return rank(z, r, it, np.minimum)
    if m == "DIL":
        return rank(z, r, it, np.maximum)
    if m == "OPN":
        return rank(rank(z, r, it, np.minimum), r, it, np.maximum)
    if m == "CLS":
        return rank(rank(z, r, it, np.maximum), r, it, np.minimum)
    if m == "GRD":
        return rank(z, r, it, np.maximum) - rank(z, r, it, np.minimum)
    if m == "THT":
        return z - metric("OPN", z, r, it)
    return metric("CLS", z, r, it) - z


def run_case(case, ctx):
    out = Outcome()
    r, it = case["radius"], case["iter"]
    b = feat.build(ctx, case, "TXT", TXT=" ".join(case["metrics"]), TXT_RADIUS=10 * r, TXT_ITERATION=it, TXT_BASE="TEX")
    res = M.run(ctx, "TXT", b.p)
    out.evals = 1
    if res.rc != 0:
        out.fail("run", "exit %s: %s" % (res.rc, res.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    z, mask, where = feat.mosaic(b, 2 * r * it)
    tiles = feat.expected_tiles(b)
    for t in tiles:
        for m in case["metrics"]:
            if "%s/TEX_HL_TXT_%s.tif" % (feat.tile_name(t), m) not in o:
                out.fail("missing", "%s of tile %s was not written; outputs %s" % (m, t, sorted(o)))
                return out
    if len(set(o)) > len(case["metrics"]) * len([t for t in b.feat if b.complete[t] and b.mask[t] is not None]):
        out.fail("files", "outputs %s" % sorted(o))
    n = nt = 0
    exp = {}
    for m in case["metrics"]:
        exp[m] = np.stack([metric(m, z[k], r, it) for k in range(len(b.bands))])
    vary = np.stack([metric("GRD", z[k], r, it) != 0 for k in range(len(b.bands))])
    for t in tiles:
        s = where(t)
        for m in case["metrics"]:
            ras = o["%s/TEX_HL_TXT_%s.tif" % (feat.tile_name(t), m)]
            if ras.names != b.names:
                out.fail("bands", "bands %s, expected %s" % (ras.names, b.names))
                return out
            if any(v != b.nd for v in ras.nodata):
                out.fail("nodata", "nodata value %s, expected %s" % (ras.nodata, b.nd))
            off = np.broadcast_to(~mask[s], (len(b.bands),) + mask[s].shape).copy()
            if case["exclude"]:
                off |= z[(slice(None),) + s] == b.nd
            e = np.where(off, b.nd, exp[m][(slice(None),) + s])
            n += hl.compare(out, "txt-" + m, ras.data, e, what="%s of tile %s (radius %d, %d iterations)" % (m, t, r, it))
            nt += int((~off & vary[(slice(None),) + s]).sum())
            out.label(m)
    out.evals, out.nontrivial = max(n, 1), nt
    out.label("radius %d" % r)
    out.label("iterations %d" % it)
    out.sample = dict(metrics=case["metrics"], radius=r, iterations=it, tiles=len(b.feat), bands=b.names)
    return out
