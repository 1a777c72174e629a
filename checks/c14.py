"""Analysis at another resolution than the input's."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
from harness import Outcome

ID = "C14"
RULE = ("a case is a cube with images of one or two resolutions, an analysis resolution (same, coarser or finer by integer factors), blocks, "
        "point-spread reduction on/off, quality flags and data (random, constant, single bright pixel); one evaluation = one output pixel; distinct "
        "non-trivial = pixels of images whose resolution differs from the analysis resolution")
TIERS = {"quick": dict(examples=1000, budget=25), "thorough": dict(examples=3000, budget=70)}
ASSUMPTIONS = ["where the centre of a coarser output pixel lies on a border between input pixels any of the adjacent pixels is accepted",
               "point-spread reduction: constants, bounds by the surrounding inputs, nodata and locality are judged, not the kernel itself"]


@st.composite
def strategy_(draw, tier):
    unit = draw(st.sampled_from([60, 120]))
    res = draw(st.sampled_from([10, 20, 30, 5, 60, 15]))
    res_in = [r for r in (10, 20, 30, 5, 60, 15) if (r % res == 0 or res % r == 0)]
    cx, cy = unit * draw(st.integers(1, 2)), unit * draw(st.integers(1, 2))
    return dict(res=res, chunk=[cx, cy], tile=[cx * draw(st.integers(1, 3)), cy * draw(st.integers(1, 3))],
                acq=[draw(st.sampled_from(res_in)) for _ in range(draw(st.integers(1, 3)))], psf=draw(st.booleans()),
                data=draw(st.sampled_from(["random", "const", "impulse", "smooth"])), holes=draw(st.sampled_from([0.0, 0.1, 0.5])),
                seed=draw(st.integers(0, 2**31 - 1)), flags=draw(st.sampled_from([0.0, 0.0, 0.3, 0.6])), sen=draw(st.sampled_from(["SEN2A", "LND08"])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    base = ctx.dir
    hl.dirs(base)
    rng = np.random.default_rng(case["seed"])
    tx, ty = case["tile"]
    R = case["res"]
    cube = F.Cube(base + "/lower", tile=(tx, ty))
    acqs = []
    nb = hl.SENSORS[case["sen"]]
    for i, r in enumerate(case["acq"]):
        nx, ny = tx // r, ty // r
        if case["data"] == "const":
            v = np.full((ny, nx), rng.integers(-500, 9000))
        elif case["data"] == "impulse":
            v = np.full((ny, nx), 100)
            v[rng.integers(ny), rng.integers(nx)] = 9000
        elif case["data"] == "smooth":
            v = np.add.outer(np.arange(ny) * 37, np.arange(nx) * 11) + 50
        else:
            v = rng.integers(1, 9999, (ny, nx))
        ok = rng.random((ny, nx)) >= case["holes"]
        boa = np.full((len(nb), ny, nx), 123)
        boa[2] = np.where(ok, v, hl.ND)
        q = None
        if case["flags"]:
            # opaque clouds among pixels with all kinds of other flags
            q = rng.choice([0, 8, 16, 64, 2048, 4096 + 16, 8192 + 24], (ny, nx))
            q[rng.random((ny, nx)) < case["flags"]] = 4 + 64
        hl.write_acq(cube, (0, 0), (2015, 2 + i, 3), case["sen"], boa, q, res=r)
        acqs.append((np.where(ok, v, hl.ND), None if q is None else q & 6 == 4))
    p = hl.tsa_params(base, SENSORS=case["sen"], TARGET_SENSOR="SEN2L" if case["sen"] == "SEN2A" else "LNDLG", INDEX="RED",
                      OUTPUT_TSS="TRUE", PRODUCT_TYPE_QUALITY="QAI" if case["flags"] else "NULL", SCREEN_QAI="NODATA CLOUD_OPAQUE", RESOLUTION=R, REDUCE_PSF="TRUE" if case["psf"] else "FALSE",
                      CHUNK_SIZE="%d %d" % tuple(case["chunk"]))
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    g = hl.one(hl.outputs(base + "/higher"), "_TSS.tif")
    NX, NY = tx // R, ty // R
    if g.data.shape != (len(acqs), NY, NX):
        out.fail("shape", "%s, expected %s" % (g.data.shape, (len(acqs), NY, NX)))
        return out
    gt = cube.geotransform(0, 0, R)
    if any(abs(a - b) > 1e-3 for a, b in zip(g.gt, gt)):
        out.fail("corner", "geotransform %s, expected %s" % (g.gt, gt))
    out.evals = 0
    for i, ((a, cloud), r_in) in enumerate(zip(acqs, case["acq"])):
        got = g.data[i].astype(float)
        some = every = np.zeros(got.shape, bool)
        if cloud is not None and r_in >= R:
            a = np.where(cloud, hl.ND, a)
        elif cloud is not None:
            # flags are never averaged: the flag of an input pixel at the centre decides
            k = R // r_in
            c = [k // 2] if k % 2 else [k // 2 - 1, k // 2]
            near = [cloud[yy::k, xx::k] for yy in c for xx in c]
            some, every = np.any(near, 0), np.all(near, 0)
            if (got[every] != hl.ND).any():
                y, x = np.argwhere(every & (got != hl.ND))[0]
                out.fail("flag", "input %d m, output %d m: pixel (%d,%d) is %d, the input at its centre is flagged" % (r_in, R, y, x, got[y, x]))
        out.evals += got.size
        if r_in != R:
            out.nontrivial += got.size
        if r_in >= R:
            k = r_in // R
            hl.compare(out, "nearest" if k > 1 else "same", got, np.kron(a, np.ones((k, k), int)), what="input %d m, output %d m" % (r_in, R))
            out.label("finer" if k > 1 else "same")
            continue
        k = R // r_in
        blocks = a.reshape(NY, k, NX, k).transpose(0, 2, 1, 3)
        if not case["psf"]:
            c = [k // 2] if k % 2 else [k // 2 - 1, k // 2]
            ok = some & (got == hl.ND)
            for yy in c:
                for xx in c:
                    ok |= got == blocks[:, :, yy, xx]
            if not ok.all():
                y, x = np.argwhere(~ok)[0]
                out.fail("coarser", "input %d m, output %d m: pixel (%d,%d) is %d, inputs at its centre %s" % (
                    r_in, R, y, x, got[y, x], blocks[y, x][c[0]:c[-1] + 1, c[0]:c[-1] + 1].tolist()))
            out.label("coarser nearest")
        else:
            # within one block (the reduction does not look beyond the processing block)
            cyp, cxp = case["chunk"][1] // r_in, case["chunk"][0] // r_in
            for y in range(NY):
                for x in range(NX):
                    y0, y1, x0, x1 = y * k, y * k + k, x * k, x * k + k
                    own = a[y0:y1, x0:x1]
                    if some[y, x] and got[y, x] == hl.ND:
                        continue
                    if (own == hl.ND).all():
                        if got[y, x] != hl.ND:
                            out.fail("psf-nodata", "pixel (%d,%d) is %d, all inputs nodata" % (y, x, got[y, x]))
                        continue
                    cy0, cx0 = y0 // cyp * cyp, x0 // cxp * cxp
                    w = a[max(y0 - k - 1, cy0):min(y1 + k + 1, cy0 + cyp), max(x0 - k - 1, cx0):min(x1 + k + 1, cx0 + cxp)]
                    w = w[w != hl.ND]
                    if not (w.min() - 1 <= got[y, x] <= w.max() + 1):
                        out.fail("psf-bounds", "input %d m, output %d m: pixel (%d,%d) is %d, inputs around it %d..%d" % (
                            r_in, R, y, x, got[y, x], w.min(), w.max()))
            if cloud is None and case["data"] == "impulse" and (a == 9000).any() and case["holes"] == 0:
                iy, ix = np.argwhere(a == 9000)[0]
                if got[iy // k, ix // k] != got.max() or got.max() < 101:
                    out.fail("psf-impulse", "bright input pixel (%d,%d) at %d m does not show at (%d,%d) of the %d m output: %s" % (
                        iy, ix, r_in, iy // k, ix // k, R, np.argwhere(got == got.max())[:3].tolist()))
            out.label("psf")
    out.sample = dict(res=R, inputs=case["acq"], psf=case["psf"], blocks=(tx // case["chunk"][0]) * (ty // case["chunk"][1]))
    return out
