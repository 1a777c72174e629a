"""Landscape metrics against a reference patch analysis of every kernel neighbourhood."""
import numpy as np
from hypothesis import strategies as st

import feat
import hl
import modules as M
from harness import Outcome

ID = "C34"
RULE = ("a case is a cube of 1-4 tiles with generated feature images (classes, blobs, continuous), a foreground query per feature, kernel radius and shape, "
        "minimum patch size, mask, nodata exclusion and block layout; one evaluation = one output value; distinct non-trivial = values of pixels whose kernel "
        "holds foreground and background")
TIERS = {"quick": dict(examples=900, budget=27), "thorough": dict(examples=2600, budget=75)}
METRICS = ["MPA", "FDI", "EDD", "NBR", "EMS", "AVG", "GEO", "STD", "MAX", "ARE", "UCI"]
ASSUMPTIONS = ["patches are 8-connected and delineated within the processed block plus kernel radius",
               "undefined values (geometric mean without positive value, standard deviation of one value, fractal dimension without perimeter) are not judged",
               "kernels do not reach further than one block"]


@st.composite
def strategy_(draw, tier):
    sc = draw(feat.scene(max_tiles=3, sizes=(12, 8, 16), values=("patch", "few", "any", "smooth"), max_bands=2, dup=False))
    n = sum(len(k) for _, k in sc["sel"])
    sc["metrics"] = draw(st.lists(st.sampled_from(METRICS), min_size=1, max_size=5, unique=True))
    sc["query"] = draw(st.lists(st.sampled_from(["GT", "EQ", "LT", "GE", "LE"]), min_size=n, max_size=n))
    sc["thr"] = draw(st.lists(st.sampled_from({"patch": [0, 1, 2], "few": [1, 2, 3, 4], "any": [-1000, 0, 3000, 5000], "smooth": [2000, 3000, 4500]}[sc["values"]]),
                              min_size=n, max_size=n))
    g = sc["grid"]
    lim = min(g["nx"] // sc["blk"][0], g["ny"] // sc["blk"][1])
    sc["radius"] = draw(st.sampled_from([r for r in (1, 2, 3, 5, 4) if r <= lim]))
    sc["circle"] = draw(st.booleans())
    sc["allpx"] = draw(st.booleans())
    sc["minsize"] = draw(st.sampled_from([1, 3, 2, 6]))
    return sc


def strategy(tier):
    return strategy_(tier)


def label(fg):
    """8-connected components, 0 = background"""
    lab = np.zeros(fg.shape, int)
    n = 0
    H, W = fg.shape
    for y, x in np.argwhere(fg):
        if lab[y, x]:
            continue
        n += 1
        st_ = [(y, x)]
        lab[y, x] = n
        while st_:
            a, b = st_.pop()
            for i in range(max(0, a - 1), min(H, a + 2)):
                for j in range(max(0, b - 1), min(W, b + 2)):
                    if fg[i, j] and not lab[i, j]:
                        lab[i, j] = n
                        st_.append((i, j))
    return lab, n


QUERY = dict(GT=np.greater, LT=np.less, EQ=np.equal, GE=np.greater_equal, LE=np.less_equal)


def block(case, z, use, nd, k):
    """metrics of one padded block: dict metric -> (values, judged); fg, labels"""
    r = case["radius"]
    fg = QUERY[case["query"][k]](z, case["thr"][k]) & use
    lab, n = label(fg)
    size = np.bincount(lab.ravel(), minlength=n + 1)
    fg &= size[lab] >= case["minsize"]
    lab, n = label(fg)
    H, W = z.shape
    h, w = H - 2 * r, W - 2 * r
    off = [(dy, dx) for dy in range(-r, r + 1) for dx in range(-r, r + 1) if not case["circle"] or dy * dy + dx * dx <= r * r]

    def S(a, offs=off):
        """sum over the kernel, for all pixels of the inner block"""
        t = np.zeros(a.shape[:-2] + (h, w), a.dtype)
        for dy, dx in offs:
            t += a[..., r + dy:r + dy + h, r + dx:r + dx + w]
        return t

    val = fg & (z != nd)
    cnt = S(val.astype(float))
    zf = np.where(val, z, 0).astype(float)
    mean = S(zf) / np.maximum(cnt, 1)
    var = (S(zf ** 2) - cnt * mean ** 2) / np.maximum(cnt - 1, 1)
    pos = fg & (z > 0)
    npos = S(pos.astype(float))
    geo = np.exp(S(np.where(pos, np.log(np.maximum(z, 1)), 0.0)) / np.maximum(npos, 1))
    mx = np.full((h, w), -10.0 ** 6)
    for dy, dx in off:
        s = np.s_[r + dy:r + dy + h, r + dx:r + dx + w]
        mx = np.maximum(mx, np.where(val[s], z[s], -10 ** 6))
    mx = np.where(cnt > 0, mx, 0)
    layers = np.stack([lab == i for i in range(1, n + 1)]).astype(float) if n else np.zeros((0, H, W))
    area = S(layers)
    per = np.zeros_like(area)
    for sy, sx in ((1, 0), (-1, 0), (0, 1), (0, -1)):
        nb = np.zeros_like(fg)
        src = np.s_[max(0, sy):H + min(0, sy), max(0, sx):W + min(0, sx)]
        dst = np.s_[max(0, -sy):H + min(0, -sy), max(0, -sx):W + min(0, -sx)]
        nb[dst] = ~fg[src]          # the neighbour exists and is background
        offs = [(dy, dx) for dy, dx in off if abs(dy + sy) <= r and abs(dx + sx) <= r]
        per += S(layers * nb, offs)
    K = float((2 * r + 1) ** 2)
    tot = area.sum(0)
    edge = per.sum(0)
    ok = np.ones((h, w), bool)
    with np.errstate(all="ignore"):
        mpa = np.where(tot > 0, (area ** 2).sum(0) / np.maximum(tot, 1) / K, 0) * 10000
        big = area > 1
        fd = np.where(big, 2 * np.log(0.25 * per) / np.log(np.where(big, area, 2)), 0)
        fdi = (np.where(big, area * fd, 0)).sum(0) / (area * big).sum(0) * 10000
    fdok = np.isfinite(fdi) & (np.abs(fdi) < 32000)
    none = tot == 0
    res = dict(MPA=(mpa, ok, 2), FDI=(np.where(none, 0, fdi), fdok | none, 6), EDD=(edge / K * 10000, edge / K * 10000 < 32000, 3),
               NBR=((area > 0).sum(0), ok, 0), EMS=((tot / K) ** 2 * 10000, ok, 3), AVG=(mean, ok, 1), GEO=(geo, npos > 0, 2 + geo * 1e-4),
               STD=(np.sqrt(np.maximum(var, 0)), cnt > 1, 1.01), MAX=(mx, ok, 0), ARE=(cnt, ok, 0), UCI=(lab[r:H - r, r:W - r], ok, None))
    fgi = fg[r:H - r, r:W - r]
    return res, fgi, (tot > 0) & (edge > 0)


def run_case(case, ctx):
    out = Outcome()
    r = case["radius"]
    b = feat.build(ctx, case, "LSM", LSM=" ".join(case["metrics"]), LSM_RADIUS=10 * r, LSM_KERNEL_SHAPE="CIRCLE" if case["circle"] else "SQUARE",
                   LSM_MIN_PATCHSIZE=case["minsize"], LSM_ALL_PIXELS="TRUE" if case["allpx"] else "FALSE", LSM_THRESHOLD_TYPE=" ".join(case["query"]),
                   LSM_THRESHOLD=" ".join(map(str, case["thr"])), LSM_BASE="LS")
    res = M.run(ctx, "LSM", b.p)
    out.evals = 1
    if res.rc != 0:
        out.fail("run", "exit %s: %s" % (res.rc, res.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    z, mask, where = feat.mosaic(b, r)
    g = b.g
    cx, cy = g["nx"] // case["blk"][0], g["ny"] // case["blk"][1]
    n = nt = 0
    for t in feat.expected_tiles(b):
        files = {m: o.get("%s/LS_HL_LSM_%s.tif" % (feat.tile_name(t), m)) for m in case["metrics"]}
        for m, ras in files.items():
            if ras is None:
                out.fail("missing", "%s of tile %s was not written; outputs %s" % (m, t, sorted(o)))
                return out
            if ras.names != b.names:
                out.fail("bands", "bands %s, expected %s" % (ras.names, b.names))
                return out
        oy, ox = where(t)[0].start, where(t)[1].start
        for by in range(case["blk"][1]):
            for bx in range(case["blk"][0]):
                y0, x0 = oy + by * cy, ox + bx * cx
                pads = np.s_[y0 - r:y0 + cy + r, x0 - r:x0 + cx + r]
                inner = np.s_[by * cy:(by + 1) * cy, bx * cx:(bx + 1) * cx]
                for k in range(len(b.bands)):
                    zz = z[k][pads]
                    use = mask[pads].copy()
                    if case["exclude"]:
                        use &= zz != b.nd
                    ref, fg, mixed = block(case, zz, use, b.nd, k)
                    ui = use[r:-r, r:-r]
                    act = ui & (fg | case["allpx"])
                    # blocks whose mask is empty are not processed and remain nodata
                    for m, ras in files.items():
                        got = ras.data[k][inner].astype(float)
                        e, ok, tol = ref[m]
                        ok = ok | ~act
                        if m == "UCI":
                            judge_ids(out, got, np.where(act, e, -1), b.nd, t, b.names[k])
                            n += got.size
                        else:
                            e = np.where(act, np.trunc(e) if not isinstance(tol, np.ndarray) else e, b.nd)
                            bad = (np.abs(got - e) > np.where(act, tol, 0)) & ok
                            if m == "GEO":      # truncated to an integer
                                eps = 0.01 + np.abs(e) * 1e-4
                                bad |= ((got > e + eps) | (got < e - 1 - eps)) & ok & act
                            n += int(ok.sum())
                            if bad.any():
                                y, x = np.argwhere(bad)[0]
                                out.fail("lsm-" + m, "%s of tile %s block %d/%d, %s: %d of %d wrong, first at %d/%d: %s expected %s (%s)"
                                         % (m, t, bx, by, b.names[k], bad.sum(), bad.size, x, y, got[y, x], e[y, x],
                                            "foreground" if fg[y, x] else "background" if act[y, x] else "not processed"))
                        nt += int((act & mixed).sum())
    for m in case["metrics"]:
        out.label(m)
    out.label("min size %d" % case["minsize"])
    out.evals, out.nontrivial = max(n, 1), nt
    out.sample = dict(metrics=case["metrics"], radius=r, circle=case["circle"], query=list(zip(case["query"], case["thr"])))
    return out


def judge_ids(out, got, lab, nd, t, name):
    """patch identifiers: one positive number per patch, 0 for background, nodata elsewhere"""
    bad = ((lab == -1) & (got != nd)) | ((lab == 0) & (got != 0)) | ((lab > 0) & (got <= 0))
    ids = {}
    for g, l in zip(got[lab > 0].tolist(), lab[lab > 0].tolist()):
        ids.setdefault(l, set()).add(g)
    if bad.any() or any(len(v) > 1 for v in ids.values()) or len({min(v) for v in ids.values()}) != len(ids):
        out.fail("lsm-UCI", "patch identifiers of tile %s, %s: %s for patches %s" % (t, name, got.astype(int).tolist(), lab.tolist()))
