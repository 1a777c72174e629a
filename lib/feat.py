"""Feature cubes (tiled multi-band images) for the modules that work on features."""
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
import modules as M

FILES = ["feat_one.tif", "second-set.tif", "B3.tif"]
MASKS = ["random", "block", "full", "one", "empty", "missing"]


@st.composite
def scene(draw, max_tiles=4, sizes=(12, 8, 16, 6), values=("few", "smooth", "any"), max_files=2, max_bands=3, nodatas=(-9999, -9999, 0, -1),
          blocks=True, dup=True):
    g = draw(M.grid(max_tiles, sizes))
    nb = draw(st.lists(st.integers(1, max_bands), min_size=1, max_size=max_files))
    sel = []
    for i, n in enumerate(nb):
        sel.append([i, draw(st.lists(st.integers(1, n), min_size=1, max_size=n, unique=True))])
    if len(sel) > 1 and draw(st.booleans()):
        sel = sel[::-1]
    if dup and draw(st.integers(0, 3)) == 0:
        sel.append([0, [draw(st.integers(1, nb[0]))]])
    masked = draw(st.integers(0, 2)) == 0
    drop = [[draw(st.integers(0, len(g["tiles"]) - 1)), draw(st.integers(0, len(nb) - 1))]] if draw(st.integers(0, 4)) == 0 else []
    blk = draw(st.sampled_from([[1, 1], [2, 1], [1, 2], [2, 2]])) if blocks else [1, 1]
    return dict(grid=g, nb=nb, sel=sel, seed=draw(st.integers(0, 2 ** 31 - 1)), values=draw(st.sampled_from(values)),
                nodata=draw(st.sampled_from(nodatas)), frac=draw(st.sampled_from([0.1, 0.0, 0.4])), drop=drop, blk=blk,
                exclude=draw(st.booleans()), masks=[draw(st.sampled_from(MASKS)) for _ in g["tiles"]] if masked else None,
                threads=draw(st.sampled_from([1, 3])), stream=draw(st.booleans()))


def images(sc, i, nb):
    g = sc["grid"]
    ny, nx = g["ny"], g["nx"]
    rng = np.random.default_rng([sc["seed"], i, nb])
    if sc["values"] == "few":
        v = rng.integers(0, 5, (nb, ny, nx))
    elif sc["values"] == "patch":       # a few compact blobs of the same class
        v = np.zeros((nb, ny, nx), int)
        for b in range(nb):
            for _ in range(rng.integers(1, 6)):
                y, x = rng.integers(0, ny), rng.integers(0, nx)
                v[b, y:y + rng.integers(1, 5), x:x + rng.integers(1, 5)] = rng.integers(1, 5)
    elif sc["values"] == "smooth":
        yy, xx = np.mgrid[0:ny, 0:nx]
        v = np.stack([3000 + 2500 * np.sin((xx + rng.uniform(0, 9)) / 3.0) * np.cos((yy + rng.uniform(0, 9)) / 4.0) for _ in range(nb)])
    elif sc["values"] == "positive":
        v = rng.integers(1, 9999, (nb, ny, nx))
    else:
        v = rng.integers(-3000, 9999, (nb, ny, nx))
    v = np.rint(v).astype(np.int16)
    v[rng.random(v.shape) < sc["frac"]] = sc["nodata"]
    return v


def make_mask(kind, ny, nx, rng):
    m = np.zeros((ny, nx), np.uint8)
    if kind == "random":
        m = (rng.random((ny, nx)) < 0.7).astype(np.uint8)
    elif kind == "block":
        y, x = rng.integers(0, ny), rng.integers(0, nx)
        m[max(0, y - 4):y + 4, max(0, x - 4):x + 4] = 1
    elif kind == "one":
        m[rng.integers(0, ny), rng.integers(0, nx)] = 1
    elif kind == "full":
        m[:] = 1
    return m


class Built:
    pass


def build(ctx, sc, kind, **opts):
    """writes the inputs; returns Built with params p, tile list, features per tile (None = missing), masks per tile"""
    g = sc["grid"]
    b = Built()
    b.g, b.nd, b.masked = g, sc["nodata"], bool(sc["masks"])
    origin = tuple(sc.get("origin", F.ORIGIN))
    res = sc.get("res", 10)
    cube = b.cube = F.Cube(ctx.dir + "/lower", tile=(g["nx"] * res, g["ny"] * res), res=float(res), origin=origin)
    b.bands = [(f, k) for f, ks in sc["sel"] for k in ks]
    b.names = ["%s_B%04d" % (os.path.splitext(FILES[f])[0], k) for f, k in b.bands]
    b.feat, b.mask, b.complete = {}, {}, {}
    drop = {tuple(d) for d in sc["drop"]}
    mc = F.Cube(ctx.dir + "/mask", tile=(g["nx"] * res, g["ny"] * res), res=float(res), origin=origin) if sc["masks"] else None
    used = {f for f, _ in b.bands}
    for i, t in enumerate(g["tiles"]):
        t = tuple(t)
        img = {}
        for f, nb in enumerate(sc["nb"]):
            if (i, f) in drop:
                continue
            img[f] = images(sc, i * 8 + f, nb)
            cube.write(t[0], t[1], FILES[f], img[f], nodata=sc["nodata"])
        b.feat[t] = [img[f][k - 1] if f in img else None for f, k in b.bands]
        b.complete[t] = all(f in img for f in used)
        if mc:
            m = None
            if sc["masks"][i] != "missing":
                m = make_mask(sc["masks"][i], g["ny"], g["nx"], np.random.default_rng([sc["seed"], 7, i]))
                mc.write(t[0], t[1], "m.tif", m[None], nodata=255, dtype="uint8")
            b.mask[t] = m
        else:
            b.mask[t] = np.ones((g["ny"], g["nx"]), np.uint8)
    p = M.params(ctx, kind)
    cx, cy = g["nx"] // sc["blk"][0], g["ny"] // sc["blk"][1]
    p.update(M.grid_params(g, cx, cy))
    if res != 10:
        p.update(RESOLUTION=res, CHUNK_SIZE="%d %d" % (res * cx, res * cy))
    p["INPUT_FEATURE"] = ["%s %s" % (FILES[f], " ".join(map(str, ks))) for f, ks in sc["sel"]]
    p.update(FEATURE_NODATA=sc["nodata"], FEATURE_EXCLUDE="TRUE" if sc["exclude"] else "FALSE", NTHREAD_COMPUTE=sc["threads"],
             STREAMING="TRUE" if sc["stream"] else "FALSE")
    if mc:
        p.update(DIR_MASK=ctx.dir + "/mask", BASE_MASK="m.tif")
    p.update(opts)
    b.p = p
    return b


def mosaic(b, pad):
    """(features [nf,H,W] with nodata where missing, mask [H,W], function tile -> slices)"""
    g = b.g
    x0, x1, y0, y1 = M.grid_bounds(g)
    W, H = (x1 - x0 + 1) * g["nx"] + 2 * pad, (y1 - y0 + 1) * g["ny"] + 2 * pad
    z = np.full((len(b.bands), H, W), b.nd, np.int64)
    m = np.full((H, W), not b.masked)

    def where(t):
        oy, ox = pad + (t[1] - y0) * g["ny"], pad + (t[0] - x0) * g["nx"]
        return slice(oy, oy + g["ny"]), slice(ox, ox + g["nx"])

    for t, fs in b.feat.items():
        s = where(t)
        for k, v in enumerate(fs):
            if v is not None:
                z[k][s] = v
        if b.masked and b.mask[t] is not None:
            m[s] = b.mask[t] == 1
    return z, m, where


def expected_tiles(b):
    """tiles that are processed: all features present and the mask selects something"""
    return [t for t in b.feat if b.complete[t] and b.mask[t] is not None and (b.mask[t] == 1).any()]


def tile_name(t):
    return "X%04d_Y%04d" % t
