"""Metadata copies between generated images."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
from harness import Outcome

ID = "C52"
RULE = ("a case copies metadata between two generated images (1-6 bands, own names, dictionaries, nodata values, sizes, formats); one evaluation = one band of the target; "
        "distinct non-trivial = bands whose name or metadata had to change, and refusals")
TIERS = {"quick": dict(examples=3000, budget=20), "thorough": dict(examples=9000, budget=60)}
CH = "".join(chr(c) for c in range(32, 127) if chr(c) not in "=")
TEXT = st.text(CH, min_size=1, max_size=25).map(lambda s: s.strip() or "x")
KEY = st.text("abcdefghijkXYZ0189_", min_size=1, max_size=8).map(lambda s: "K" + s)


def image(nb, empty):
    return st.fixed_dictionaries(dict(names=st.lists(TEXT, min_size=nb, max_size=nb), meta=st.just({}) if empty else st.dictionaries(KEY, TEXT, min_size=1, max_size=4),
                                      bmeta=st.lists(st.just({}) if empty else st.dictionaries(KEY, TEXT, min_size=1, max_size=3), min_size=nb, max_size=nb), nx=st.integers(1, 8), ny=st.integers(1, 8),
                                      nodata=st.sampled_from([-9999, 0, 255, -32768]), seed=st.integers(0, 2 ** 31), empty=st.just(empty)))


@st.composite
def strategy_(draw, tier):
    nb = draw(st.integers(1, 6))
    nb2 = nb if draw(st.integers(0, 3)) else draw(st.integers(1, 6))
    src = draw(image(nb, False))
    # bands without a name or without metadata
    for b in draw(st.lists(st.integers(0, nb - 1), max_size=2)):
        if draw(st.booleans()):
            src["names"][b] = ""
        else:
            src["bmeta"][b] = {}
    return dict(src=src, dst=draw(image(nb2, draw(st.booleans()))))


def strategy(tier):
    return strategy_(tier)


def write(path, im):
    rng = np.random.default_rng(im["seed"])
    a = rng.integers(-32768, 32768, (len(im["names"]), im["ny"], im["nx"])).astype(np.int16)
    gt = (float(im["seed"] % 5000), 10.0, 0.0, 700.0, 0.0, -10.0)
    F.write_raster(path, a, gt, F.WKT, im["nodata"], "int16", im["names"] if not im["empty"] else [""] * len(im["names"]), im["meta"], im["bmeta"])


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    s, d = ctx.dir + "/s.tif", ctx.dir + "/d.tif"
    write(s, case["src"])
    write(d, case["dst"])
    before, sbytes, dbytes, src = F.Raster(d), open(s, "rb").read(), open(d, "rb").read(), F.Raster(s)
    r = F.run([ctx.exe("force-mdcp"), s, d], cwd=ctx.dir)
    if open(s, "rb").read() != sbytes:
        out.fail("source", "the source image was changed")
    if before.nb != src.nb:
        out.label("refused")
        out.nontrivial = 1
        if r.rc == 0:
            out.fail("refuse", "%d bands were accepted for %d" % (src.nb, before.nb))
        if open(d, "rb").read() != dbytes:
            out.fail("touched", "a refused target was changed")
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    got = F.Raster(d)
    if not np.array_equal(got.data, before.data) or (got.nx, got.ny, got.nb, got.dtype) != (before.nx, before.ny, before.nb, before.dtype):
        out.fail("pixels", "pixel values of the target changed")
    if got.nodata != before.nodata or got.gt != before.gt or got.wkt != before.wkt:
        out.fail("georeference", "nodata or georeference of the target changed: %s %s, had %s %s" % (got.nodata, got.gt, before.nodata, before.gt))
    if got.names != src.names:
        out.fail("names", "band names %s, source has %s" % (got.names, src.names))
    if got.meta != src.meta:
        out.fail("metadata", "metadata %s, source has %s" % (got.meta, src.meta))
    if got.bandmeta != src.bandmeta:
        out.fail("band-metadata", "band metadata %s, source has %s" % (got.bandmeta, src.bandmeta))
    out.evals = got.nb
    out.nontrivial = sum(before.names[b] != src.names[b] or before.bandmeta[b] != src.bandmeta[b] for b in range(got.nb))
    out.label("copied")
    out.sample = dict(names=got.names[:3], meta=got.meta)
    return out
