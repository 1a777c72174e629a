"""Exactly the requested acquisitions enter the analysis."""
import os

import numpy as np
from osgeo import gdal
from hypothesis import strategies as st

import fcube as F
import hl
from harness import Outcome

ID = "C10"
RULE = ("a case is a population of images (dates clustered on the selection borders, several sensors and products, decoy "
        "files) and a selection (date range, day-of-year range, sensors, product, Landsat 7 limit); one evaluation = one "
        "file's presence or absence in the result; non-trivial = the file carries the right product and sensor, so that "
        "the dates decide")
TIERS = {"quick": dict(examples=900, budget=30), "thorough": dict(examples=3200, budget=70)}
LND = ["LND04", "LND05", "LND07", "LND08", "LND09"]


def real_date(draw, ylo, yhi):
    y = draw(st.integers(ylo, yhi))
    m = draw(st.integers(1, 12))
    d = draw(st.integers(1, [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]))
    return [y, m, d]


@st.composite
def case_(draw):
    lo = real_date(draw, 2013, 2016)
    span = draw(st.one_of(st.integers(0, 40), st.integers(0, 1100)))
    hi = list(hl.ymd_from_ce(hl.ce(*lo) + span))
    # ranges often start and end where months do
    edge = st.builds(lambda m, o: max(1, min(365, m + o)), st.sampled_from([0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]), st.integers(0, 1))
    any_ = st.one_of(st.integers(1, 365), edge)
    doys = [draw(any_), draw(any_)] if draw(st.integers(0, 2)) > 0 else [1, 365]
    wide = draw(st.integers(0, 2)) == 2
    if wide:
        lo, hi, span = [lo[0], 1, 1], [lo[0], 12, 31], 364
    if not wide and draw(st.integers(0, 2)) == 2:
        lo = list(hl.ymd_from_ce(lo[0]*365 + draw(edge)))
        hi = list(hl.ymd_from_ce((lo[0] + draw(st.integers(0, 2)))*365 + draw(edge)))
        if hl.ce(*hi) < hl.ce(*lo):
            lo, hi = hi, lo
        span = hl.ce(*hi) - hl.ce(*lo)
    if 0 < span < 300 and doys != [1, 365] and draw(st.booleans()):
        # a day-of-year range that cuts the date range
        doys = [hl.doy(*hl.ymd_from_ce(hl.ce(*d) + s * draw(st.integers(-3, min(span, 9))))[1:]) for d, s in ((lo, 1), (hi, -1))]
    sensors = draw(st.lists(st.sampled_from(LND), min_size=1, max_size=4, unique=True))
    l7 = draw(st.one_of(st.just([2099, 12, 31]), st.builds(lambda o: list(hl.ymd_from_ce(hl.ce(*lo) + o)),
                                                           st.integers(0, max(span, 1)))))
    product = draw(st.sampled_from(["BOA", "TOA"]))
    acqs = []
    n = draw(st.integers(3, 24))
    edges = [hl.ce(*lo), hl.ce(*hi), hl.ce(*l7) if l7[0] < 2099 else hl.ce(*lo)]
    y0 = lo[0]
    edges += [y * 365 + d for y in range(y0, hi[0] + 1) for d in doys][:12]
    if wide:
        edges = edges[-2:] * 3 + edges
    for _ in range(n):
        c = draw(st.one_of(st.builds(lambda e, o: e + o, st.sampled_from(edges), st.integers(-2, 2)),
                           st.integers(hl.ce(*lo), hl.ce(*hi)), st.integers(hl.ce(*lo) - 30, hl.ce(*hi) + 30)))
        ymd = list(hl.ymd_from_ce(c))
        if draw(st.integers(0, 19)) == 0:
            ymd = [draw(st.sampled_from([2012, 2016])), 2, 29]
        acqs.append(dict(d=ymd, s=draw(st.sampled_from(sensors * 3 + LND)), p=draw(st.sampled_from([product] * 8 + ["TOA", "BOA", "IMP"])),
                         e=draw(st.sampled_from(["tif"] * 6 + ["dat", "bsq", "bil", "vrt", "txt"])),
                         t=draw(st.sampled_from([0] * 8 + [1]))))
    # the first and last days of months
    for m in draw(st.lists(st.integers(1, 12), min_size=5, max_size=12, unique=True)) if wide else ():
        for d in (1, [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]):
            acqs.append(dict(d=[lo[0], m, d], s=sensors[0], p=product, e="tif", t=0))
    return dict(lo=lo, hi=hi, doys=doys, sensors=sensors, l7=l7, product=product, acqs=acqs,
                only=draw(st.booleans()))


def strategy(tier):
    return case_()


def fmt(d):
    return "%04d-%02d-%02d" % tuple(d)


def put(cube, a, stem, v, nodata, drv):
    if a["e"] != "vrt":
        cube.write(a["t"], 0, stem + "." + a["e"], v, nodata=nodata, driver=drv, options=["INTERLEAVE=BIL"] if a["e"] == "bil" else ())
        return
    d = cube.path + "-source"
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%d.img" % len(os.listdir(d)))
    F.write_raster(f, v, cube.geotransform(a["t"], 0, 10.0), cube.wkt, nodata)
    ds = gdal.BuildVRT(os.path.join(cube.tile_dir(a["t"], 0), stem + ".vrt"), [f])
    ds = None


def run_case(case, ctx):
    out = Outcome()
    base = ctx.dir
    hl.dirs(base)
    nx = ny = 4
    cube = F.Cube(base + "/lower", tile=(nx * 10, ny * 10))
    want, seen = {}, set()
    leap_ambiguous = any(hl.doy(*d[1:]) == 60 for d in (case["lo"], case["hi"], case["l7"])) or 60 in case["doys"]
    k = 0
    cube.tile_dir(0, 0)
    for a in case["acqs"]:
        key = (tuple(a["d"]), a["s"], a["p"], a["t"])
        if key in seen:
            continue
        if a["d"][1:] == [2, 29] and leap_ambiguous:
            continue
        seen.add(key)
        k += 1
        stem = "%s_LEVEL2_%s_%s" % (hl.date_str(a["d"]), a["s"], a["p"])
        if a["e"] == "txt":
            open(os.path.join(cube.tile_dir(a["t"], 0), stem + ".txt"), "w").write("x\n")
            out.evals += 1
            continue
        drv = "ENVI" if a["e"] in ("dat", "bsq", "bil") else "GTiff"
        boa = np.full((6, ny, nx), 100 + k, np.int16)
        qstem = "%s_LEVEL2_%s_QAI" % (hl.date_str(a["d"]), a["s"])
        put(cube, a, stem, boa, hl.ND, drv)
        qf = os.path.join(cube.tile_dir(a["t"], 0), qstem + "." + a["e"])
        if not os.path.exists(qf):
            put(cube, a, qstem, np.zeros((1, ny, nx), np.int16), 1, drv)
        c = hl.ce(*a["d"])
        dd = hl.doy(*a["d"][1:])
        lo, hi = case["doys"]
        in_doy = lo <= dd <= hi if lo <= hi else (dd >= lo or dd <= hi)
        ok = (a["t"] == 0 and a["p"] == case["product"] and a["s"] in case["sensors"]
              and hl.ce(*case["lo"]) <= c <= hl.ce(*case["hi"]) and in_doy
              and not (a["s"] == "LND07" and c > hl.ce(*case["l7"])))
        out.evals += 1
        out.nontrivial += int(a["t"] == 0 and a["p"] == case["product"] and a["s"] in case["sensors"])
        if ok:
            want[hl.date_str(a["d"]) + "_" + a["s"]] = 100 + k
        out.label("wanted" if ok else "unwanted")
    p = hl.tsa_params(base, SENSORS=" ".join(case["sensors"]), TARGET_SENSOR="LNDLG", PRODUCT_TYPE_MAIN=case["product"],
                      DATE_RANGE=fmt(case["lo"]) + " " + fmt(case["hi"]), DOY_RANGE="%d %d" % tuple(case["doys"]),
                      DATE_IGNORE_LANDSAT_7=fmt(case["l7"]), INDEX="RED", OUTPUT_TSS="TRUE",
                      CHUNK_SIZE="%d %d" % (nx * 10, ny * 10))
    r = hl.run_hl(ctx, "TSA", p)
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    outs = hl.outputs(base + "/higher")
    if not want:
        out.label("empty selection")
        if outs:
            out.fail("empty", "no acquisition qualifies but %s was written" % sorted(outs))
        return out
    if len(outs) != 1:
        out.fail("files", "%d acquisitions qualify, outputs: %s" % (len(want), sorted(outs)))
        return out
    tss = hl.one(outs, "_TSS.tif")
    got = {}
    for b, name in enumerate(tss.names):
        if name in got:
            out.fail("twice", "acquisition %s appears twice" % name)
        got[name] = tss.data[b]
    if set(got) != set(want):
        out.fail("set", "used %s; missing %s, unexpected %s" % (sorted(got), sorted(set(want) - set(got)),
                                                               sorted(set(got) - set(want))))
        return out
    dates = [n[:8] for n in tss.names]
    if dates != sorted(dates):
        out.fail("order", "not chronological: %s" % tss.names)
    for n, v in want.items():
        if (got[n] != v).any():
            out.fail("value", "acquisition %s holds %s, its file holds %s" % (n, got[n][0, 0], v))
    out.sample = dict(selected=sorted(want), files=k)
    return out
