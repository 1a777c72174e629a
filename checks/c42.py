"""Valid runs of every module on an address-sanitised build."""
import os

import numpy as np
from hypothesis import strategies as st

import c40
import fcube as F
import hl
import modules as M
from harness import Outcome

ID = "C42"
SANITIZED = True
RULE = ("a case is a generated scenario of one module with its inputs and 1-4 runs of it, each with its own block size, threads, mask, output form and 0-3 other valid parameter values; "
        "one evaluation = one run on the sanitised build; distinct non-trivial = runs that wrote at least one product")
TIERS = {"quick": dict(examples=2000, budget=32), "thorough": dict(examples=6000, budget=80)}
KINDS = ["TSA", "LEVEL3", "CSO", "TXT", "LSM", "ML", "LIB", "SMP", "UDF", "TRAIN", "TSA"]
TSA_OUT = "TSS TSI STM FBY FBQ FBM FBW FBD TRY TRQ TRM TRW TRD CAY CAQ CAM CAW CAD PCT POL TRO CAO NRT".split()


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(KINDS))
    if kind == "TRAIN":
        sc = dict(kind=kind, seed=draw(st.integers(0, 999)), method=draw(st.sampled_from(["RFC", "RFR", "SVR", "SVC"])))
    else:
        sc = draw(M.scenario([kind], sizes=(6, 8, 3, 1, 2)))
        sc["grid"]["tiles"] = sc["grid"]["tiles"][:2]
        if kind == "TSA":
            sc["ard"] = draw(M.ard(1, 10, draw(st.sampled_from([2, 1, 3]))))
    return dict(sc=sc, runs=draw(st.lists(st.integers(0, 2 ** 31 - 1), min_size=1, max_size=4)))


def strategy(tier):
    return strategy_(tier)


def vary(ctx, kind, p, sc, rng):
    q, ch = c40.accept(rng, p) if rng.random() < 0.7 else (dict(p), [])
    if kind == "TRAIN":
        return q
    g = sc["grid"]
    cx, cy = [[v for v in range(1, n + 1) if n % v == 0 and n // v <= 2] for n in (g["nx"], g["ny"])]
    q["CHUNK_SIZE"] = "%d %d" % (10 * cx[rng.integers(len(cx))], 10 * cy[rng.integers(len(cy))])
    q["NTHREAD_COMPUTE"] = int(rng.integers(1, 4))
    q["NTHREAD_READ"], q["NTHREAD_WRITE"] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    q["STREAMING"] = ["TRUE", "FALSE"][rng.integers(2)]
    q["OUTPUT_EXPLODE"] = "TRUE" if rng.random() < 0.08 else "FALSE"
    q["OUTPUT_FORMAT"] = ["GTiff", "ENVI", "COG"][max(0, rng.integers(12) - 9)]
    if q["OUTPUT_FORMAT"] == "COG":
        q["CHUNK_SIZE"] = p["CHUNK_SIZE"]
    if kind == "UDF":
        q["STREAMING"] = "FALSE"  # forking workers of a threaded process can lock up the sanitizer's allocator
    if kind in ("TXT", "LSM"):
        q[kind + "_RADIUS"] = 10 * int(rng.integers(1, 4))
    if kind == "TSA":
        ind = ["NDVI", "EVI", "NBR", "NDTI", "ARVI", "SAVI", "SARVI", "TC-BRIGHT", "TC-GREEN", "TC-WET", "TC-DI", "NDBI", "NDWI", "MNDWI", "NDSI", "kNDVI", "NDMI", "GREEN", "RED", "SWIR2"]
        q["INDEX"] = " ".join(ind[i] for i in rng.permutation(len(ind))[:rng.integers(1, 4)])
        for o in TSA_OUT:
            q["OUTPUT_" + o] = "TRUE" if rng.random() < 0.09 else "FALSE"
        if all(q["OUTPUT_" + o] == "FALSE" for o in TSA_OUT):
            q["OUTPUT_TSI"] = q["OUTPUT_STM"] = "TRUE"
        q["INTERPOLATE"] = ["LINEAR", "RBF", "MOVING", "HARMONIC", "NONE"][rng.integers(5)]
        q["INT_DAY"] = [10, 16, 50, 400][rng.integers(4)]
        if rng.random() < 0.2:
            q["DATE_RANGE"] = ["2015-03-05 2016-02-11", "2015-12-31 2016-01-01", "2014-01-01 2017-12-31", "2016-02-29 2016-02-29"][rng.integers(4)]
        y0, y1 = [int(d[:4]) for d in q["DATE_RANGE"].split()]
        if q["INTERPOLATE"] == "NONE" or y1 - y0 < 1:
            for o in ("POL", "TRO", "CAO", "PCT"):
                q["OUTPUT_" + o] = "FALSE"
            if all(q["OUTPUT_" + o] == "FALSE" for o in TSA_OUT):
                q["OUTPUT_STM"] = "TRUE"
        if q["INTERPOLATE"] != "HARMONIC":
            q["OUTPUT_NRT"] = "FALSE"
        q["HARMONIC_FIT_RANGE"] = q["DATE_RANGE"]
    if rng.random() < 0.4 and kind != "SMP":
        cube = M.cube_of(ctx, g, "mask")
        for t in g["tiles"]:
            m = (rng.random((1, g["ny"], g["nx"])) < [0.5, 0.1, 1][rng.integers(3)]).astype(np.uint8)
            cube.write(t[0], t[1], "mask.tif", m, nodata=255)
        q.update(DIR_MASK=ctx.dir + "/mask", BASE_MASK="mask.tif")
    return q


def run_case(case, ctx):
    out = Outcome()
    sc = case["sc"]
    kind, p = c40.build(ctx, sc)
    for k in ("DIR_LOWER", "DIR_HIGHER", "DIR_PROVENANCE"):
        if k in p:
            os.makedirs(p[k], exist_ok=True)
    out.evals = 0
    desc = {}
    for i, seed in enumerate(case["runs"]):
        q = vary(ctx, kind, p, sc, np.random.default_rng([seed, sc["seed"], i]))
        c40.clean(ctx, kind, p)
        r = c40.execute(ctx, kind, p=q, timeout=60, san=True)
        out.evals += 1
        out.label(kind)
        desc = {k: v for k, v in q.items() if p.get(k) != v}
        if r.timeout:
            out.label("timeout")
            if os.environ.get("C42_DEBUG"):
                print("TIMEOUT", kind, desc, r.tail(300), flush=True)
            continue
        if c40.crashed(r):
            a = r.out.find("ERROR: AddressSanitizer")
            out.fail("memory", "%s with %s: exit %s %s" % (kind, desc, r.rc, r.out[a:a + 900] if a >= 0 else r.tail()))
            continue
        if r.rc != 0:
            out.label("refused " + kind)
            if os.environ.get("C42_DEBUG"):
                print(kind, desc, r.tail(300))
        elif any(f for _, _, f in os.walk(p["DIR_HIGHER"])) if kind != "TRAIN" else os.path.exists(p["FILE_MODEL"]):
            out.nontrivial += 1
    out.evals = max(out.evals, 1)
    out.sample = dict(kind=kind, last=desc)
    return out


def minimise(case, where):
    for i in range(1, len(case["runs"])):
        yield dict(case, runs=case["runs"][:i])
