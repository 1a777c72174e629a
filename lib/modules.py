"""Generated scenarios for all higher-level modules: inputs on a few toy tiles plus a parameter set.

A scenario is JSON; build(ctx, sc) writes the inputs below ctx.dir and returns (kind, params). Everything about processing
units, threads, masks and output form is left to the caller."""
import json
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl

TPL = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "templates.json")))

# quick to run, all on the same footing
ARD_KINDS = ["TSA", "LEVEL3", "CSO", "UDF"]
FTR_KINDS = ["TXT", "LSM", "ML", "LIB", "SMP"]

UDF_CODE = '''
import numpy as np
def forcepy_init(dates, sensors, bandnames):
    return ["A-out", "B-out", "C-out"]
def forcepy_pixel(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    a = inarray[:, :, 0, 0].astype(np.int64)
    ok = (a != nodata).all(1)
    if not ok.any():
        return
    outarray[0] = ok.sum()
    outarray[1] = a[ok].max()
    outarray[2] = int((np.asarray(dates)[ok] % 97).sum() % 1000)
def forcepy_chunk(inblock, outblock, dates, sensors, bandnames, nodata, nproc):
    a = inblock.astype(np.int64)
    ok = (a != nodata).all(1)
    v = ok.any(0)
    outblock[0] = np.where(v, ok.sum(0), nodata)
    outblock[1] = np.where(v, np.where(ok[:, None], a, -99999).max((0, 1)), nodata)
    outblock[2] = np.where(v, (ok * (np.asarray(dates) % 97)[:, None, None]).sum(0) % 1000, nodata)
'''

STATS = ["AVG", "STD", "MIN", "MAX", "NUM", "RNG", "Q25", "Q50", "Q90", "IQR", "SKW", "KRT"]


def defaults(kind):
    return {k: v for k, v in TPL[kind]["par"].items()}


def params(ctx, kind, **kw):
    """template defaults with quiet, small settings"""
    p = defaults(kind)
    p.update(DIR_LOWER=ctx.dir + "/lower", DIR_HIGHER=ctx.dir + "/higher", DIR_PROVENANCE=ctx.dir + "/prov", OUTPUT_FORMAT="GTiff",
             NTHREAD_READ=1, NTHREAD_COMPUTE=1, NTHREAD_WRITE=1, STREAMING="FALSE", PRETTY_PROGRESS="FALSE")
    p.update(kw)
    return p


def write_prm(path, kind, p):
    with open(path, "w") as f:
        f.write("++PARAM_%s_START++\n" % kind)
        for k, v in p.items():
            if isinstance(v, (list, tuple)):
                for x in v:
                    f.write("%s = %s\n" % (k, x))
            else:
                f.write("%s = %s\n" % (k, v))
        f.write("++PARAM_%s_END++\n" % kind)


def run(ctx, kind, p, name="m.prm", timeout=120, env=None):
    prm = os.path.join(ctx.dir, name)
    for k in ("DIR_LOWER", "DIR_HIGHER", "DIR_PROVENANCE"):
        os.makedirs(p[k], exist_ok=True)
    write_prm(prm, kind, p)
    return F.run([ctx.exe("force-higher-level"), prm], cwd=ctx.dir, timeout=timeout, env=env)


@st.composite
def grid(draw, max_tiles=3, sizes=(12, 8, 16, 24, 6)):
    nx, ny = draw(st.sampled_from(sizes)), draw(st.sampled_from(sizes))
    x0, y0 = draw(st.integers(0, 30)), draw(st.integers(0, 30))
    tiles = draw(st.sampled_from([[[0, 0], [1, 0]], [[0, 0]], [[0, 0], [0, 1]], [[0, 0], [1, 0], [0, 1], [1, 1]], [[0, 0], [1, 1]],
                                  [[0, 0], [2, 0]], [[0, 0], [1, 0], [2, 0]]]))[:max(1, max_tiles + 1)]
    return dict(nx=nx, ny=ny, tiles=[[x0 + a, y0 + b] for a, b in tiles])


def grid_bounds(g):
    xs, ys = [t[0] for t in g["tiles"]], [t[1] for t in g["tiles"]]
    return min(xs), max(xs), min(ys), max(ys)


def grid_params(g, cx=None, cy=None):
    x0, x1, y0, y1 = grid_bounds(g)
    return dict(X_TILE_RANGE="%d %d" % (x0, x1), Y_TILE_RANGE="%d %d" % (y0, y1), RESOLUTION=10,
                CHUNK_SIZE="%d %d" % (10 * (cx or g["nx"]), 10 * (cy or g["ny"])))


def flag(draw, p=0.5):
    return "TRUE" if draw(st.floats(0, 1)) < p else "FALSE"


@st.composite
def ard(draw, n_min=1, n_max=10, years=2):
    n = draw(st.integers(n_min, n_max))
    days = sorted(draw(st.lists(st.integers(0, 365 * years - 1), min_size=n, max_size=n, unique=True)))
    return dict(acq=[[d, draw(st.sampled_from([8, 9, 5]))] for d in days], cloud=draw(st.sampled_from([0.3, 0.1, 0, 0.7])),
                drop=draw(st.sampled_from([0, 0, 0.2])), years=years)


@st.composite
def scenario(draw, kinds, max_tiles=3, sizes=(12, 8, 16, 24, 6)):
    kind = draw(st.sampled_from(kinds))
    sc = dict(kind=kind, seed=draw(st.integers(0, 2 ** 31)), grid=draw(grid(max_tiles, sizes)))
    o = {}
    if kind in ARD_KINDS:
        sc["ard"] = draw(ard())
    else:
        sc["ftr"] = dict(nb=[draw(st.integers(1, 3)), draw(st.integers(1, 2))], nodata=draw(st.sampled_from([0.15, 0, 0.5])),
                         drop=draw(st.sampled_from([0, 0, 0.2])), values=draw(st.sampled_from(["few", "smooth", "any"])))
        o["FEATURE_EXCLUDE"] = flag(draw)
    if kind == "TSA":
        o["INDEX"] = " ".join(draw(st.lists(st.sampled_from(["NDVI", "NIR", "EVI", "TC-WET", "NDWI", "SWIR1"]), min_size=1, max_size=2, unique=True)))
        o["INTERPOLATE"] = draw(st.sampled_from(["NONE", "LINEAR", "MOVING", "RBF", "HARMONIC"]))
        o["INT_DAY"] = draw(st.sampled_from([16, 30, 45]))
        o["HARMONIC_MODES"] = 1
        o["HARMONIC_TREND"] = "FALSE"
        o["OUTPUT_TSS"] = flag(draw)
        o["OUTPUT_TSI"] = flag(draw)
        o["OUTPUT_STM"] = flag(draw)
        o["STM"] = " ".join(draw(st.lists(st.sampled_from(STATS), min_size=1, max_size=6, unique=True)))
        for f in ("FBY", "FBQ", "FBM", "TRY", "TRM", "CAM"):
            o["OUTPUT_" + f] = flag(draw, 0.15)
        o["STANDARDIZE_TSS"] = draw(st.sampled_from(["NONE", "NONE", "CENTER", "NORMALIZE"]))
        o["ABOVE_NOISE"] = draw(st.sampled_from([0, 3]))
        o["BELOW_NOISE"] = 1 if o["ABOVE_NOISE"] else 0
        if all(o["OUTPUT_" + f] == "FALSE" for f in ("TSS", "TSI", "STM", "FBY", "FBQ", "FBM", "TRY", "TRM", "CAM")):
            o["OUTPUT_STM"] = "TRUE"
    elif kind == "LEVEL3":
        w = draw(st.lists(st.sampled_from(["C", "H", "V", "R"]), max_size=4, unique=True))
        o["SCORE_CLOUD_WEIGHT"] = 0.4 if "C" in w else 0
        o["SCORE_HAZE_WEIGHT"] = 0.3 if "H" in w else 0
        o["SCORE_VZEN_WEIGHT"] = 0.2 if "V" in w else 0
        o["SCORE_CORREL_WEIGHT"] = 0.2 if "R" in w else 0
        o["SELECT"] = flag(draw)
        o["COMBINE_SCORES"] = draw(st.sampled_from(["ADDITIVE", "MULTIPLICATIVE"]))
        o["OUTPUT_BAP"] = "TRUE"
        o["OUTPUT_INF"] = flag(draw, 0.7)
        o["OUTPUT_SCR"] = flag(draw)
        o["OUTPUT_OVV"] = "FALSE"
        o["USE_CLOUDY"] = flag(draw)
        o["USE_HAZY"] = flag(draw)
        o["OFF_SEASON"] = flag(draw)
        o["YEAR_TARGET"] = 2015
        o["YEAR_NUM"] = 2
    elif kind == "CSO":
        o["CSO"] = " ".join(draw(st.lists(st.sampled_from(STATS), min_size=1, max_size=6, unique=True)))
        o["MONTH_STEP"] = draw(st.sampled_from([1, 3, 6, 2]))
    elif kind == "UDF":
        o["OUTPUT_PYP"] = "TRUE"
        o["PYTHON_TYPE"] = draw(st.sampled_from(["CHUNK", "CHUNK", "PIXEL"]))
    elif kind == "TXT":
        o["TXT"] = " ".join(draw(st.lists(st.sampled_from(["ERO", "DIL", "OPN", "CLS", "GRD", "THT", "BHT"]), min_size=1, max_size=3, unique=True)))
        o["TXT_RADIUS"] = draw(st.sampled_from([10, 20, 30]))
        o["TXT_ITERATION"] = draw(st.sampled_from([1, 1, 2]))
    elif kind == "LSM":
        o["LSM"] = " ".join(draw(st.lists(st.sampled_from(["MPA", "FDI", "EDD", "NBR", "EMS", "AVG", "STD", "GEO", "MAX", "ARE"]), min_size=1, max_size=3,
                                          unique=True)))
        o["LSM_RADIUS"] = draw(st.sampled_from([10, 20, 30]))
        o["LSM_KERNEL_SHAPE"] = draw(st.sampled_from(["CIRCLE", "SQUARE"]))
        o["LSM_ALL_PIXELS"] = flag(draw)
        o["LSM_MIN_PATCHSIZE"] = draw(st.sampled_from([1, 2, 4]))
        n = sum(sc["ftr"]["nb"])
        o["LSM_THRESHOLD_TYPE"] = " ".join(draw(st.lists(st.sampled_from(["EQ", "GT", "LT", "GE", "LE"]), min_size=n, max_size=n)))
        o["LSM_THRESHOLD"] = " ".join(str(draw(st.sampled_from([1, 2, 3, 1000, 3000]))) for _ in range(n))
    elif kind == "ML":
        o["ML_METHOD"] = draw(st.sampled_from(["RFC", "RFR", "SVR", "SVC"]))
        o["OUTPUT_MLP"] = "TRUE"
        o["OUTPUT_MLI"] = flag(draw)
        o["OUTPUT_MLU"] = flag(draw) if o["ML_METHOD"] in ("RFR", "SVR") else "FALSE"
        o["OUTPUT_RFP"] = flag(draw) if o["ML_METHOD"] == "RFC" else "FALSE"
        o["OUTPUT_RFM"] = flag(draw) if o["ML_METHOD"] == "RFC" else "FALSE"
        o["ML_SCALE"] = draw(st.sampled_from([1, 10, 10000])) if o["ML_METHOD"] in ("RFR", "SVR") else 1
    elif kind == "LIB":
        o["LIB_RESCALE"] = flag(draw)
        sc["libs"] = draw(st.lists(st.integers(2, 5), min_size=1, max_size=2))
    elif kind == "SMP":
        sc["points"] = draw(st.sampled_from([25, 12, 40, 6, 1]))
        o["PROJECTED"] = "TRUE"
    sc["opt"] = o
    return sc


def cube_of(ctx, g, sub="lower"):
    return F.Cube(ctx.dir + "/" + sub, tile=(g["nx"] * 10, g["ny"] * 10))


def ard_arrays(sc, rng, tile_no, sub=None):
    """[(ymd, sensor, boa, qai, aux{name: array})]"""
    g, a = sc["grid"], sc["ard"]
    ny, nx = g["ny"], g["nx"]
    res = []
    for d, s in a["acq"]:
        base = rng.uniform(200, 6000, (6, 1, 1)) + rng.normal(0, 300, (6, ny, nx))
        boa = np.clip(np.rint(base), 0, 9999).astype(np.int16)
        q = np.zeros((ny, nx), np.int64)
        cl = rng.random((ny, nx)) < a["cloud"]
        q |= np.where(cl, rng.choice([F.qai_make(cloud=2), F.qai_make(shadow=1), F.qai_make(snow=1), F.qai_make(cloud=1)], (ny, nx)), 0)
        q |= np.where(rng.random((ny, nx)) < 0.1, F.qai_make(water=1), 0)
        off = rng.random((ny, nx)) < 0.05
        boa[:, off] = hl.ND
        q = np.where(off, 1, q).astype(np.int16)
        aux = dict(DST=rng.integers(0, 6000, (ny, nx)), HOT=rng.integers(-400, 600, (ny, nx)), VZN=rng.integers(0, 1500, (ny, nx)))
        keep = rng.random() >= a["drop"]
        res.append((hl.from_ord(d, 2015), "LND%02d" % s, boa, q, {k: np.where(off, hl.ND, v).astype(np.int16) for k, v in aux.items()}, keep))
    return res


def features(sc, rng):
    g, f = sc["grid"], sc["ftr"]
    ny, nx = g["ny"], g["nx"]
    out = []
    for nb in f["nb"]:
        if f["values"] == "few":
            v = rng.integers(0, 5, (nb, ny, nx))
        elif f["values"] == "smooth":
            yy, xx = np.mgrid[0:ny, 0:nx]
            v = np.stack([3000 + 2500 * np.sin((xx + rng.uniform(0, 9)) / 3.0) * np.cos((yy + rng.uniform(0, 9)) / 4.0) for _ in range(nb)])
        else:
            v = rng.integers(-3000, 9999, (nb, ny, nx))
        v = np.rint(v).astype(np.int16)
        v[rng.random(v.shape) < f["nodata"]] = hl.ND
        out.append(v)
    return out


FNAMES = ["feat_one.tif", "feat_two.tif"]


def model(ctx, method, nf, k):
    """trained model file (cached per worker)"""
    d = os.path.join(ctx.base, "models")
    f = os.path.join(d, "%s-%d-%d.xml" % (method, nf, k))
    if not os.path.exists(f):
        os.makedirs(d, exist_ok=True)
        rng = np.random.default_rng([nf, k, len(method)])
        x = rng.integers(0, 9000, (60, nf))
        w = np.linspace(1, 2, nf)
        t = (x * w).sum(1) / w.sum()
        y = np.digitize(t, [3500, 4500, 5500]) + 1 if method in ("RFC", "SVC") else t / 10000.0
        np.savetxt(d + "/x.txt", x, "%d")
        np.savetxt(d + "/y.txt", y, "%d" if method in ("RFC", "SVC") else "%.6f")
        p = defaults("TRAIN")
        p.update(FILE_FEATURES=d + "/x.txt", FILE_RESPONSE=d + "/y.txt", FILE_MODEL=f + ".tmp.xml", FILE_LOG=d + "/log.txt", ML_METHOD=method,
                 PERCENT_TRAIN=100, RANDOM_SPLIT="FALSE", RF_NTREE=12, RF_DT_MAXDEPTH=6, SVM_KFOLD=2, SVM_C_GRID="1 10 10",
                 SVM_GAMMA_GRID="1 10 10", SVM_MAXITER=1000, FEATURE_WEIGHTS="EQUALIZED")
        write_prm(d + "/t.prm", "TRAIN", p)
        r = F.run([ctx.exe("force-train"), d + "/t.prm"], cwd=d, timeout=100)
        if r.rc != 0 or not os.path.exists(f + ".tmp.xml"):
            raise AssertionError("force-train: exit %s %s" % (r.rc, r.tail()))
        os.replace(f + ".tmp.xml", f)
    return f


def build(ctx, sc):
    """writes the inputs; returns (kind, params)"""
    kind, g = sc["kind"], sc["grid"]
    p = params(ctx, kind)
    p.update(grid_params(g))
    p.update(sc["opt"])
    cube = cube_of(ctx, g)
    if kind in ARD_KINDS:
        p.update(SENSORS="LND05 LND08 LND09", TARGET_SENSOR="LNDLG", DATE_RANGE="2015-01-01 2016-12-31", SCREEN_QAI="NODATA CLOUD_OPAQUE CLOUD_SHADOW SNOW")
        for i, t in enumerate(g["tiles"]):
            rng = np.random.default_rng([sc["seed"], i])
            for ymd, sen, boa, q, aux, keep in ard_arrays(sc, rng, i):
                if not keep:
                    continue
                hl.write_acq(cube, t, ymd, sen, boa, q)
                if kind == "LEVEL3":
                    for k, v in aux.items():
                        hl.write_acq(cube, t, ymd, sen, v[None], None, product=k)
        if kind == "LEVEL3":
            need = [n for n, w in (("DST", "CLOUD"), ("HOT", "HAZE"), ("VZN", "VZEN")) if float(p["SCORE_%s_WEIGHT" % w]) > 0]
            p["REQUIRE_AUX_PRODUCTS"] = " ".join(need) if need else "NULL"
        if kind == "UDF":
            with open(ctx.dir + "/udf.py", "w") as f:
                f.write(UDF_CODE)
            p["FILE_PYTHON"] = ctx.dir + "/udf.py"
        if kind == "TSA":
            p.update(HARMONIC_FIT_RANGE="2015-01-01 2016-12-31")
    else:
        nb = sc["ftr"]["nb"]
        rngs = np.random.default_rng([sc["seed"], 99])
        drop = rngs.random(len(g["tiles"])) < sc["ftr"]["drop"]
        for i, t in enumerate(g["tiles"]):
            fs = features(sc, np.random.default_rng([sc["seed"], i]))
            for j, v in enumerate(fs):
                if j == 1 and drop[i]:
                    continue
                cube.write(t[0], t[1], FNAMES[j], v)
        p["INPUT_FEATURE"] = ["%s %s" % (n, " ".join(str(b + 1) for b in range(k))) for n, k in zip(FNAMES, nb)]
        nf = sum(nb)
        if kind == "ML":
            m = [model(ctx, p["ML_METHOD"], nf, k) for k in (0, 1)]
            p["DIR_MODEL"] = os.path.dirname(m[0])
            p["FILE_MODEL"] = [" ".join(os.path.basename(x) for x in m), os.path.basename(m[1])]
        elif kind == "LIB":
            names = []
            rl = np.random.default_rng([sc["seed"], 77])
            for k, n in enumerate(sc["libs"]):
                np.savetxt(ctx.dir + "/lib%d.txt" % k, rl.integers(-500, 6000, (n, nf)), "%d")
                names.append("lib%d.txt" % k)
            p["DIR_LIBRARY"], p["FILE_LIBRARY"] = ctx.dir, " ".join(names)
        elif kind == "SMP":
            rp = np.random.default_rng([sc["seed"], 55])
            x0, x1, y0, y1 = grid_bounds(g)
            n = sc["points"]
            px = cube.origin[0] + (x0 + rp.uniform(0, 1, n) * (x1 - x0 + 1)) * cube.tile[0]
            py = cube.origin[1] - (y0 + rp.uniform(0, 1, n) * (y1 - y0 + 1)) * cube.tile[1]
            with open(ctx.dir + "/points.txt", "w") as f:
                for i in range(n):
                    f.write("%.4f %.4f %d\n" % (px[i], py[i], i + 1))
            p["FILE_POINTS"] = ctx.dir + "/points.txt"
    return kind, p


def smp_files(ctx, p, tag):
    for k, n in (("FILE_SAMPLE", "s"), ("FILE_RESPONSE", "r"), ("FILE_COORDINATES", "c")):
        p[k] = ctx.dir + "/%s_%s.txt" % (tag, n)


def smp_rows(p):
    """multiset of (features, response, coordinates)"""
    cols = []
    for k in ("FILE_SAMPLE", "FILE_RESPONSE", "FILE_COORDINATES"):
        cols.append(open(p[k]).read().splitlines() if os.path.exists(p[k]) else [])
    return sorted(zip(*cols)), [len(c) for c in cols]


def same_outputs(out, key, a, b, what):
    """both runs wrote the same images; returns number of compared cells"""
    n = 0
    if sorted(a) != sorted(b):
        out.fail(key + "-files", "%s: files %s, expected %s" % (what, sorted(set(b) - set(a))[:4], sorted(set(a) - set(b))[:4]))
        return 0
    for k in sorted(a):
        x, y = a[k], b[k]
        for attr in ("nx", "ny", "nb", "names", "nodata", "dtype"):
            if getattr(x, attr) != getattr(y, attr):
                out.fail(key + "-" + attr, "%s: %s of %s is %s, expected %s" % (what, attr, k, getattr(y, attr), getattr(x, attr)))
        if not np.allclose(x.gt, y.gt, rtol=0, atol=1e-6):
            out.fail(key + "-gt", "%s: geotransform of %s is %s, expected %s" % (what, k, y.gt, x.gt))
        n += hl.compare(out, key, y.data, x.data, what="%s: %s" % (what, k))
    return n
