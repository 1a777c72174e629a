"""Spectral indices against their published formulas."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
from harness import Outcome

ID = "C20"
RULE = ("a case is a list of index and band names, a sensor and generated reflectances (typical, negative, zero, saturated, equal bands, "
        "screened pixels); one evaluation = one index value of one observation; distinct non-trivial = values of used observations "
        "that are not nodata")
TIERS = {"quick": dict(examples=900, budget=25), "thorough": dict(examples=2400, budget=70)}
ASSUMPTIONS = ["index values that do not fit 16 bits are only judged where the definition makes them nodata",
               "square roots of negative numbers (MSRre with a negative ratio) are not judged"]
ND2 = {"NDVI": ("NIR", "RED"), "NBR": ("NIR", "SWIR2"), "NDTI": ("SWIR1", "SWIR2"), "NDBI": ("SWIR1", "NIR"),
       "NDWI": ("GREEN", "NIR"), "MNDWI": ("GREEN", "SWIR1"), "NDMI": ("NIR", "SWIR1"), "NDSI": ("GREEN", "SWIR1"),
       "CCI": ("GREEN", "RED"), "NDRE1": ("REDEDGE2", "REDEDGE1"), "NDRE2": ("REDEDGE3", "REDEDGE1"),
       "NDVIre1": ("BROADNIR", "REDEDGE1"), "NDVIre2": ("BROADNIR", "REDEDGE2"), "NDVIre3": ("BROADNIR", "REDEDGE3"),
       "NDVIre1n": ("NIR", "REDEDGE1"), "NDVIre2n": ("NIR", "REDEDGE2"), "NDVIre3n": ("NIR", "REDEDGE3")}
TC = {"TC-BRIGHT": [0.2043, 0.4158, 0.5524, 0.5741, 0.3124, 0.2303], "TC-GREEN": [-0.1603, -0.2819, -0.4934, 0.7940, -0.0002, -0.1446],
      "TC-WET": [0.0315, 0.2021, 0.3102, 0.1594, -0.6806, -0.6109]}
LND = ["NDVI", "EVI", "NBR", "NDTI", "ARVI", "SAVI", "SARVI", "TC-BRIGHT", "TC-GREEN", "TC-WET", "TC-DI", "NDBI", "NDWI", "MNDWI",
       "NDMI", "NDSI", "kNDVI", "CCI", "EVI2", "ContRemSWIR"]
S2 = LND + ["NDRE1", "NDRE2", "CIre", "NDVIre1", "NDVIre2", "NDVIre3", "NDVIre1n", "NDVIre2n", "NDVIre3n", "MSRre", "MSRren"]
SIX = ["BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2"]


@st.composite
def strategy_(draw, tier):
    fam = draw(st.sampled_from(["SEN2", "LND"]))
    bands = ["BLUE", "RED", "SWIR2", "NIR"] + (["REDEDGE2"] if fam == "SEN2" else [])
    pool = (S2 if fam == "SEN2" else LND) + bands
    return dict(fam=fam, index=draw(st.lists(st.sampled_from(pool), min_size=1, max_size=6, unique=True)),
                mode=draw(st.sampled_from(["typical", "wide", "small", "extreme"])), seed=draw(st.integers(0, 2**31 - 1)),
                n=draw(st.integers(1, 2)))


def strategy(tier):
    return strategy_(tier)


def ref(name, b):
    """(real value, nodata mask, judged mask)"""
    z = np.zeros(b["RED"].shape, bool)
    if name in b:
        return b[name], z, ~z
    if name in ND2:
        p, q = (b[k] for k in ND2[name])
        s = p + q
        v = (p - q) / np.where(s == 0, 1, s)
        nd = (s == 0) | (v < -1) | (v > 1)
        return v * 10000, nd, ~z
    if name in ("EVI", "SAVI", "SARVI", "ARVI", "EVI2"):
        f1, f2, f3, f4, rbc = {"EVI": (2.5, 6.0, 7.5, 1.0, 0), "SAVI": (1.5, 1, 0, 0.5, 0), "SARVI": (1.5, 1, 0, 0.5, 1),
                               "ARVI": (1, 1, 0, 0, 1), "EVI2": (2.4, 1, 0, 1, 0)}[name]
        nir, blue = b["NIR"], b["BLUE"]
        red = b["RED"] - (blue - b["RED"]) * rbc
        d = nir + f2 * red - f3 * blue + f4 * 10000
        v = f1 * (nir - red) / np.where(d == 0, 1, d) * 10000
        return v, d == 0, (d == 0) | (np.abs(v) < 32760)
    if name == "kNDVI":
        p, q = b["NIR"], b["RED"]
        nd = (p <= 0) | (q <= 0)
        s = np.where(nd, 1, 0.5 * (p + q))
        k = np.exp(-(p - q) ** 2 / (2 * s * s))
        return (1 - k) / (1 + k) * 10000, nd, ~z
    if name == "CIre":
        p, q = b["REDEDGE3"], b["REDEDGE1"]
        v = (p / np.where(q == 0, 1, q) - 1) * 1000
        nd = (q == 0) | (np.abs(v) > 32800)
        return v, nd, nd | (np.abs(v) < 32750)
    if name in ("MSRre", "MSRren"):
        p, q = b["BROADNIR" if name == "MSRre" else "NIR"], b["REDEDGE1"]
        r = p / np.where(q == 0, 1, q)
        nd = (q == 0) | (r == -1)
        with np.errstate(invalid="ignore", divide="ignore"):
            v = (r - 1) / np.sqrt(r + 1) * 10000
        big = np.abs(v) > 32800
        nd = nd | big
        return np.nan_to_num(v), nd, nd & ~(r < -1) | (q == 0) | ((r > -1) & (np.abs(v) < 32750))
    if name == "ContRemSWIR":
        w, w1, w2 = 1.610, 0.864, 2.186
        v = b["SWIR1"] - (b["NIR"] * (w2 - w) + b["SWIR2"] * (w - w1)) / (w2 - w1)
        return v, z, np.abs(v) < 32760
    if name in TC:
        v = sum(c * b[k] for c, k in zip(TC[name], SIX))
        return v, z, np.abs(v) < 32760
    if name == "TC-DI":
        t = [sum(c * b[k] for c, k in zip(TC[n], SIX)) for n in ("TC-BRIGHT", "TC-GREEN", "TC-WET")]
        v = t[0] - t[1] - t[2]
        return v, z, np.abs(v) < 32760
    raise KeyError(name)


def run_case(case, ctx):
    out = Outcome()
    nx = ny = 12
    sensor, target = ("SEN2A", "SEN2L") if case["fam"] == "SEN2" else ("LND08", "LNDLG")
    hl.dirs(ctx.dir)
    cube = F.Cube(ctx.dir + "/lower", tile=(nx * 10, ny * 10))
    rng = np.random.default_rng(case["seed"])
    names = hl.sensor_bands(ctx, sensor)
    keep = hl.keep_mask(case, ny, nx)
    data, ok = [], []
    for t in range(case["n"]):
        sh = (len(names), ny, nx)
        a = {"typical": lambda: rng.integers(1, 6000, sh), "wide": lambda: rng.integers(-3000, 16000, sh),
             "small": lambda: rng.integers(-3, 4, sh),
             "extreme": lambda: rng.choice([-9998, -1000, -1, 0, 1, 5000, 10000, 16000, 32767], sh)}[case["mode"]]().astype(np.int16)
        same = rng.random((ny, nx)) < 0.1
        a[:, same] = a[0, same]
        a[:, ~keep] = 1000
        o = rng.random((ny, nx)) < 0.9
        hl.write_acq(cube, (0, 0), (2015, 3 + t, 7), sensor, a, np.where(o, 0, 1).astype(np.int16))
        data.append({k: a[i].astype(float) for i, k in enumerate(names)})
        ok.append(o)
    r = hl.run_hl(ctx, "TSA", hl.tsa_params(ctx.dir, SENSORS=sensor, TARGET_SENSOR=target, INDEX=" ".join(case["index"]), OUTPUT_TSS="TRUE",
                                            CHUNK_SIZE="%d %d" % (nx * 10, ny * 10)))
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "INDEX %s: exit %s: %s" % (case["index"], r.rc, r.tail()))
        return out
    o = hl.outputs(ctx.dir + "/higher")
    n = nt = 0
    tags = {"TC-BRIGHT": "TCB"}
    if len(o) != len(case["index"]):
        out.fail("files", "%d outputs for %s: %s" % (len(o), case["index"], sorted(o)))
        return out
    for name in case["index"]:
        m = [k for k in o if "_" + name + "_" in k.split("/")[-1]]
        if len(m) != 1:
            out.fail("files", "no single output for %s: %s" % (name, sorted(o)))
            continue
        g = o[m[0]].data
        for t in range(case["n"]):
            v, nd, j = ref(name, data[t])
            nd = nd | ~ok[t]
            j = j | ~ok[t]
            e = np.where(nd, hl.ND, np.trunc(v))
            got = g[t]
            bad = np.where(nd, got != hl.ND, np.abs(got - e) > (0 if name in data[t] else 1)) & j
            n += int(j.sum())
            nt += int((j & ~nd).sum())
            if bad.any():
                y, x = np.argwhere(bad)[0]
                out.fail("index-" + name, "%s is %d, expected %d for %s (%d of %d values differ)" % (
                    name, got[y, x], e[y, x], {k: int(q[y, x]) for k, q in data[t].items()}, bad.sum(), bad.size),
                    [int(i) for i in np.flatnonzero(bad)[:50]])
        out.label(name)
    out.evals, out.nontrivial = n, nt
    out.sample = dict(index=case["index"], sensor=sensor, mode=case["mode"])
    return out


minimise = hl.minimise_pixels
