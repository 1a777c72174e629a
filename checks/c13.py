"""Bands of several sensors combine by name."""
import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
from harness import Outcome

ID = "C13"
RULE = ("a case is a set of sensors (all families, mixed), a target sensor, a list of bands or indices, and images of those sensors in "
        "which every band has its own values; one evaluation = one accepted/refused decision or one value of the series; distinct "
        "non-trivial = values in runs with at least two sensors of different band layout, and refused runs")
TIERS = {"quick": dict(examples=1100, budget=25), "thorough": dict(examples=3000, budget=70)}
INDEX = {"NDVI": ["NIR", "RED"], "NBR": ["NIR", "SWIR2"], "NDWI": ["GREEN", "NIR"], "NDRE1": ["REDEDGE2", "REDEDGE1"], "CCI": ["GREEN", "RED"],
         "NDVIre1": ["BROADNIR", "REDEDGE1"], "EVI": ["NIR", "RED", "BLUE"], "NDMI": ["NIR", "SWIR1"]}
BANDS = ["BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2", "BROADNIR", "REDEDGE1", "REDEDGE2", "REDEDGE3", "SWIR0", "VV", "VH"]
FAM = [["LND04", "LND05", "LND07", "LND08", "LND09"], ["SEN2A", "SEN2B", "SEN2C", "SEN2D"], ["MOD01", "MOD02"],
       ["sen2a", "sen2b", "sen2c", "sen2d"], ["S1AIA", "S1AID", "S1BIA", "S1CID"]]


@st.composite
def strategy_(draw, tier):
    fams = draw(st.sampled_from([[0, 1], [1, 0], [0, 2], [1, 2, 0], [1, 3], [0, 3], [2, 1], [0], [1], [2], [3], [4], [0, 1, 3], [0, 4]]))
    sens = []
    for f in fams:
        sens += draw(st.lists(st.sampled_from(FAM[f]), min_size=1, max_size=2, unique=True))
    labels = [x.upper() for x in sens]
    sens = [x for i, x in enumerate(sens) if labels.index(x.upper()) == i]      # one image layout per file label
    sens = draw(st.permutations(sens))
    common = [b for b in hl.SENSORS[sens[0]] if all(b in hl.SENSORS[x] for x in sens)]
    fit = [t for t, b in hl.TARGETS.items() if set(b) == set(common)]
    target = draw(st.sampled_from(fit * 6 + sorted(hl.TARGETS)))
    good = [b for b in BANDS if b in common] + [i for i, b in INDEX.items() if set(b) <= set(common)]
    if good and draw(st.integers(0, 5)):
        index = draw(st.lists(st.sampled_from(good), min_size=1, max_size=4, unique=True))
    else:
        index = draw(st.lists(st.sampled_from(sorted(INDEX) + BANDS), min_size=1, max_size=3, unique=True))
    acq = draw(st.lists(st.tuples(st.integers(0, 300), st.integers(0, len(sens) - 1)), min_size=1, max_size=6, unique=True))
    return dict(sens=sens, target=target, index=index, acq=[list(a) for a in sorted(acq)], seed=draw(st.integers(0, 2**31 - 1)),
                decoy=draw(st.booleans()))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    base = ctx.dir
    hl.dirs(base)
    ny, nx = 4, 5
    rng = np.random.default_rng(case["seed"])
    cube = F.Cube(base + "/lower", tile=(nx * 10, ny * 10))
    cube.tile_dir(0, 0)
    sens = case["sens"]
    common = [b for b in hl.SENSORS[sens[0]] if all(b in hl.SENSORS[x] for x in sens)]
    need = set()
    for i in case["index"]:
        need |= set(INDEX.get(i, [i]))
    fits = set(common) == set(hl.TARGETS[case["target"]])
    accept = fits and need <= set(common)
    data = {}
    for day, k in case["acq"]:
        d = hl.from_ord(day, 2015)
        nb = hl.SENSORS[sens[k]]
        boa = rng.integers(1, 9000, (len(nb), ny, nx)).astype(np.int16)
        label = sens[k].upper()
        hl.write_acq(cube, (0, 0), d, label, boa, np.zeros((ny, nx), np.int16))
        data[hl.date_str(d) + "_" + label] = {b: boa[j].astype(float) for j, b in enumerate(nb)}
    if case["decoy"]:
        other = [s for s in ("LND08", "SEN2B", "MOD01") if s not in [x.upper() for x in sens]]
        if other:
            hl.write_acq(cube, (0, 0), (2015, 3, 3), other[0], np.full((len(hl.SENSORS[other[0]]), ny, nx), 5, np.int16),
                         np.zeros((ny, nx), np.int16))
    p = hl.tsa_params(base, SENSORS=" ".join(sens), TARGET_SENSOR=case["target"], INDEX=" ".join(case["index"]), OUTPUT_TSS="TRUE",
                      CHUNK_SIZE="%d %d" % (nx * 10, ny * 10))
    r = hl.run_hl(ctx, "TSA", p)
    out.evals = 1
    mixed = len({tuple(hl.SENSORS[x]) for x in sens}) > 1
    what = "sensors %s, target %s, index %s, common bands %s" % (sens, case["target"], case["index"], common)
    outs = hl.outputs(base + "/higher")
    if not accept:
        out.label("refused")
        out.nontrivial = 1
        if r.rc == 0 or outs:
            out.fail("accepted", "accepted although the bands do not fit (exit %s, %d files): %s" % (r.rc, len(outs), what))
        elif r.rc < 0:
            out.fail("crash", "exit %s: %s" % (r.rc, what))
        return out
    if r.rc != 0:
        out.fail("run", "exit %s, %s: %s" % (r.rc, what, r.tail()))
        return out
    out.label("mixed" if mixed else "same layout")
    names = sorted(data)
    if len(outs) != len(case["index"]):
        out.fail("files", "%d outputs for %d indices" % (len(outs), len(case["index"])))
        return out
    if any("_HL_TSA_%s_" % case["target"].upper() not in k for k in outs):
        out.fail("target", "outputs %s are not labelled with target %s" % (sorted(outs), case["target"]))
        return out
    for i in case["index"]:
        m = [k for k in outs if "_%s_TSS" % i in k]
        if len(m) != 1:
            out.fail("product", "no single output for %s: %s" % (i, sorted(outs)))
            return out
        g = outs[m[0]]
        if g.names != names:
            out.fail("names", "%s, expected %s" % (g.names, names))
            return out
        if i in INDEX and i != "EVI":
            a, b = INDEX[i]
            exp = np.stack([10000 * (data[n][a] - data[n][b]) / (data[n][a] + data[n][b]) for n in names])
            tol = 1
        elif i == "EVI":
            e = []
            for n in names:
                q = data[n]
                den = q["NIR"] + 6 * q["RED"] - 7.5 * q["BLUE"] + 10000
                e.append(25000 * (q["NIR"] - q["RED"]) / np.where(den == 0, 1, den))
            exp = np.stack(e)
            tol = 1
        else:
            exp, tol = np.stack([data[n][i] for n in names]), 0
        out.evals += hl.compare(out, "values", g.data, exp, tol=tol, judge=np.abs(exp) < 32000, what="%s (%s)" % (i, what))
        if mixed:
            out.nontrivial += exp.size
    out.sample = dict(sensors=sens, target=case["target"], index=case["index"], accepted=True)
    return out

