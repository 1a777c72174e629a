"""Scenes of the same day and sensor falling on the same tiles are merged."""
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
import fl1
from harness import Outcome

ID = "C63"
RULE = ("a case is a history of 2-5 runs with 2-4 overlapping or adjacent synthetic Landsat scenes (same or another day or sensor, repeated runs of the same scene) written to one cube, compared with the merge of what each scene alone writes "
        "to its own cube; one evaluation = one product pixel; distinct non-trivial = pixels written by more than one run")
TIERS = {"quick": dict(examples=1200, budget=38), "thorough": dict(examples=5000, budget=85)}
ASSUMPTIONS = ["averages are judged with a tolerance of 1 per merge", "scenes are written one after another, not concurrently"]
COVER = [[], [("cloud", 2, 6)], [("water", 1, 9), ("cloud", 1, 4)], [("snow", 2, 6), ("cirrus", 1, 8)], [("cloud", 1, 14)]]


@st.composite
def strategy_(draw, tier):
    n = draw(st.integers(2, 3 if tier == "quick" else 4))
    scenes = [dict(nx=draw(st.integers(12, 45)), ny=draw(st.integers(12, 45)), dx=draw(st.integers(-30, 30)), dy=draw(st.integers(-30, 30)), cover=draw(st.integers(0, 4)),
                   void=draw(st.integers(0, 2)), sat=draw(st.integers(0, 3)), other=draw(st.sampled_from(["", "", "", "", "day", "sensor"]))) for _ in range(n)]
    extra = draw(st.lists(st.integers(0, n-1), max_size=2))
    order = draw(st.permutations(list(range(n)) + extra))
    return dict(sensor=draw(st.sampled_from([8, 5, 7, 9, 4])), scenes=scenes, order=list(order), seed=draw(st.integers(0, 2**31)), tile=draw(st.integers(22, 70)), side=draw(st.sampled_from([True, False, False])), reproject=draw(st.sampled_from([False, False, False, True])),
                resampling=draw(st.sampled_from(["NN", "CC"])), fmt=draw(st.sampled_from(["GTiff", "GTiff", "GTiff", "GTiff", "ENVI"])), olon=draw(st.integers(-200, 200)), buffer=draw(st.sampled_from([0, 60])))


def strategy(tier):
    return strategy_(tier)


def tiles(l2):
    """{(tile, file stem): raster}"""
    out = {}
    for d in sorted(os.listdir(l2)):
        p = os.path.join(l2, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith((".tif", ".dat")):
                    out[d, f.rsplit(".", 1)[0]] = F.Raster(os.path.join(p, f))
    return out


def merge_qai(a, b):
    """quality of a pixel seen twice"""
    o = np.zeros(a.shape, np.int64)
    for name, pos, width in F.QAI_FIELDS:
        x, y = F.qai_get(a, name).astype(np.int64), F.qai_get(b, name).astype(np.int64)
        if name == "off":
            v = x & y
        elif name == "illum":
            v = np.minimum(x, y)
        else:
            v = np.maximum(x, y)
        o |= v << pos
    return o


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng([case["seed"], 63])
    zone = 33
    exe = ctx.exe("force-l2ps")
    cx, cy = 30.0*int(rng.integers(14000, 20000)), 30.0*int(rng.integers(170000, 195000))
    lon, lat = fl1.lonlat(cx, cy, fl1.utm_wkt(zone))
    size = case["tile"]*30
    common = dict(DO_TILE="TRUE", TILE_SIZE="%d %d" % (size, size), ORIGIN_LON="%.6f" % (lon - 0.3 + case["olon"]/1000), ORIGIN_LAT="%.6f" % (lat + 0.3), OUTPUT_FORMAT=case["fmt"] if not case["reproject"] else "GTiff",
                  CLOUD_BUFFER=case["buffer"], SHADOW_BUFFER=0, SNOW_BUFFER=0, NTHREAD=1, **{"OUTPUT_" + p: str(case["side"]).upper() for p in ("DST", "HOT", "VZN")})
    if case["reproject"]:
        common.update(DO_REPROJ="TRUE", RESAMPLING=case["resampling"])
    dirs, single, names = [], [], []
    for i, s in enumerate(case["scenes"]):
        date = (2018, 6, 5) if s["other"] != "day" else (2018, 6, 6)
        sensor = case["sensor"] if s["other"] != "sensor" else {8: 9, 9: 8, 5: 7, 7: 5, 4: 5}[case["sensor"]]
        sc = fl1.Scene(sensor, s["nx"], s["ny"], cx + 30*s["dx"], cy + 30*s["dy"], zone, date=date, time=(9, 50 + i, 11.0), row=20 + i)
        fl1.natural(sc, rng, COVER[s["cover"]], base="veg" if i % 2 else "soil")
        keys = [k for k, d in sc.bands if d != "CIRRUS"]
        for n in range(s["void"]):
            m = fl1.blob(rng, sc.ny, sc.nx, 1 + 6*n)
            if m.mean() < 0.7:
                for k in keys:
                    sc.dn[k] = np.where(m, 0, sc.dn[k]).astype(sc.dn[k].dtype)
        for n in range(s["sat"]):
            k = keys[0]
            a, b = int(rng.integers(0, sc.ny)), int(rng.integers(0, sc.nx))
            if sc.dn[k][a, b]:
                sc.dn[k][a, b] = sc.sat
        dirs.append(sc.write(ctx.dir))
        names.append(sc.name())
        root = "%s/s%d" % (ctx.dir, i)
        os.makedirs(root)
        r = fl1.run(exe, root, dirs[-1], fl1.params(root, **common))
        if r.rc != 0:
            out.fail("exit", "scene %d alone: exit %s %s" % (i, r.rc, r.tail()))
            return out
        single.append(tiles(root + "/l2"))
        if not single[-1]:
            return out
    root = ctx.dir + "/all"
    os.makedirs(root)
    model, times, log = {}, {}, []
    par = fl1.params(root, **common)
    for i in case["order"]:
        r = fl1.run(exe, root, dirs[i], par)
        if r.rc != 0:
            out.fail("exit", "merging scene %d: exit %s %s" % (i, r.rc, r.tail()))
            return out
        for key, ra in single[i].items():
            now = ra.data.astype(np.int64)
            nod = 1 if key[1].endswith("QAI") else -9999
            if key not in model:
                model[key] = now
                times[key] = (now != nod).astype(int)
                log.append((key, names[i], "create"))
                continue
            old = model[key]
            both = (now != nod) & (old != nod)
            if key[1].endswith("QAI"):
                v = merge_qai(now, old)
            else:
                v = (now + old)/2
            model[key] = np.where(both, v, np.where(now != nod, now, old))
            times[key] += now != nod
            log.append((key, names[i], "update"))
    got = tiles(root + "/l2")
    out.label("merged" if any((t > 1).any() for t in times.values()) else "side by side")
    if case["reproject"]:
        out.label("reprojected")
    if sorted(got) != sorted(model):
        out.fail("files", "missing %s, unexpected %s" % (sorted(set(model) - set(got))[:4], sorted(set(got) - set(model))[:4]))
        return out
    for key, m in model.items():
        a = got[key].data.astype(np.int64)
        out.evals += a.size
        out.nontrivial += int((times[key] > 1).sum())
        nod = 1 if key[1].endswith("QAI") else -9999
        if key[1].endswith("QAI"):
            bad = a != m
        else:
            bad = ((a == nod) != (m == nod)) | (np.abs(a - m) > np.maximum(times[key] - 1, 0)*1.01)
        if got[key].gt != single_gt(single, key):
            out.fail("grid", "%s: grid %s" % (key, got[key].gt))
        if bad.any():
            b, i, j = np.argwhere(bad)[0]
            seen = [int(s[key].data[b, i, j]) for s in (single[k] for k in case["order"]) if key in s]
            out.fail("merge", "%s band %d row %d column %d: %d instead of %s (scenes in order of writing: %s); %d pixels wrong" % (key, b+1, i, j, a[b, i, j], m[b, i, j], seen, bad.sum()))
            return out
    # provenance
    lines = []
    for f in sorted(os.listdir(root + "/prov")):
        if f.endswith(".csv"):
            t = open(os.path.join(root, "prov", f)).read().split("\n")
            if t[0] != "file,origin,mode,creation":
                out.fail("provenance", "header %r" % t[0])
            lines += [x for x in t[1:] if x]
    have = []
    for x in lines:
        f = x.split(",")
        p = f[0].split("/")
        have.append(((p[-2], p[-1].rsplit(".", 1)[0]), [os.path.basename(o) for o in f[1].split(";")], f[2].lower()))
    out.evals += len(log)
    want = sorted((k, [o], m) for k, o, m in log)
    if sorted(have) != want:
        miss = [w for w in want if w not in have]
        out.fail("provenance", "%d entries instead of %d; missing %s; unexpected %s" % (len(have), len(want), miss[:2], [h for h in have if h not in want][:2]))
    left = [f for r_, _, fs in os.walk(root) for f in fs if f.endswith(".lock")]
    if left:
        out.fail("lock", "lock files left behind: %s" % left[:3])
    return out


def single_gt(single, key):
    return next(s[key].gt for s in single if key in s)
