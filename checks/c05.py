"""Output format options never change the data."""
import os
import re

import numpy as np
from hypothesis import strategies as st

import hl
import modules as M
from harness import Outcome

ID = "C05"
RULE = ("a case is a generated scenario (one of eight higher-level modules) written as plain GeoTIFF and again with another output format (ENVI, COG, custom options), "
        "single-band files and/or product subfolders; one evaluation = one compared value; distinct non-trivial = compared values that are not nodata")
TIERS = {"quick": dict(examples=1200, budget=27), "thorough": dict(examples=4000, budget=75)}
KINDS = ["TSA", "LEVEL3", "CSO", "ML", "LIB", "UDF", "TXT", "LSM"]
CUSTOM = [
    dict(DRIVER="GTiff", EXTENSION="tif", COMPRESS="DEFLATE", PREDICTOR="2", TILED="YES", BLOCKXSIZE="16", BLOCKYSIZE="32"),
    dict(DRIVER="GTiff", EXTENSION="tif"),
    dict(EXTENSION="tif", INTERLEAVE="PIXEL", DRIVER="GTiff", COMPRESS="LZW"),
    dict(DRIVER="ENVI", EXTENSION="bsq", INTERLEAVE="BSQ"),
    dict(DRIVER="ENVI", EXTENSION="dat", INTERLEAVE="BIL"),
    dict(DRIVER="GTiff", EXTENSION="tif", COMPRESS="PACKBITS", BIGTIFF="YES"),
]


@st.composite
def strategy_(draw, tier):
    sc = draw(M.scenario(KINDS, sizes=(12, 8, 16)))
    sc["grid"]["tiles"] = sc["grid"]["tiles"][:2]
    fmt = draw(st.sampled_from(["ENVI", "COG", "GTiff", "CUSTOM"]))
    explode = draw(st.booleans())
    if explode:
        sc["grid"]["tiles"] = sc["grid"]["tiles"][:1]
    return dict(sc=sc, fmt=fmt, custom=draw(st.integers(0, len(CUSTOM) - 1)) if fmt == "CUSTOM" else None, explode=explode, sub=draw(st.booleans()),
                split=draw(st.booleans()) and fmt != "COG", mask=draw(st.sampled_from([None, 0.3])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    sc = case["sc"]
    g = sc["grid"]
    kind, p = M.build(ctx, sc)
    if kind in ("TXT", "LSM"):
        p[kind + "_RADIUS"] = 10
        if kind == "TXT":
            p["TXT_ITERATION"] = 1
    if case["mask"] is not None:
        rng = np.random.default_rng([sc["seed"], 5])
        mc = M.cube_of(ctx, g, "mask")
        for t in g["tiles"]:
            mc.write(t[0], t[1], "m.tif", (rng.random((1, g["ny"], g["nx"])) < case["mask"]).astype(np.uint8), nodata=255, dtype="uint8")
        p.update(DIR_MASK=ctx.dir + "/mask", BASE_MASK="m.tif")
    q = dict(p, DIR_HIGHER=ctx.dir + "/other", OUTPUT_FORMAT=case["fmt"], OUTPUT_EXPLODE="TRUE" if case["explode"] else "FALSE",
             OUTPUT_SUBFOLDERS="TRUE" if case["sub"] else "FALSE")
    if case["split"]:
        q["CHUNK_SIZE"] = "%d %d" % (10 * g["nx"], 10 * g["ny"] // 2)
        if kind == "LSM":       # patches depend on the block
            q["LSM_MIN_PATCHSIZE"] = p["LSM_MIN_PATCHSIZE"] = 1
            q["LSM"] = p["LSM"] = " ".join([m for m in p["LSM"].split() if m in ("EDD", "EMS", "AVG", "STD", "MAX", "ARE")] or ["ARE"])
            q["LSM_ALL_PIXELS"] = p["LSM_ALL_PIXELS"] = "FALSE"
    ext = {"ENVI": "dat", "COG": "tif", "GTiff": "tif"}.get(case["fmt"])
    if case["custom"] is not None:
        opt = CUSTOM[case["custom"]]
        ext = opt["EXTENSION"]
        with open(ctx.dir + "/opt.txt", "w") as f:
            f.write("".join("%s = %s\n" % (k, v) for k, v in opt.items()))
        q["FILE_OUTPUT_OPTIONS"] = ctx.dir + "/opt.txt"
    what = "%s %s%s%s%s" % (kind, case["fmt"], case["custom"] if case["custom"] is not None else "", " exploded" if case["explode"] else "",
                            " subfolders" if case["sub"] else "")
    for x in (p, q):
        r = M.run(ctx, kind, x)
        if r.rc != 0:
            out.fail("run", "%s: exit %s %s" % (what, r.rc, r.tail()))
            out.evals = 1
            return out
    A, B = hl.outputs(p["DIR_HIGHER"]), hl.outputs(q["DIR_HIGHER"])
    # expected file -> (reference, band or None)
    exp = {}
    for k, a in A.items():
        tile, base = k.split("/")[0], os.path.basename(k)[:-4]
        if case["explode"] and not (kind == "LEVEL3" and base.endswith(("BAP", "OVV"))):
            for b in range(a.nb):
                if (tile, "%s_%s.%s" % (base, a.names[b], ext)) in exp:
                    out.fail("files", "%s: several bands of %s share the file of band %s" % (what, k, a.names[b]))
                exp[(tile, "%s_%s.%s" % (base, a.names[b], ext))] = (a, b)
        else:
            exp[(tile, base + "." + ext)] = (a, None)
    got = {}
    for k, b in B.items():
        parts = k.split("/")
        if (len(parts) == 3) != case["sub"]:
            out.fail("subfolder", "%s: %s" % (what, k))
        if case["sub"] and len(parts) == 3:
            # the folder is the product
            if ("_%s" % parts[1]) not in parts[-1] and not parts[-1].startswith(parts[1]):
                out.fail("subfolder", "%s: %s is not in the folder of its product" % (what, k))
        if (parts[0], parts[-1]) in got:
            out.fail("files", "%s: %s twice" % (what, k))
        got[(parts[0], parts[-1])] = b
    if sorted(exp) != sorted(got):
        out.fail("files", "%s: missing %s, unexpected %s" % (what, sorted(set(exp) - set(got))[:3], sorted(set(got) - set(exp))[:3]))
    for key in sorted(set(exp) & set(got)):
        a, b = exp[key]
        x = got[key]
        idx = list(range(a.nb)) if b is None else [b]
        w = "%s %s" % (what, "/".join(key))
        if x.nb != len(idx) or (x.nx, x.ny) != (a.nx, a.ny):
            out.fail("shape", "%s: %dx%dx%d" % (w, x.nb, x.ny, x.nx))
            continue
        names = [a.names[i] for i in idx]
        gn = [re.sub(r"\s*\(.*\)$", "", n) if case["fmt"] == "ENVI" else n for n in x.names]
        if gn != names and x.names != names:
            out.fail("names", "%s: bands %s, expected %s" % (w, x.names[:4], names[:4]))
        if [float(n) if n is not None else None for n in x.nodata] != [float(a.nodata[i]) for i in idx]:
            out.fail("nodata", "%s: nodata %s, expected %s" % (w, x.nodata[:3], [a.nodata[i] for i in idx][:3]))
        if not np.allclose(x.gt, a.gt, rtol=0, atol=1e-3):
            out.fail("georeference", "%s: %s, expected %s" % (w, x.gt, a.gt))
        if (not x.wkt) != (not a.wkt) or x.dtype != a.dtype:
            out.fail("georeference", "%s: projection or data type lost: %s %s" % (w, x.wkt[:40], x.dtype))
        out.evals += hl.compare(out, "data", x.data, a.data[idx], what=w)
        out.nontrivial += int((a.data[idx] != a.nodata[0]).sum())
    out.evals = max(out.evals, 1)
    for l in (kind, case["fmt"], "explode" if case["explode"] else "stack", "subfolders" if case["sub"] else "flat"):
        out.label(l)
    if not A:
        out.label("no output")
    out.sample = dict(what=what, files=["/".join(k) for k in sorted(got)[:4]])
    return out
