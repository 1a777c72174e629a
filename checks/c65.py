"""Virtual cubes, cube sizes and pyramids of generated cubes."""
import fnmatch
import os
import re

import numpy as np
from hypothesis import strategies as st
from osgeo import gdal

import fcube as F
from harness import Outcome

ID = "C65"
RULE = ("a case is a generated cube (1-4 tiles, 1-5 files each) that is mirrored as virtual cube (some files existing before, with or without overwriting), measured, or given pyramids; "
        "one evaluation = one file (or one sensor total); distinct non-trivial = files that had to be created, replaced or left alone, totals of at least two files")
TIERS = {"quick": dict(examples=600, budget=25), "thorough": dict(examples=3000, budget=70)}
SENS = ["LND04", "LND05", "LND07", "LND08", "LND09", "SEN2A", "SEN2B", "SEN2C", "SEN2D", "sen2a", "sen2b", "sen2c", "sen2d", "SEN2L", "SEN2H", "R-G-B", "S1AIA", "S1AID", "S1BIA", "S1BID", "VVVHP", "MOD01", "MOD02", "MODIS"]
UNITS = dict(B=1, KB=1024, MB=1024 ** 2)


@st.composite
def strategy_(draw, tier):
    tiles = [list(t) for t in draw(st.lists(st.tuples(st.integers(-2, 3), st.integers(-2, 3)), min_size=1, max_size=4, unique=True))]
    files = [dict(tile=draw(st.integers(0, len(tiles) - 1)), sensor=draw(st.sampled_from(SENS)), prod=draw(st.sampled_from(["BOA", "QAI", "IMP"])), date=draw(st.integers(20150101, 20150131)), nb=draw(st.integers(1, 3)),
                  ext=draw(st.sampled_from([".tif", ".tif", ".dat"])), before=draw(st.booleans())) for _ in range(draw(st.integers(1, 8)))]
    return dict(kind=draw(st.sampled_from(["virtual", "virtual", "size", "pyramid"])), tiles=tiles, files=files, seed=draw(st.integers(0, 2 ** 31)), n=draw(st.integers(2, 40)), over=draw(st.booleans()),
                pattern=draw(st.sampled_from([None, None, "*BOA.tif", "2015010*.tif"])), order=draw(st.integers(0, 2)), levels=draw(st.sampled_from([None, [2], [2, 4], [3]])), resample=draw(st.sampled_from([None, "average", "mode"])),
                definition=draw(st.sampled_from([None, None, "same", "other"])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    out.label(case["kind"])
    n = case["n"] + (31 if case["kind"] == "pyramid" else 0)
    c = F.Cube(ctx.dir + "/cube", (n * 10.0, n * 10.0), 10.0)
    for t in case["tiles"]:
        c.tile_dir(*t)
    files = {}
    for i, f in enumerate(case["files"]):
        rng = np.random.default_rng([case["seed"], i])
        tile = tuple(case["tiles"][f["tile"]])
        name = "%d_LEVEL2_%s_%s%s" % (f["date"], f["sensor"], f["prod"], f["ext"])
        a = rng.integers(-9999, 9999, (f["nb"], n, n)).astype(np.int16)
        path = c.write(*tile, name, a, driver="ENVI" if f["ext"] == ".dat" else "GTiff", bandnames=["b%d" % b for b in range(f["nb"])])
        files[path] = dict(f, data=a, t=F.tile_id(*tile), name=name)
    if case["kind"] == "size":
        cwd = ctx.dir + "/w"
        os.makedirs(cwd)
        r = F.run([ctx.exe("force-datacube-size")] + (["-t", ctx.dir] if case["over"] else []) + [c.path], cwd=cwd, timeout=60)
        if r.rc != 0:
            out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
            return out
        got = {m[0]: float(m[1]) * UNITS[m[2]] for m in re.findall(r"^(\S+) *: +([0-9.]+) +([KM]?B)$", r.out, re.M)}
        exp, num = {}, {}
        for d, _, fs in os.walk(c.path):
            for x in fs:
                for s in SENS:
                    if d != c.path and s in x:
                        exp[s] = exp.get(s, 0) + os.path.getsize(os.path.join(d, x))
                        num[s] = num.get(s, 0) + 1
        exp["TOTAL"] = sum(exp.values())
        if set(got) != set(exp):
            out.fail("sensors", "sizes of %s, expected %s: %s" % (sorted(got), sorted(exp), r.tail()))
            return out
        for s in exp:
            u = 1024 ** 2 if exp[s] > 1024 ** 2 else 1024 if exp[s] > 1024 else 1
            if abs(got[s] - exp[s]) > 0.0051 * 1024 * u:
                out.fail("size", "%s has %s bytes, expected %s" % (s, got[s], exp[s]))
            elif abs(got[s] - exp[s]) > 0.0051 * u:
                out.fail("size", "%s has %s bytes, expected %s" % (s, got[s], exp[s]))
        if [x for x in os.listdir(cwd) if not x.startswith(".")] or [x for x in os.listdir(ctx.dir) if x.endswith(".txt")]:
            out.fail("left-over", "temporary files were left")
        out.evals = len(exp)
        out.nontrivial = sum(v > 1 for v in num.values())
        out.sample = {k: v for k, v in list(exp.items())[:4]}
        return out
    if case["kind"] == "pyramid":
        lev = case["levels"] or [2, 4, 8, 16]
        before = {p: open(p, "rb").read() for p in files}
        r = F.run([ctx.exe("force-pyramid")] + (["-l", ",".join(map(str, lev))] if case["levels"] else []) + (["-r", case["resample"]] if case["resample"] else []) + list(files), cwd=ctx.dir, timeout=90)
        if r.timeout:
            out.label("timeout")
            return out
        if r.rc != 0:
            out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
            return out
        for p, f in files.items():
            if open(p, "rb").read() != before[p]:
                out.fail("input", "%s was changed" % f["name"])
            ds = gdal.Open(p)
            for b in range(1, f["nb"] + 1):
                bd = ds.GetRasterBand(b)
                size = [(bd.GetOverview(k).XSize, bd.GetOverview(k).YSize) for k in range(bd.GetOverviewCount())]
                want = [(-(-n // k), -(-n // k)) for k in lev]
                if size != want:
                    out.fail("levels", "pyramid levels of %s (%d pixels) are %s, expected %s" % (f["name"], n, size, want))
                    break
                if not case["resample"] and n % lev[0] == 0 and lev[0] == 2:
                    o = bd.GetOverview(0).ReadAsArray()
                    blk = f["data"][b - 1].reshape(n // 2, 2, n // 2, 2)
                    if not np.any([blk[:, i, :, j] == o for i in (0, 1) for j in (0, 1)], axis=0).all():
                        out.fail("values", "nearest-neighbour pyramid of %s holds other values" % f["name"])
            ds = None
            out.nontrivial += 1
        out.evals = len(files)
        out.sample = dict(size=n, levels=lev)
        return out
    v = ctx.dir + "/virt"
    os.makedirs(v)
    pat = case["pattern"] or "*.tif"
    old = {}
    for p, f in files.items():
        if f["before"]:
            os.makedirs(v + "/" + f["t"], exist_ok=True)
            q = v + "/" + f["t"] + "/" + os.path.splitext(f["name"])[0] + ".vrt"
            with open(q, "w") as fh:
                fh.write("old")
            old[q] = True
    df = case["definition"]
    text = open(c.path + "/datacube-definition.prj").read()
    if df:
        with open(v + "/datacube-definition.prj", "w") as fh:
            fh.write(text if df == "same" else text.replace("TILE_SIZE_X = ", "TILE_SIZE_X = 1"))
    opts = [["-w"] if case["over"] else [], ["-p", pat] if case["pattern"] else [], ["-j", "2"] if case["seed"] % 2 else []]
    opts = opts[case["order"]:] + opts[:case["order"]]
    r = F.run([ctx.exe("force-virtual-datacube")] + sum(opts, []) + [c.path, v], cwd=ctx.dir, timeout=90)
    if r.timeout:
        out.label("timeout")
        return out
    if df == "other":
        out.label("refused")
        out.nontrivial = 1
        if r.rc == 0:
            out.fail("refuse", "a virtual cube with another definition was accepted")
        if any(open(q).read() != "old" for q in old):
            out.fail("touched", "a refused virtual cube was changed")
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    if open(v + "/datacube-definition.prj").read() != text:
        out.fail("definition", "the virtual cube has another definition")
    exp = {}
    for p, f in files.items():
        if fnmatch.fnmatchcase(f["name"], pat):
            exp.setdefault(v + "/" + f["t"] + "/" + os.path.splitext(f["name"])[0] + ".vrt", []).append(f)
    have = {os.path.join(d, x) for d, _, fs in os.walk(v) for x in fs if d != v}
    if have != set(exp) | set(old):
        out.fail("files", "virtual files %s, expected %s" % (sorted(have)[:6], sorted(set(exp) | set(old))[:6]))
        return out
    for q in have:
        if q not in exp or (q in old and not case["over"]):
            if open(q).read() != "old":
                out.fail("overwritten", "%s was replaced" % os.path.basename(q))
        elif len(exp[q]) == 1:
            g = F.Raster(q)
            f = exp[q][0]
            if not np.array_equal(g.data, f["data"]) or g.names != ["b%d" % b for b in range(f["nb"])] or any(x != -9999 for x in g.nodata) or not np.allclose(g.gt, F.Raster(c.path + "/" + f["t"] + "/" + f["name"]).gt):
                out.fail("content", "virtual image %s differs from the physical one" % os.path.basename(q))
        out.nontrivial += 1
    out.evals = max(1, len(have))
    out.sample = dict(files=len(files), pattern=pat, overwrite=case["over"], existing=len(old), virtual=len(have))
    return out
