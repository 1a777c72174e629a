"""Cubing of generated rasters and vectors, and masks of generated cubes."""
import os

import numpy as np
from hypothesis import strategies as st
from osgeo import ogr, osr

import fcube as F
from harness import Outcome

ID = "C56"
RULE = ("a case cubes 1-2 generated rasters (or vector files) aligned with the pixel grid, or computes a mask of a generated cube; one evaluation = one tile; "
        "distinct non-trivial = tiles with both valid and nodata (mask: true and false) pixels")
TIERS = {"quick": dict(examples=600, budget=25), "thorough": dict(examples=3000, budget=70)}
ASSUMPTIONS = ["inputs are in the cube's projection and aligned with its pixels, so that resampling cannot change a value"]
EXPR = ["A>2500", "A > 2500", "(A>10)*(A<3000)", "A==7", "logical_or(A<3,A>4000)", "A<=0", "A>20000", "(A % 2) == 0"]


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(["raster", "raster", "vector", "mask"]))
    case = dict(kind=kind, nx=draw(st.integers(6, 16)), ny=draw(st.integers(6, 16)), square=draw(st.booleans()), res=draw(st.sampled_from([10.0, 10.0, 20.0, 5.0, 30.0])), origin=draw(st.integers(0, 3)),
                seed=draw(st.integers(0, 2 ** 31)), deprecated=draw(st.integers(0, 3)) == 0)
    if case["square"] or case["deprecated"]:
        case["ny"] = case["nx"]
    box = st.tuples(st.integers(-20, 15), st.integers(-20, 15), st.integers(1, 22), st.integers(1, 22)).map(list)
    if kind == "raster":
        case.update(boxes=[draw(box) for _ in range(draw(st.integers(1, 2)))], same=draw(st.booleans()), nb=draw(st.integers(1, 3)), dtype=draw(st.sampled_from(["Byte", "Int16"])), nodata=draw(st.sampled_from([255, 0, -9999])),
                    onodata=draw(st.sampled_from([None, 254])), fill=draw(st.sampled_from([0.0, 0.3, 0.97])), base=draw(st.sampled_from([None, "my-name"])))
    elif kind == "vector":
        case.update(files=[[draw(box) for _ in range(draw(st.integers(1, 3)))] for _ in range(draw(st.integers(1, 2)))], attribute=draw(st.booleans()), layer=draw(st.booleans()), ext=draw(st.sampled_from(["gpkg", "shp"])))
    else:
        case.update(tiles=[list(t) for t in draw(st.lists(st.tuples(st.integers(-2, 3), st.integers(-2, 3)), min_size=1, max_size=4, unique=True))], nb=draw(st.integers(1, 3)), expr=draw(st.sampled_from(EXPR)),
                    band=draw(st.integers(0, 3)), base=draw(st.sampled_from([None, "mask"])), same=draw(st.booleans()))
    return case


def strategy(tier):
    return strategy_(tier)


def make_cube(case, path):
    o = [(2456026.363042, 4574919.607965), (0.0, 0.0), (500000.5, 6000000.25), (-300.0, 900.0)][case["origin"]]
    c = F.Cube(path, (case["nx"] * case["res"], case["ny"] * case["res"]), case["res"], o)
    if case["deprecated"]:
        with open(path + "/datacube-definition.prj", "w") as f:
            f.write("%s\n%f\n%f\n%f\n%f\n%f\n%f\n" % (c.wkt, -25.0, 60.0, o[0], o[1], c.tile[0], c.tile[1] / 2 if case["ny"] % 2 == 0 else c.tile[1]))
    return c


class Canvas:
    """Pixels of the grid by absolute row and column."""

    def __init__(self, case, nb, nodata):
        self.k, self.nx, self.ny, self.nodata = 60, case["nx"], case["ny"], nodata
        self.a = np.full((nb, 2 * self.k + 60, 2 * self.k + 60), nodata, np.int64)

    def put(self, x, y, a, nodata):
        w = self.a[:, self.k + y:self.k + y + a.shape[1], self.k + x:self.k + x + a.shape[2]]
        w[a != nodata] = a[a != nodata]

    def tiles(self):
        out = {}
        t0x, t0y = -(self.k // self.nx), -(self.k // self.ny)
        for ty in range(t0y, (self.k + 60) // self.ny):
            for tx in range(t0x, (self.k + 60) // self.nx):
                b = self.a[:, self.k + ty * self.ny:self.k + (ty + 1) * self.ny, self.k + tx * self.nx:self.k + (tx + 1) * self.nx]
                if (b != self.nodata).any():
                    out[F.tile_id(tx, ty)] = ((tx, ty), b)
        return out


def judge(out, cube, path, fname, tiles, what, nodata):
    have = sorted(d for d in os.listdir(path) if d != "datacube-definition.prj" and not d.startswith("."))
    withfile = sorted(d for d in have if os.path.isdir(path + "/" + d) and os.path.exists(path + "/" + d + "/" + fname))
    if withfile != sorted(tiles):
        out.fail("tiles", "%s: tiles %s, expected %s" % (what, withfile, sorted(tiles)))
        return
    for t, ((tx, ty), exp) in tiles.items():
        g = F.Raster(path + "/" + t + "/" + fname)
        if g.data.shape != exp.shape:
            out.fail("size", "%s: tile %s is %s, expected %s" % (what, t, g.data.shape, exp.shape))
            continue
        if not np.allclose(g.gt, cube.geotransform(tx, ty), rtol=0, atol=1e-3):
            out.fail("georeference", "%s: tile %s at %s, expected %s" % (what, t, g.gt, cube.geotransform(tx, ty)))
        if any(n != nodata for n in g.nodata):
            out.fail("nodata", "%s: tile %s has nodata %s, expected %s" % (what, t, g.nodata, nodata))
        bad = np.argwhere(g.data.astype(np.int64) != exp)
        if len(bad):
            b, y, x = bad[0]
            out.fail("values", "%s: tile %s is %d at band %d row %d column %d, expected %d" % (what, t, g.data[b, y, x], b + 1, y, x, exp[b, y, x]))
        out.nontrivial += int(exp.min() != exp.max())
    out.evals += len(tiles)


def stray(out, path, names):
    extra = [os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs if f not in names and f != "datacube-definition.prj" and "/.parallel" not in d]
    if extra:
        out.fail("left-over", "unexpected files %s" % extra[:3])
    empty = [d for d, ds, fs in os.walk(path) if not ds and not fs and "/.parallel" not in d]
    if empty:
        out.fail("empty-directory", "empty directories %s" % empty[:3])


def run_case(case, ctx):
    out = Outcome()
    out.label(case["kind"])
    rng = np.random.default_rng(case["seed"])
    path = ctx.dir + "/cube"
    c = make_cube(case, path)
    res = case["res"]
    if case["kind"] == "raster":
        lo, hi = (1, 200) if case["dtype"] == "Byte" else (-3000, 3000)
        nd = case["nodata"] if case["dtype"] == "Int16" or case["nodata"] >= 0 else 255
        ond = case["onodata"] or 255
        files, imgs = [], []
        for i, (x, y, w, h) in enumerate(case["boxes"]):
            a = rng.integers(lo, hi, (case["nb"], h, w))
            a[(a == nd) | (a == ond)] += 5
            a[(a == nd) | (a == ond)] += 5
            a[np.broadcast_to(rng.random((h, w)) < case["fill"], a.shape)] = nd
            n = "img" if case["same"] else "img%d" % i
            f = ctx.dir + "/d%d/%s.tif" % (i, n)
            os.makedirs(os.path.dirname(f))
            F.write_raster(f, a, (c.origin[0] + x * res, res, 0.0, c.origin[1] - y * res, 0.0, -res), c.wkt, nd, "uint8" if case["dtype"] == "Byte" else "int16")
            files.append((n, f, x, y, a))
        base = case["base"] if len(files) == 1 else None
        cmd = [ctx.exe("force-cube"), "-o", path] + (["-s", "%g" % res] if res != 10 or case["seed"] % 2 else []) + ([] if case["dtype"] == "Byte" else ["-t", "Int16"]) + (["-n", str(ond)] if case["onodata"] else [])
        r = F.run(cmd + (["-b", base] if base else []) + [f[1] for f in files], cwd=ctx.dir, timeout=120)
        canv = {}
        for n, f, x, y, a in files:
            k = base or n
            canv.setdefault(k, Canvas(case, case["nb"], ond)).put(x, y, a, nd)
        names = {k + ".tif" for k in canv}
    elif case["kind"] == "vector":
        srs = osr.SpatialReference(wkt=c.wkt)
        canv, files = {}, []
        for i, boxes in enumerate(case["files"]):
            n = "area%d" % i
            f = ctx.dir + "/" + n + "." + case["ext"]
            ds = ogr.GetDriverByName("GPKG" if case["ext"] == "gpkg" else "ESRI Shapefile").CreateDataSource(f)
            lname = "lay" if case["layer"] and case["ext"] == "gpkg" else n
            ly = ds.CreateLayer(lname, srs, ogr.wkbPolygon)
            ly.CreateField(ogr.FieldDefn("val", ogr.OFTInteger))
            cv = Canvas(case, 1, 255)
            for j, (x, y, w, h) in enumerate(boxes):
                g = ogr.Geometry(ogr.wkbLinearRing)
                for px, py in ((x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)):
                    g.AddPoint_2D(c.origin[0] + px * res, c.origin[1] - py * res)
                p = ogr.Geometry(ogr.wkbPolygon)
                p.AddGeometry(g)
                ft = ogr.Feature(ly.GetLayerDefn())
                ft.SetGeometry(p)
                ft.SetField("val", 3 + j)
                ly.CreateFeature(ft)
                cv.put(x, y, np.full((1, h, w), 3 + j if case["attribute"] else 1), 255)
            ds = ly = None
            canv[n] = cv
            files.append(f)
        cmd = [ctx.exe("force-cube"), "-o", path, "-s", "%g" % res] + (["-a", "val"] if case["attribute"] else []) + (["-l", "lay"] if case["layer"] and case["ext"] == "gpkg" else [])
        r = F.run(cmd + files, cwd=ctx.dir, timeout=120)
        names, ond = {k + ".tif" for k in canv}, 255
    else:
        band = 1 + case["band"] % case["nb"]
        exp = {}
        for tx, ty in case["tiles"]:
            a = rng.choice([0, 1, 2, 7, 100, 2500, 2501, 3000, 4001, -50, -9999], (case["nb"], c.nxny()[1], c.nxny()[0]))
            c.write(tx, ty, "in.put.tif", a)
            A = a[band - 1]
            m = eval(case["expr"], {"A": A, "logical_or": np.logical_or})
            exp[F.tile_id(tx, ty)] = ((tx, ty), np.where(A == -9999, 255, m.astype(int))[None])
        opath = path if case["same"] else ctx.dir + "/out"
        os.makedirs(opath, exist_ok=True)
        cmd = [ctx.exe("force-procmask"), "-o", opath, "-d", path, "-s", "%g" % res] + (["-l", str(band)] if band > 1 else []) + (["-b", case["base"]] if case["base"] else [])
        r = F.run(cmd + ["in.put.tif", case["expr"]], cwd=ctx.dir, timeout=120)
        if r.timeout:
            out.label("timeout")
            return out
        if r.rc != 0:
            out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
            return out
        fname = (case["base"] or "in_procmask") + ".tif"
        if open(opath + "/datacube-definition.prj").read() != open(path + "/datacube-definition.prj").read():
            out.fail("definition", "the output has another data cube definition")
        judge(out, c, opath, fname, exp, "mask %s of band %d" % (case["expr"], band), 255)
        stray(out, opath, {fname, "in.put.tif"})
        out.sample = dict(expr=case["expr"], tiles=case["tiles"])
        return out
    if r.timeout:
        out.label("timeout")
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    for k, cv in canv.items():
        judge(out, c, path, k + ".tif", cv.tiles(), case["kind"], ond)
    stray(out, path, names)
    out.evals = max(out.evals, 1)
    out.sample = dict(kind=case["kind"], tile=[case["nx"], case["ny"]], tiles=[sorted(cv.tiles()) for cv in canv.values()][0][:5])
    return out
