"""Stratified samples of generated maps."""
import os

import numpy as np
from hypothesis import strategies as st
from osgeo import ogr

import fcube as F
from harness import Outcome

ID = "C54"
NONDETERMINISTIC = True
RULE = ("a case is a generated map with 1-6 classes and a table of requested sizes, drawn once (the tool seeds itself from the clock); one evaluation = one sampled point or one class quota; "
        "distinct non-trivial = classes for which a positive number smaller than the class is requested")
TIERS = {"quick": dict(examples=3000, budget=20), "thorough": dict(examples=9000, budget=60)}
ASSUMPTIONS = ["exact sizes are judged where at least half of the class is requested, or at least 60 points (a pre-selection of twice the size falls short with a probability below 1e-8)"]


@st.composite
def strategy_(draw, tier):
    k = draw(st.integers(1, 6))
    ids = draw(st.lists(st.sampled_from([1, 2, 3, 7, 100, 255, 1000, -5, 32767, 0]), min_size=k, max_size=k, unique=True))
    big = draw(st.sampled_from([False, False, True]))
    return dict(nx=draw(st.integers(1, 30)) + 60 * big, ny=draw(st.integers(1, 30)) + 60 * big, ids=ids, req=[draw(st.sampled_from(["all", "half", "more", "0", "60", "few", "absent", "most"])) for _ in ids],
                seed=draw(st.integers(0, 2 ** 31)), col=draw(st.sampled_from(["n", "equal", "area"])), band=draw(st.sampled_from([None, 1, 2])),
                fmt=draw(st.sampled_from([None, "GPKG", "CSV", "GeoJSON", "exists"])), perm=draw(st.integers(0, 5)), nd=draw(st.sampled_from([-9999, -9999, 0, 255])), listed=draw(st.sampled_from([False, False, True])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng(case["seed"])
    nx, ny, nd = case["nx"], case["ny"], case["nd"]
    ids = [c for c in case["ids"] if c != nd] or [1]
    band = case["band"] or 1
    m = rng.choice(ids + [nd], (band, ny, nx)).astype(np.int16)
    gt = (1000.0 + case["seed"] % 50, 10.0, 0.0, 9000.0, 0.0, -10.0)
    F.write_raster(ctx.dir + "/map.tif", m, gt, F.WKT, nd)
    m = m[band - 1]
    table, want = [], {}
    for c, r in zip(ids, case["req"]):
        n = int((m == c).sum())
        if n == 0 or r == "absent":
            want[c] = 0
            continue
        want[c] = dict(all=n, half=(n + 1) // 2, more=n + 7, most=max(1, n - 1), few=min(n, 3)).get(r, int(r) if r.isdigit() else 0)
        table.append((c, n, want[c]))
    if not table or sum(t[2] for t in table) == 0:
        out.label("nothing requested")
        return out
    if case["listed"] and (m == nd).any():      # pixels without data are not drawn, even if listed
        table.insert(case["seed"] % (len(table) + 1), (nd, int((m == nd).sum()), 3))
    cols = [["class", "count", case["col"]], ["count", "class", case["col"]], ["class", case["col"], "count"], [case["col"], "count", "class"], ["class", "count", "other", case["col"]],
            [case["col"], "x1", "class", "count"]][case["perm"]]
    with open(ctx.dir + "/t.csv", "w") as f:
        f.write(",".join(cols) + "\n")
        for c, n, w in table:
            d = {"class": c, "count": n, case["col"]: w}
            f.write(",".join(str(d.get(x, 5)) for x in cols) + "\n")
    fmt = case["fmt"]
    o = ctx.dir + "/sample.gpkg"
    cmd = [ctx.exe("force-stratified-sample")]
    if fmt and fmt != "exists":
        o = ctx.dir + "/out" + dict(GPKG=".gpkg", CSV=".csv", GeoJSON=".geojson")[fmt]
        cmd += ["-o", o, "-f", fmt]
    if case["band"]:
        cmd += ["-b", str(band)]
    if fmt == "exists":
        with open(o, "w") as f:
            f.write("x")
    r = F.run(cmd + [ctx.dir + "/map.tif", ctx.dir + "/t.csv", case["col"]], cwd=ctx.dir)
    if fmt == "exists":
        out.label("existing file")
        out.nontrivial = 1
        if r.rc == 0 or open(o).read() != "x":
            out.fail("overwrite", "an existing sample file was accepted or changed")
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    pts = []
    if fmt == "CSV":
        out.label("CSV")  # the format keeps no coordinates by default
        for l in open(o).read().splitlines()[1:]:
            pts.append((None, None, int(l.split(",")[1])))
    else:
        ds = ogr.Open(o)
        for f in ds.GetLayer(0):
            g = f.GetGeometryRef()
            pts.append((g.GetX(), g.GetY(), f.GetField("label_map")))
        ds = None
    n = {}
    seen = set()
    for x, y, c in pts:
        n[c] = n.get(c, 0) + 1
        if x is None:
            continue
        j, i = (x - gt[0]) / 10, (gt[3] - y) / 10
        if not (0 <= j < nx and 0 <= i < ny) or m[int(i), int(j)] != c:
            out.fail("location", "point (%f,%f) is labelled %s, the map has %s there" % (x, y, c, m[int(i), int(j)] if 0 <= j < nx and 0 <= i < ny else None))
            continue
        if abs(i % 1 - 0.5) > 0.01 or abs(j % 1 - 0.5) > 0.01:
            out.fail("centre", "point (%f,%f) is not a pixel centre" % (x, y))
        if (int(i), int(j)) in seen:
            out.fail("distinct", "pixel (%d,%d) was drawn twice" % (i, j))
        seen.add((int(i), int(j)))
    for c in set(list(n) + ids):
        have, size, w = n.get(c, 0), int((m == c).sum()), want.get(c, 0)
        if have > w:
            out.fail("too-many", "class %s has %d points, %d requested" % (c, have, w))
        elif have < min(w, size) and (2 * w >= size or w >= 60):
            out.fail("too-few", "class %s has %d points, %d requested of %d pixels" % (c, have, w, size))
        out.nontrivial += 0 < w < size
    out.evals = len(pts) + len(ids)
    out.label("drawn")
    out.sample = dict(size=[nx, ny], requested={str(k): v for k, v in want.items()}, got={str(k): v for k, v in n.items()})
    return out
