"""Tiles: only the requested ones, each independent of the others."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import hl
import modules as M
from harness import Outcome

ID = "C03"
RULE = ("a case is a generated scenario (one of nine higher-level modules) on 1-5 tiles of a 4x4 window (tile numbers may be negative), a requested tile range "
        "and an optional allow-list (any order, absent and repeated tiles); it is run for the whole window and for the request; one evaluation = one tile of the "
        "window judged for presence, or one compared output value; distinct non-trivial = values other than nodata in requested tiles of cases in which "
        "at least one tile with output is excluded by the request")
TIERS = {"quick": dict(examples=1200, budget=27), "thorough": dict(examples=4000, budget=75)}
KINDS = ["TSA", "CSO", "ML", "LIB", "SMP", "TXT", "LSM", "LEVEL3", "UDF"]


@st.composite
def strategy_(draw, tier):
    sc = draw(M.scenario(KINDS, sizes=(6, 8, 12)))
    x0, y0 = draw(st.sampled_from([-2, 0, 5, -9, 98, 997])), draw(st.sampled_from([-1, 0, 3, -12, 40]))
    cells = [[x0 + a, y0 + b] for b in range(4) for a in range(4)]
    tiles = draw(st.lists(st.sampled_from(cells), min_size=1, max_size=5, unique_by=tuple))
    sc["grid"]["tiles"] = tiles
    if "ard" in sc:
        sc["ard"]["acq"] = sc["ard"]["acq"][:5]
    pick = draw(st.sampled_from(tiles))
    xs = sorted([pick[0], draw(st.integers(x0, x0 + 3))])
    ys = sorted([pick[1], draw(st.integers(y0, y0 + 3))])
    if draw(st.integers(0, 9)) == 0:
        xs, ys = sorted([draw(st.integers(x0, x0 + 3)) for _ in range(2)]), sorted([draw(st.integers(y0, y0 + 3)) for _ in range(2)])
    allow = None
    if draw(st.booleans()):
        allow = draw(st.lists(st.sampled_from(tiles + cells), min_size=1, max_size=6))
        if draw(st.integers(0, 4)):
            allow.insert(draw(st.integers(0, len(allow))), pick)
    return dict(sc=sc, win=[x0, y0], x=xs, y=ys, allow=allow, empty=draw(st.booleans()), stream=draw(st.booleans()), cy=draw(st.booleans()))


def strategy(tier):
    return strategy_(tier)


def name(t):
    return "X%04d_Y%04d" % (t[0], t[1])


def run_case(case, ctx):
    out = Outcome()
    sc = case["sc"]
    g = sc["grid"]
    kind, p = M.build(ctx, sc)
    if kind in ("TXT", "LSM"):
        p[kind + "_RADIUS"], p["TXT_ITERATION"] = 10, 1
        if kind == "LSM":
            p.pop("TXT_ITERATION")
    if case["cy"]:
        p["CHUNK_SIZE"] = "%d %d" % (10 * g["nx"], 10 * g["ny"] // 2)
    x0, y0 = case["win"]
    window = [[x0 + a, y0 + b] for b in range(4) for a in range(4)]
    full = dict(p, X_TILE_RANGE="%d %d" % (x0, x0 + 3), Y_TILE_RANGE="%d %d" % (y0, y0 + 3), DIR_HIGHER=ctx.dir + "/full")
    part = dict(p, X_TILE_RANGE="%d %d" % tuple(case["x"]), Y_TILE_RANGE="%d %d" % tuple(case["y"]), DIR_HIGHER=ctx.dir + "/part",
                STREAMING="TRUE" if case["stream"] else "FALSE", FAIL_IF_EMPTY="TRUE" if case["empty"] else "FALSE")
    if case["allow"]:
        with open(ctx.dir + "/allow.txt", "w") as f:
            f.write("%d\n" % len(case["allow"]) + "".join(name(t) + "\n" for t in case["allow"]))
        part["FILE_TILE"] = ctx.dir + "/allow.txt"
    if kind == "SMP":
        M.smp_files(ctx, full, "full")
        M.smp_files(ctx, part, "part")
    want = [t for t in window if case["x"][0] <= t[0] <= case["x"][1] and case["y"][0] <= t[1] <= case["y"][1] and (not case["allow"] or t in case["allow"])]
    a = M.run(ctx, kind, full)
    if a.rc != 0:
        out.fail("run", "whole window: exit %s %s" % (a.rc, a.tail()))
        out.evals = 1
        return out
    A = hl.outputs(full["DIR_HIGHER"])
    for t in window:        # traces of other work, must stay
        os.makedirs(part["DIR_HIGHER"] + "/" + name(t), exist_ok=True)
        open(part["DIR_HIGHER"] + "/" + name(t) + "/other.txt", "w").write("x")
    b = M.run(ctx, kind, part)
    B = hl.outputs(part["DIR_HIGHER"])
    expect = {k: v for k, v in A.items() if k.split("/")[0] in [name(t) for t in want]}
    rows = None
    if kind == "SMP":
        cube = M.cube_of(ctx, g, "tmp")
        rows = []
        for r in M.smp_rows(full)[0]:
            x, y = [float(v) for v in r[2].split()[:2]]
            if [int(np.floor((x - cube.origin[0]) / cube.tile[0])), int(np.floor((cube.origin[1] - y) / cube.tile[1]))] in want:
                rows.append(r)
        got, n = M.smp_rows(part)
        if got != sorted(rows):
            out.fail("samples", "rows %s, expected %s" % (got[:4], sorted(rows)[:4]))
    produced = len(rows) if kind == "SMP" else len(expect)
    fails = not want or (case["empty"] and not produced)
    if (b.rc != 0) != fails or b.rc < 0:
        out.fail("exit", "%s: exit %s, expected %s: tiles to process %d, products %d, FAIL_IF_EMPTY %s %s" % (kind, b.rc, "an error" if fails else 0, len(want),
                 produced, case["empty"], b.tail()))
    for t in window:
        out.evals += 1
        fa = sorted(k for k in expect if k.startswith(name(t)))
        fb = sorted(k for k in B if k.startswith(name(t)))
        if fa != fb:
            out.fail("tiles", "%s tile %s (ranges %s %s, allow-list %s): files %s, expected %s" % (kind, name(t), case["x"], case["y"], case["allow"], fb[:3], fa[:3]))
        left = sorted(x for x in os.listdir(part["DIR_HIGHER"] + "/" + name(t)))
        if "other.txt" not in left or (t not in want and left != ["other.txt"]):
            out.fail("touched", "tile %s was not to be processed, has %s" % (name(t), left[:5]))
    stray = [d for d in os.listdir(part["DIR_HIGHER"]) if os.path.isdir(part["DIR_HIGHER"] + "/" + d) and d not in [name(t) for t in window]]
    if stray:
        out.fail("tiles", "unexpected %s" % stray[:4])
    if not out.fails:
        out.evals += M.same_outputs(out, "alone", expect, B, kind)
    if len(expect) < len(A):
        out.nontrivial = sum(int((o.data != o.nodata[0]).sum()) for o in expect.values())
    if kind == "SMP" and len(rows) < len(M.smp_rows(full)[0]):
        out.nontrivial = len(rows)
    out.label(kind)
    out.label("allow-list" if case["allow"] else "range")
    if fails:
        out.label("to fail")
    if not produced:
        out.label("nothing to do")
    out.sample = dict(kind=kind, tiles=[name(t) for t in g["tiles"]], want=[name(t) for t in want][:6], files=len(expect))
    shutil.rmtree(ctx.dir + "/full", ignore_errors=True)
    return out
