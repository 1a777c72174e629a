"""Results do not depend on processing units, threads or streaming."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import hl
import modules as M
from harness import Outcome

ID = "C02"
RULE = ("a case is a generated scenario (one of nine higher-level modules, options, inputs on 1-4 tiles) run in one block per tile with one thread and "
        "again with other block sizes, thread numbers and streaming; one evaluation = one compared output value (or sample row); "
        "distinct non-trivial = values that are not nodata in products of a case in which at least one run has more than one block per tile or more than one thread")
TIERS = {"quick": dict(examples=800, budget=27), "thorough": dict(examples=2400, budget=75)}


def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]


@st.composite
def strategy_(draw, tier):
    sc = draw(M.scenario(["TSA", "LEVEL3", "CSO", "TXT", "LSM", "ML", "LIB", "SMP", "UDF"]))
    g = sc["grid"]
    rad = 0
    if sc["kind"] == "TXT":
        rad = sc["opt"]["TXT_RADIUS"] // 10 * sc["opt"]["TXT_ITERATION"] * 2
    elif sc["kind"] == "LSM":
        rad = sc["opt"]["LSM_RADIUS"] // 10
        # what identifies a patch depends on the extent looked at; only these do not
        ok = [m for m in sc["opt"]["LSM"].split() if m in ("EDD", "EMS", "AVG", "STD", "GEO", "MAX", "ARE")] or ["ARE"]
        sc["opt"].update(LSM=" ".join(ok), LSM_MIN_PATCHSIZE=1, LSM_ALL_PIXELS="FALSE")
    dx, dy = [d for d in divisors(g["nx"]) if d >= rad] or [g["nx"]], [d for d in divisors(g["ny"]) if d >= rad] or [g["ny"]]
    small = 16 if len(g["tiles"]) == 1 else 6          # bound on the number of blocks per tile
    runs = []
    for _ in range(draw(st.integers(1, 2))):
        cx, cy = draw(st.sampled_from(dx)), draw(st.sampled_from(dy))
        while (g["nx"] // cx) * (g["ny"] // cy) > small:
            cx, cy = (g["nx"], cy) if cx < cy else (cx, g["ny"])
        runs.append(dict(cx=cx, cy=cy, threads=[draw(st.sampled_from([3, 1, 2])), draw(st.sampled_from([4, 1, 2, 7])), draw(st.sampled_from([2, 1, 4]))],
                         stream=draw(st.booleans())))
    mask = draw(st.sampled_from([None, None, 0.5, 0.05]))
    return dict(sc=sc, runs=runs, mask=mask)


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    sc = case["sc"]
    g = sc["grid"]
    rad = 0
    kind, p = M.build(ctx, sc)
    if kind == "TXT":
        rad = int(p["TXT_RADIUS"]) // 10 * int(p["TXT_ITERATION"]) * 2
        if rad > min(g["nx"], g["ny"]):
            p["TXT_RADIUS"], p["TXT_ITERATION"] = 10, 1
    if case["mask"] is not None:
        rng = np.random.default_rng([sc["seed"], 5])
        mc = M.cube_of(ctx, g, "mask")
        for t in g["tiles"]:
            mc.write(t[0], t[1], "m.tif", (rng.random((1, g["ny"], g["nx"])) < case["mask"]).astype(np.uint8), nodata=255, dtype="uint8")
        p.update(DIR_MASK=ctx.dir + "/mask", BASE_MASK="m.tif")
    res, rows = [], []
    for i, r in enumerate([None] + case["runs"]):
        q = dict(p)
        q["DIR_HIGHER"] = ctx.dir + "/higher%d" % i
        if kind == "SMP":
            M.smp_files(ctx, q, "o%d" % i)
        if r:
            q.update(CHUNK_SIZE="%d %d" % (10 * r["cx"], 10 * r["cy"]), NTHREAD_READ=r["threads"][0], NTHREAD_COMPUTE=r["threads"][1],
                     NTHREAD_WRITE=r["threads"][2], STREAMING="TRUE" if r["stream"] else "FALSE")
        x = M.run(ctx, kind, q)
        if x.rc != 0:
            out.fail("run", "exit %s with %s: %s" % (x.rc, r, x.tail()))
            out.evals = 1
            return out
        res.append(hl.outputs(q["DIR_HIGHER"]))
        rows.append(M.smp_rows(q) if kind == "SMP" else None)
        shutil.rmtree(q["DIR_HIGHER"], ignore_errors=True)
    differs = any(r["cx"] < g["nx"] or r["cy"] < g["ny"] or max(r["threads"]) > 1 for r in case["runs"])
    for i, r in enumerate(case["runs"]):
        what = "%s block %dx%d of %dx%d, threads %s, streaming %s" % (kind, r["cx"], r["cy"], g["nx"], g["ny"], r["threads"], r["stream"])
        out.evals += M.same_outputs(out, "unit-" + kind, res[0], res[i + 1], what)
        if kind == "SMP":
            out.evals += len(rows[0][0])
            if rows[0][1] != rows[i + 1][1] or rows[0][0] != rows[i + 1][0]:
                out.fail("unit-SMP", "%s: sample %s, expected %s" % (what, rows[i + 1][0][:5], rows[0][0][:5]))
    if differs:
        out.nontrivial = sum(int((o.data != o.nodata[0]).sum()) for o in res[0].values()) + (len(rows[0][0]) if rows[0] else 0)
    out.evals = max(out.evals, 1)
    out.label(kind)
    if not res[0] and not (rows[0] and rows[0][0]):
        out.label("no output " + kind)
    out.label("masked" if case["mask"] is not None else "unmasked")
    out.sample = dict(kind=kind, files=sorted(res[0])[:5], tiles=len(g["tiles"]))
    return out
