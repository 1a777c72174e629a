"""Library completeness against a direct computation of the distance to the nearest library entry."""
import numpy as np
from hypothesis import strategies as st

import feat
import hl
import modules as M
from harness import Outcome

ID = "C37"
RULE = ("a case is a cube of 1-4 tiles with generated features and 1-3 generated libraries of 1-15 entries, rescaled or not; one evaluation = one value; "
        "distinct non-trivial = values of pixels that are compared with a library")
TIERS = {"quick": dict(examples=1300, budget=25), "thorough": dict(examples=4000, budget=70)}
ASSUMPTIONS = ["distances above the 16-bit range are not judged", "rescaling needs libraries in which every feature varies"]


@st.composite
def strategy_(draw, tier):
    sc = draw(feat.scene(values=("any", "few", "smooth"), nodatas=(-9999, -9999, -1, 0)))
    sc["rescale"] = draw(st.booleans())
    sc["libs"] = draw(st.lists(st.sampled_from([5, 3, 15, 4] + ([] if sc["rescale"] else [1, 2])), min_size=1, max_size=3))
    sc["sep"] = draw(st.sampled_from([" ", "  ", "\t"]))
    sc["near"] = draw(st.booleans())
    sc["decimals"] = draw(st.sampled_from([0, 2]))
    return sc


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    g = case["grid"]
    b = feat.build(ctx, case, "LIB", LIB_RESCALE="TRUE" if case["rescale"] else "FALSE", LIB_BASE="LC", DIR_LIBRARY=ctx.dir)
    nf = len(b.bands)
    rng = np.random.default_rng([case["seed"], 77])
    libs, names = [], []
    some = [np.stack(f).reshape(nf, -1).T for t, f in b.feat.items() if b.complete[t]]
    lo, hi = {"few": (-2, 8)}.get(case["values"], (-3000, 9999))
    for k, n in enumerate(case["libs"]):
        lib = rng.uniform(lo, hi, (n, nf))
        if case["near"] and some:       # some entries are pixels of the image
            px = some[0][rng.integers(0, len(some[0]), n)]
            use = (rng.random(n) < 0.5) & (px != b.nd).all(1)
            lib[use] = px[use]
        lib = np.round(lib, case["decimals"])
        if case["rescale"]:             # every feature varies
            lib[0], lib[1] = lo, hi
        names.append("lib%d.txt" % (3 - k))
        with open(ctx.dir + "/" + names[-1], "w") as f:
            f.write("".join(case["sep"].join("%.*f" % (case["decimals"], v) for v in row) + "\n" for row in lib))
        libs.append(lib)
    b.p["FILE_LIBRARY"] = " ".join(names)
    r = M.run(ctx, "LIB", b.p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    outs = hl.outputs(b.p["DIR_HIGHER"])
    exp_files = {"%s/LC_HL_LIB_MAE.tif" % feat.tile_name(t) for t in feat.expected_tiles(b)}
    if set(outs) != exp_files:
        out.fail("files", "missing %s, unexpected %s" % (sorted(exp_files - set(outs))[:3], sorted(set(outs) - exp_files)[:3]))
    bn = [n[:-4] for n in names] + ["LIBRARY-SUMMARY"]
    for t in feat.expected_tiles(b):
        k = "%s/LC_HL_LIB_MAE.tif" % feat.tile_name(t)
        if k not in outs:
            continue
        a = outs[k]
        if a.names != bn:
            out.fail("names", "%s: bands %s, expected %s" % (k, a.names, bn))
            continue
        z = np.stack(b.feat[t]).reshape(nf, -1).T.astype(float)
        ok = z != b.nd
        sel = (b.mask[t] == 1).ravel() & (ok.all(1) if case["exclude"] else ok.any(1))
        exp = []
        for lib in libs:
            x, y = z, lib
            if case["rescale"]:
                m, s = lib.mean(0), lib.std(0, ddof=1)
                x, y = (z - m) / s, (lib - m) / s
            d = np.abs(x[:, None, :] - y[None]) * ok[:, None, :]
            exp.append((d.sum(2) / np.maximum(ok.sum(1), 1)[:, None]).min(1) * (1000 if case["rescale"] else 1))
        exp.append(np.min(exp, 0))
        for i, e in enumerate(exp):
            got = a.data[i].ravel().astype(int)
            judge = sel & (e < 32700)
            bad = judge & ((got < np.trunc(e - 1e-4)) | (got > np.trunc(e + 1e-4))) | ~sel & (got != b.nd)
            out.evals += int(judge.sum() + (~sel).sum())
            out.nontrivial += int(judge.sum())
            if bad.any():
                p = int(np.flatnonzero(bad)[0])
                out.fail("distance" if sel[p] else "nodata", "%s band %d (%s) pixel %s: %d, expected %s (features %s); %d values differ" %
                         (k, i + 1, bn[i], divmod(p, g["nx"]), got[p], "%.4f" % e[p] if sel[p] else "nodata", z[p].tolist(), bad.sum()))
    out.label("rescaled" if case["rescale"] else "plain")
    out.label("exclude" if case["exclude"] else "keep")
    out.label("libraries %d" % len(libs))
    if not exp_files:
        out.label("no tile")
    out.sample = dict(libraries=case["libs"], features=nf, rescale=case["rescale"])
    return out
