"""Synthetic mixtures of generated libraries: every mixture is decoded."""
import math
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
from harness import Outcome

ID = "C58"
NONDETERMINISTIC = True
RULE = ("a case is a generated library (2-5 classes, one indicator feature per sample, so that the fraction of every sample is readable from a mixture) mixed under generated settings, or a faulty parameter file; "
        "one evaluation = one mixture; distinct non-trivial = mixtures of at least two samples")
TIERS = {"quick": dict(examples=600, budget=25), "thorough": dict(examples=3000, budget=70)}
ASSUMPTIONS = ["the tool draws from an unseeded generator; a frequency is judged wrong if the Chernoff bound of its probability is below 1e-11"]
SCALE = 1e9
FAULTS = ["drop", "class", "target", "complexity", "likelihood-length", "likelihood-sum", "class-likelihood", "features", "response", "dir", "logical", "number", "iterations"]


@st.composite
def strategy_(draw, tier):
    k = draw(st.integers(2, 5))
    ids = draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 7, 10, 100]), min_size=k, max_size=k, unique=True))
    sizes = [draw(st.sampled_from([1, 2, 3, 8, 25])) for _ in ids]
    use = draw(st.lists(st.sampled_from(ids), min_size=2, max_size=k, unique=True)) if draw(st.booleans()) else None
    cl = use or sorted(ids)
    comp = sorted(draw(st.lists(st.integers(1, len(cl)), min_size=1, max_size=3, unique=True)))
    lik = draw(st.sampled_from(["PROPORTIONAL", "EQUALIZED", "custom"])) if use else draw(st.sampled_from(["PROPORTIONAL", "EQUALIZED"]))
    return dict(ids=ids, sizes=sizes, use=use, comp=comp, mixw=[draw(st.integers(1, 9)) for _ in comp], lik=lik, clw=[draw(st.integers(1, 9)) for _ in cl], within=draw(st.booleans()),
                original=draw(st.booleans()), n=draw(st.sampled_from([1, 20, 400, 1500])), iters=draw(st.integers(1, 2)), targets=draw(st.lists(st.sampled_from(cl), min_size=1, max_size=2, unique=True)),
                seed=draw(st.integers(0, 2 ** 31)), fault=draw(st.sampled_from([None] * 12 + FAULTS)), base=draw(st.sampled_from(["SYNTHMIX", "m"])))


def strategy(tier):
    return strategy_(tier)


def norm(w, digits=4):
    v = [round(x / sum(w), digits) for x in w]
    v[-1] = round(1 - sum(v[:-1]), digits)
    return v


def unlikely(k, n, q):
    """Chernoff bound: k of n draws of probability q (or farther off) has a probability below 1e-11."""
    if n < 1:
        return False
    a = k / n
    d = (a * math.log(a / q) if a else 0.0) + ((1 - a) * math.log((1 - a) / (1 - q)) if a < 1 and q < 1 else 0.0 if a == 1 or q < 1 else math.inf)
    return n * d > 26


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    rng = np.random.default_rng(case["seed"])
    resp = np.repeat(case["ids"], case["sizes"])
    rng.shuffle(resp)
    ns = len(resp)
    feat = np.eye(ns) * SCALE
    np.savetxt(ctx.dir + "/f.txt", feat, "%.1f")
    np.savetxt(ctx.dir + "/r.txt", resp, "%d")
    os.makedirs(ctx.dir + "/o")
    cl = case["use"] or sorted(case["ids"])
    mixl = norm(case["mixw"])
    p = dict(FILE_FEATURES=ctx.dir + "/f.txt", FILE_RESPONSE=ctx.dir + "/r.txt", USE_CLASSES=" ".join(map(str, case["use"])) if case["use"] else "ALL", SYNTHETIC_MIXTURES=str(case["n"]),
             INCLUDE_ORIGINAL=str(case["original"]).upper(), MIXING_COMPLEXITY=" ".join(map(str, case["comp"])), MIXING_LIKELIHOOD=" ".join(map(str, mixl)), WITHIN_CLASS_MIXING=str(case["within"]).upper(),
             CLASS_LIKELIHOOD=" ".join(map(str, norm(case["clw"]))) if case["lik"] == "custom" else case["lik"], ITERATIONS=str(case["iters"]), TARGET_CLASS=" ".join(map(str, case["targets"])),
             DIR_MIXES=ctx.dir + "/o", BASE_MIXES=case["base"])
    fault = case["fault"]
    if fault == "drop":
        del p[sorted(p)[case["seed"] % len(p)]]
    elif fault == "class":
        p["USE_CLASSES"] = " ".join(map(str, cl + [99]))
        p["CLASS_LIKELIHOOD"] = "EQUALIZED"
    elif fault == "target":
        p["TARGET_CLASS"] = p["TARGET_CLASS"] + " 99"
    elif fault == "complexity":
        p["MIXING_COMPLEXITY"] = " ".join(["0"] + p["MIXING_COMPLEXITY"].split()[1:])
    elif fault == "likelihood-length":
        p["MIXING_LIKELIHOOD"] = p["MIXING_LIKELIHOOD"] + " 0.0"
    elif fault == "likelihood-sum":
        p["MIXING_LIKELIHOOD"] = " ".join(["0.7"] * len(case["comp"]))
    elif fault == "class-likelihood":
        p["USE_CLASSES"] = " ".join(map(str, cl))
        p["CLASS_LIKELIHOOD"] = " ".join(map(str, norm([1] * (len(cl) + 1))))
    elif fault in ("features", "response", "dir"):
        p[dict(features="FILE_FEATURES", response="FILE_RESPONSE", dir="DIR_MIXES")[fault]] += "x"
    elif fault == "logical":
        p[["INCLUDE_ORIGINAL", "WITHIN_CLASS_MIXING"][case["seed"] % 2]] = "MAYBE"
    elif fault == "number":
        p["SYNTHETIC_MIXTURES"] = "0"
    elif fault == "iterations":
        p["ITERATIONS"] = "0"
    with open(ctx.dir + "/p.prm", "w") as f:
        f.write("++PARAM_SYNTHMIX_START++\n\n# comment\n" + "".join("%s = %s\n" % kv for kv in p.items()) + "++PARAM_SYNTHMIX_END++\n")
    r = F.run([ctx.exe("force-synthmix"), ctx.dir + "/p.prm"], cwd=ctx.dir, timeout=90)
    if r.timeout:
        out.label("timeout")
        return out
    got = sorted(os.listdir(ctx.dir + "/o"))
    if fault:
        out.label("refused")
        out.nontrivial = 1
        if r.rc == 0 or got:
            out.fail("refuse", "fault %s: exit %s, files %s" % (fault, r.rc, got[:3]))
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    want = sorted("%s_%s_CLASS-%03d_ITERATION-%03d.txt" % (case["base"], w, t, i) for w in ("FEATURES", "RESPONSE") for t in case["targets"] for i in range(1, case["iters"] + 1))
    if got != want:
        out.fail("files", "%s, expected %s" % (got, want))
        return out
    count = {c: int((resp == c).sum()) for c in cl}
    L = dict(zip(cl, norm(case["clw"]))) if case["lik"] == "custom" else {c: 1.0 for c in cl} if case["lik"] == "EQUALIZED" else dict(count)
    out.evals = 0
    for t in case["targets"]:
        drawn, ncomp, ndraw, nrows = {}, {}, 0, 0
        seen = []
        for it in range(1, case["iters"] + 1):
            nm = "%s/o/%s_%%s_CLASS-%03d_ITERATION-%03d.txt" % (ctx.dir, case["base"], t, it)
            X = np.loadtxt(nm % "FEATURES", ndmin=2)
            Y = np.loadtxt(nm % "RESPONSE", ndmin=1)
            exp = case["n"] + (ns if case["original"] else 0)
            if len(X) != exp or len(Y) != exp:
                out.fail("number", "%d feature rows and %d responses, expected %d" % (len(X), len(Y), exp))
                return out
            if case["original"]:
                if not np.array_equal(X[case["n"]:], feat) or not np.array_equal(Y[case["n"]:], (resp == t).astype(float)):
                    out.fail("original", "the original samples are not appended as 0/1 mixtures of class %d" % t)
                X, Y = X[:case["n"]], Y[:case["n"]]
            f = X / SCALE
            seen.append(f)
            if (f < -1e-9).any() or (abs(f.sum(1) - 1) > 1e-8).any():
                out.fail("sum", "fractions of a mixture sum to %r" % f.sum(1)[np.argmax(abs(f.sum(1) - 1))])
            share = f[:, resp == t].sum(1)
            bad = np.argwhere(abs(share - Y) > 0.000051)
            if len(bad):
                i = bad[0][0]
                out.fail("response", "mixture of %s: response of class %d is %s, its share is %.5f" % ({int(resp[j]): round(f[i, j], 4) for j in np.argwhere(f[i] > 0).ravel()}, t, Y[i], share[i]))
            for row in f:
                m = np.argwhere(row > 0).ravel()
                cs = [int(c) for c in resp[m]]
                if any(c not in cl for c in cs):
                    out.fail("classes", "mixture holds classes %s, allowed %s" % (cs, cl))
                if len(m) > max(case["comp"]):
                    out.fail("complexity", "%d samples mixed, allowed %s" % (len(m), case["comp"]))
                if not case["within"]:
                    if len(set(cs)) != len(cs):
                        out.fail("within", "mixture of classes %s although within-class mixing is off" % cs)
                    if len(m) not in case["comp"]:
                        out.fail("complexity", "%d samples mixed, allowed %s" % (len(m), case["comp"]))
                    ncomp[len(m)] = ncomp.get(len(m), 0) + 1
                    if len(m) == 2:
                        ndraw += 1
                        for c in cs:
                            drawn[c] = drawn.get(c, 0) + (c != t)
                elif case["comp"] == [2]:
                    ndraw += 1
                    o = [c for c in cs if c != t] or [t]
                    drawn[o[0]] = drawn.get(o[0], 0) + 1
                if t not in cs:
                    out.fail("target", "mixture of %s does not contain the target class %d" % (cs, t))
                out.nontrivial += len(m) > 1
                nrows += 1
            if out.fails:
                return out
        if len(seen) == 2 and case["n"] >= 20 and max(case["comp"]) > 1 and np.array_equal(seen[0], seen[1]):
            out.fail("iterations", "both iterations hold the same mixtures")
        if not case["within"]:
            for c, q in zip(case["comp"], mixl):
                if unlikely(ncomp.get(c, 0), nrows, q):
                    out.fail("complexity-likelihood", "complexity %d occurs in %d of %d mixtures, likelihood %s" % (c, ncomp.get(c, 0), nrows, q))
        pool = {c: L[c] for c in cl if case["within"] or c != t}
        for c in pool:
            q = pool[c] / sum(pool.values())
            if unlikely(drawn.get(c, 0), ndraw, q):
                out.fail("class-likelihood", "class %d was drawn in %d of %d two-sample mixtures with class %d, likelihood %.4f" % (c, drawn.get(c, 0), ndraw, t, q))
        out.evals += nrows
    out.label(case["lik"] + (" within" if case["within"] else ""))
    out.sample = dict(classes=dict(zip(map(str, case["ids"]), case["sizes"])), use=case["use"], complexity=case["comp"], n=case["n"])
    return out
