"""Machine learning predictions against an independent evaluation of generated models."""
import os

import numpy as np
from hypothesis import strategies as st

import feat
import hl
import mlmodel as ML
import modules as M
from harness import Outcome

ID = "C36"
RULE = ("a case is a cube of 1-4 tiles with generated features and 1-3 model sets of 1-5 generated models (random forest or support vector machine, classification or "
        "regression); one evaluation = one value of one product; distinct non-trivial = judged values of pixels that were predicted")
TIERS = {"quick": dict(examples=1300, budget=27), "thorough": dict(examples=4000, budget=75)}
ASSUMPTIONS = ["votes that tie, decisions within float rounding of a threshold, and the uncertainty of a single model are not judged",
               "convergence is tested from the third model on", "the models of one set have the same classes and the same number of trees"]
PRODUCTS = ["MLP", "MLI", "MLU", "RFP", "RFM"]


@st.composite
def strategy_(draw, tier):
    sc = draw(feat.scene(values=("any", "positive", "smooth"), nodatas=(-9999, -9999, -1), max_tiles=3))
    sc["method"] = draw(st.sampled_from(["RFC", "RFR", "SVR", "SVC"]))
    sc["sets"] = draw(st.lists(st.sampled_from([3, 1, 2, 5, 4]), min_size=1, max_size=3))
    sc["ncls"] = [draw(st.sampled_from([3, 2, 5])) for _ in sc["sets"]]
    sc["ntree"] = draw(st.sampled_from([7, 4, 1, 15]))
    sc["depth"] = draw(st.sampled_from([3, 1, 5]))
    sc["conv"] = draw(st.sampled_from([0, 0.05, 0.3, 2]))
    sc["scale"] = draw(st.sampled_from([10000, 1000, 1, 100])) if sc["method"] in ("RFR", "SVR") else 1
    prods = ["MLP", "MLI"] + (["MLU"] if sc["method"] in ("RFR", "SVR") else []) + (["RFP", "RFM"] if sc["method"] == "RFC" else [])
    sc["prods"] = draw(st.lists(st.sampled_from(prods), min_size=1, max_size=len(prods), unique=True))
    sc["subset"] = draw(st.booleans())
    return sc


def strategy(tier):
    return strategy_(tier)


def models(case, nf, path):
    """list of sets of (file name, model)"""
    out = []
    for s, n in enumerate(case["sets"]):
        rng = np.random.default_rng([case["seed"], 31, s])
        labels = None
        if case["method"] in ("RFC", "SVC"):
            labels = sorted(rng.permutation(np.arange(1, 40))[:case["ncls"][s]].tolist())
        ms = []
        for k in range(n):
            name = "set%d-%c.xml" % (s, "qwert"[k])
            if case["method"].startswith("RF"):
                m = ML.make_forest(rng, nf, case["ntree"], case["depth"], labels)
                ML.write_forest(m, path + "/" + name)
            else:
                m = ML.make_svm(rng, nf, int(rng.integers(2, 9)), labels)
                ML.write_svm(m, path + "/" + name)
            ms.append((name, m))
        out.append(ms)
    if len(out) > 1 and case["subset"]:     # the same model may be used in several sets
        if labels is None:
            out[-1] = [out[0][0]] + out[-1]
    return out


def predict(case, sets, x):
    """{product: [(expected float, judged, kind)] per band}"""
    res = {p: [] for p in PRODUCTS}
    n = len(x)
    for ms in sets:
        if case["method"] in ("RFR", "SVR"):
            pred = np.stack([ML.forest_mean(m, x) if m["kind"] == "rf" else ML.svm_decisions(m, x)[0] for _, m in ms])
            used = np.full(n, len(ms))
            sure = np.ones(n, bool)
            done = np.zeros(n, bool)
            for k in range(2, len(ms)):
                d = np.abs(pred[:k + 1].mean(0) - pred[:k].mean(0))
                sure &= done | (np.abs(d - case["conv"]) > 1e-6)
                stop = ~done & (d < case["conv"])
                used[stop] = k + 1
                done |= stop
            mean = np.array([pred[:u, i].mean() for i, u in enumerate(used)])
            sd = np.array([pred[:u, i].std(ddof=1) if u > 1 else 0 for i, u in enumerate(used)])
            res["MLP"].append((np.clip(mean * case["scale"], -32768, 32767), sure))
            res["MLI"].append((used.astype(float), sure))
            res["MLU"].append((np.clip(sd * 10000, 0, 32767), sure & (used > 1)))
            continue
        res["MLI"].append((np.full(n, float(len(ms))), np.ones(n, bool)))
        cls, sure, tot = [], np.ones(n, bool), 0
        for _, m in ms:
            if m["kind"] == "rf":
                v = ML.forest_votes(m, x)
                top = np.sort(v, 0)
                ok = top[-1] > top[-2]
                c = np.array(m["labels"])[v.argmax(0)]
                tot = tot + v
            else:
                c, ok = ML.svm_class(m, x)
            cls.append(c)
            sure &= ok
        cls = np.stack(cls)
        labels = np.array(ms[0][1]["labels"])
        cnt = (cls[:, None, :] == labels[None, :, None]).sum(0)
        top = np.sort(cnt, 0)
        res["MLP"].append((labels[cnt.argmax(0)].astype(float), sure & (top[-1] > top[-2])))
        if case["method"] == "RFC":
            prob = tot / tot.sum(0) * 10000
            for q in prob:
                res["RFP"].append((q, np.ones(n, bool)))
            top = np.sort(prob, 0)
            res["RFM"].append((np.trunc(top[-1] + 1e-6) - np.trunc(top[-2] + 1e-6), np.ones(n, bool)))
    return res


def run_case(case, ctx):
    out = Outcome()
    g = case["grid"]
    b = feat.build(ctx, case, "ML")
    nf = len(b.bands)
    os.makedirs(ctx.dir + "/models", exist_ok=True)
    sets = models(case, nf, ctx.dir + "/models")
    b.p.update(DIR_MODEL=ctx.dir + "/models", FILE_MODEL=[" ".join(n for n, _ in ms) for ms in sets], ML_METHOD=case["method"], ML_CONVERGENCE=case["conv"],
               ML_SCALE=case["scale"], ML_BASE="PRED")
    for q in PRODUCTS:
        b.p["OUTPUT_" + q] = "TRUE" if q in case["prods"] else "FALSE"
    r = M.run(ctx, "ML", b.p)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    outs = hl.outputs(b.p["DIR_HIGHER"])
    exp_files = {"%s/PRED_HL_ML_%s.tif" % (feat.tile_name(t), q) for t in feat.expected_tiles(b) for q in case["prods"]}
    if set(outs) != exp_files:
        out.fail("files", "missing %s, unexpected %s" % (sorted(exp_files - set(outs))[:3], sorted(set(outs) - exp_files)[:3]))
    first = [os.path.splitext(ms[0][0])[0] for ms in sets]
    for t in feat.expected_tiles(b):
        z = np.stack(b.feat[t]).reshape(nf, -1).T
        x = np.float32(z / 10000.0).astype(float)
        sel = (b.mask[t] == 1).ravel()
        if case["exclude"]:
            sel &= (z != b.nd).all(1)
        res = predict(case, sets, x)
        for q in case["prods"]:
            k = "%s/PRED_HL_ML_%s.tif" % (feat.tile_name(t), q)
            if k not in outs:
                continue
            a = outs[k]
            if a.nb != len(res[q]):
                out.fail("bands", "%s has %d bands, expected %d" % (k, a.nb, len(res[q])))
                continue
            if q != "RFP" and a.names != first:
                out.fail("names", "%s: bands %s, expected %s" % (k, a.names, first))
            for i, (e, judge) in enumerate(res[q]):
                got = a.data[i].ravel().astype(int)
                eps = 2e-6 * max(case["scale"], 1) * np.maximum(1, np.abs(e) / max(case["scale"], 1)) * 3 + 1e-4 if q in ("MLP", "MLU") else 1e-4
                if q == "MLU":
                    eps = np.where(e < 5, 2.0, 0.05)
                lo, hi = np.trunc(e - eps), np.trunc(e + eps)
                lo, hi = np.maximum(lo, -32768), np.minimum(hi, 32767)
                if q == "MLI":
                    lo = hi = e
                if q == "RFM":
                    lo, hi = e - 1, e + 1
                bad = sel & judge & ((got < lo) | (got > hi))
                bad |= ~sel & (got != b.nd)
                out.evals += int((sel & judge).sum() + (~sel).sum())
                out.nontrivial += int((sel & judge).sum())
                if bad.any():
                    p = int(np.flatnonzero(bad)[0])
                    out.fail("%s %s" % (case["method"], q), "%s band %d pixel %s: %d, expected %s (features %s); %d values differ" %
                             (k, i + 1, divmod(p, g["nx"]), got[p], "%.4f" % e[p] if sel[p] else "nodata", z[p].tolist(), bad.sum()))
    out.label(case["method"])
    for q in case["prods"]:
        out.label(q)
    out.label("sets %d" % len(sets))
    if not exp_files:
        out.label("no tile")
    out.sample = dict(method=case["method"], sets=case["sets"], features=nf, products=case["prods"])
    return out
