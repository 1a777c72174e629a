"""Parameter files with single faults of known verdict, neutral rewrites and free garbage, run through the programs that read them."""
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
import fl1
import hl
import improphe as I
import modules as M
import paramdoc as D
from harness import Outcome

ID = "C40"
SANITIZED = True
RULE = ("a case is a valid parameter file of a generated scenario (time series, best-available-pixel, clear-sky, user function, texture, landscape, machine learning, library, sampling, training, Level 2 processing, ImproPhe) "
        "with 4-12 variants: one or two faults, other valid values, rewritten layout, or garbage, and up to 60 neighbours in the list of all its single faults; one evaluation = one program run; "
        "distinct non-trivial = variants with a known verdict")
TIERS = {"quick": dict(examples=2000, budget=48), "thorough": dict(examples=6000, budget=80)}
ASSUMPTIONS = ["numbers written as text, surplus values of scalars, repeated and unknown parameters are only required not to crash",
               "ends of open documented ranges are not probed"]
KINDS = ["TSA", "LEVEL3", "CSO", "UDF", "TXT", "LSM", "ML", "LIB", "SMP", "TRAIN", "LEVEL2", "L2IMP", "CFIMP"]
GARBAGE = ["NaN", "inf", "-1e308", "1e999", "99999999999999999999", "abc", "%s%n%s", "A" * 900, "B" * 3000, "1 " * 700, "NULL", "TRUE", "0x10", "-", "\t7", "é中", "=", "= =", "1,2", "'x'", "0",
           "-1", "X " * 2000]


def variants():
    return st.lists(st.tuples(st.sampled_from(["fault", "fault", "fault", "fault2", "accept", "layout", "garbage", "cross"]), st.integers(0, 2 ** 31 - 1)), min_size=4, max_size=12)


@st.composite
def strategy_(draw, tier):
    kind = KINDS[draw(st.integers(0, 2 ** 20)) * 2654435761 % 2 ** 32 * 13 >> 32]     # evenly spread
    if kind == "TRAIN":
        sc = dict(kind=kind, seed=draw(st.integers(0, 999)), method=draw(st.sampled_from(["RFC", "RFR", "SVR", "SVC"])))
    elif kind == "LEVEL2":
        sc = dict(kind=kind, seed=draw(st.integers(0, 999)), sensor=draw(st.sampled_from([5, 7, 8, 9])), tile=draw(st.booleans()))
    elif kind in ("L2IMP", "CFIMP"):
        sc = dict(kind=kind, seed=draw(st.integers(0, 999)), nx=7, ny=8, h=2, ht=1, pattern="groups", noise=5.0, cloud=0.1, void=False, cvoid=0.0, coarse="follow", mask=None,
                  window=draw(st.sampled_from([[1, 365], [1, 180, 365]])), fine=[[30, "SEN2A"], [400, "SEN2B"]], acq=[20], fields=1, first=2015, bands=2, years=[2015, 2016])
    else:
        sc = draw(M.scenario([kind], sizes=(6, 8)))
        sc["grid"]["tiles"] = sc["grid"]["tiles"][:1]
    return dict(sc=sc, var=[list(v) for v in draw(variants())], sweep=[draw(st.integers(0, 99)), draw(st.sampled_from([60, 25, 0]))])


def strategy(tier):
    return strategy_(tier)


def build(ctx, sc):
    if sc["kind"] in ("L2IMP", "CFIMP"):
        return sc["kind"], I.build(ctx, sc)[0]
    if sc["kind"] == "LEVEL2":
        rng = np.random.default_rng(sc["seed"])
        ny, nx = (int(v) for v in rng.integers(14, 24, 2))
        scene = fl1.Scene(sc["sensor"], nx, ny, 300000, 5800020, 33)
        fl1.natural(scene, rng, [("soil", 2, 4)])
        os.makedirs(ctx.dir + "/l1")
        p = fl1.params(ctx.dir, DO_TILE="TRUE" if sc["tile"] else "FALSE", TILE_SIZE="300 300")
        with open(ctx.dir + "/scene.txt", "w") as f:
            f.write(scene.write(ctx.dir + "/l1"))
        with open(p["FILE_QUEUE"], "w") as f:
            f.write("\n")
        return "LEVEL2", p
    if sc["kind"] != "TRAIN":
        kind, p = M.build(ctx, sc)
        if kind in ("TXT", "LSM"):
            p[kind + "_RADIUS"] = 10
        if kind == "SMP":
            M.smp_files(ctx, p, "o")
        return kind, p
    rng = np.random.default_rng(sc["seed"])
    x = rng.integers(0, 9000, (40, 2))
    t = x.mean(1)
    y = np.digitize(t, [4000, 5500]) + 1 if sc["method"] in ("RFC", "SVC") else t / 10000.0
    np.savetxt(ctx.dir + "/x.txt", x, "%d")
    np.savetxt(ctx.dir + "/y.txt", y, "%d" if sc["method"] in ("RFC", "SVC") else "%.6f")
    p = M.defaults("TRAIN")
    p.update(FILE_FEATURES=ctx.dir + "/x.txt", FILE_RESPONSE=ctx.dir + "/y.txt", FILE_MODEL=ctx.dir + "/m.xml", FILE_LOG=ctx.dir + "/log.txt",
             ML_METHOD=sc["method"], PERCENT_TRAIN=100, RANDOM_SPLIT="FALSE", RF_NTREE=5, RF_DT_MAXDEPTH=4, SVM_KFOLD=2, SVM_C_GRID="1 10 10",
             SVM_GAMMA_GRID="1 10 10", SVM_MAXITER=100, FEATURE_WEIGHTS="EQUALIZED")
    return "TRAIN", p


def values(p, n):
    v = p[n]
    return str(v[0] if isinstance(v, list) else v).split()


def groups_(p):
    """names of the parameters each kind of fault applies to"""
    names = sorted(p)
    groups = {k: names for k in ("drop", "novalue", "comment")}
    groups["range"] = [n for n in names if n in D.RANGE]
    groups["positive"] = [n for n in names if n in D.POSITIVE]
    groups["count"] = [n for n in names if n in D.FIXED or n in D.RANGE and D.RANGE[n][3]]
    groups["enum"] = [n for n in names if n in D.ENUM]
    groups["logical"] = [n for n in names if n in D.LOGICALS]
    groups["missing"] = [n for n in names if n in D.EXIST + D.NULL_OR_EXIST]
    groups["base"] = [n for n in names if n in D.BASE + D.NULL_OR_BASE]
    groups["exists"] = [n for n in names if n in D.NOT_EXIST]
    groups["feature"] = [n for n in names if n == "INPUT_FEATURE"]
    groups["model"] = [n for n in names if n == "FILE_MODEL" and isinstance(p[n], list)]
    return groups


def combos(p):
    """all single faults: (kind, name, side)"""
    g = groups_(p)
    out = []
    for k in sorted(g):
        for n in g[k]:
            if k == "range":
                out += [(k, n, s) for s, b in (("lo", D.RANGE[n][0]), ("hi", D.RANGE[n][1])) if b is not None]
            else:
                out.append((k, n, None))
    return out


def fault(rng, p, ctx):
    """(parameters with one fault, name, description); the files named by the fault never exist"""
    groups = groups_(p)
    weight = dict(drop=1, novalue=1, comment=1, range=6, positive=1, count=2, enum=3, logical=3, missing=3, base=1, exists=1, feature=1, model=1)
    ks = [k for k in sorted(groups) if groups[k] for _ in range(weight[k])]
    k = ks[rng.integers(len(ks))]
    n = groups[k][rng.integers(len(groups[k]))]
    return fault_at(rng, p, ctx, k, n)


def fault_at(rng, p, ctx, k, n, side=None):
    q = dict(p)
    if k == "drop":
        del q[n]
    elif k == "novalue":
        q[n] = ""
    elif k == "comment":
        q["#" + n] = q.pop(n)
    elif k == "range":
        lo, hi, integer, num, _ = D.RANGE[n]
        v = values(p, n)
        if side is None:
            side = [s for s, b in (("lo", lo), ("hi", hi)) if b is not None]
            side = side[rng.integers(len(side))]
        step = [1, 1000][rng.integers(2)] if integer else [0.02, 1, 1000][rng.integers(3)]
        bad = lo - step if side == "lo" else hi + step
        v[rng.integers(len(v))] = "%d" % bad if integer else "%.8g" % bad if abs(bad) < 1e5 else "%.1f" % bad
        q[n] = " ".join(v)
    elif k == "positive":
        v = values(p, n)
        v[rng.integers(len(v))] = ["0", "-10"][rng.integers(2)]
        q[n] = " ".join(v)
    elif k == "count":
        v = values(p, n)
        q[n] = " ".join(v + v[:1] if rng.random() < 0.5 else v[:-1])
    elif k in ("enum", "logical"):
        v = values(p, n)
        i = rng.integers(len(v))
        ok = v[i]
        v[i] = [ok.lower() if ok.lower() != ok else ok.upper(), ok + "X", "X" + ok, "1", "YES", ok[:-1]][rng.integers(6)]
        if n in D.ENUM and v[i] in D.ENUM[n][0] or v[i] in ("TRUE", "FALSE", ""):
            v[i] = "NOT_A_VALUE"
        q[n] = " ".join(v)
    elif k == "missing":
        q[n] = ctx.dir + "/does-not-exist/x"
    elif k == "base":
        v = values(p, n)
        v[rng.integers(len(v))] = ["some/file.txt", "noextension"][rng.integers(2)]
        q[n] = " ".join(v)
    elif k == "exists":
        f = ctx.dir + "/present.txt"
        open(f, "w").close()
        q[n] = f
    elif k == "feature":
        v = list(p[n])
        i = rng.integers(len(v))
        w = v[i].split()
        v[i] = [" ".join(["./" + w[0]] + w[1:]), " ".join([w[0].replace(".", "")] + w[1:]), " ".join(w[:1] + ["-2"] + w[1:])][rng.integers(3)]
        q[n] = v
    elif k == "model":
        v = list(p[n])
        i = rng.integers(len(v))
        v[i] = v[i] + [" sub/x.xml", " noextension"][rng.integers(2)]
        q[n] = v
    return q, n, k


def accept(rng, p):
    """(parameters with other valid values, names changed)"""
    names = [n for n in sorted(p) if n in D.RANGE and D.RANGE[n][4] or n in D.ENUM and D.ENUM[n][2] or n in D.HARMLESS]
    q, ch = dict(p), []
    for n in [names[i] for i in rng.permutation(len(names))[:rng.integers(1, 4)]]:
        if n in D.RANGE:
            _, _, _, num, safe = D.RANGE[n]
            k = 1 if num is None else num or int(rng.integers(1, 4))
            q[n] = " ".join(str(safe[rng.integers(len(safe))]) for _ in range(k))
        elif n in D.ENUM:
            ok, lst, _ = D.ENUM[n]
            k = int(rng.integers(1, 4)) if lst else 1
            q[n] = " ".join(ok[i] for i in rng.permutation(len(ok))[:k])
        else:
            q[n] = ["TRUE", "FALSE"][rng.integers(2)]
        ch.append(n)
    if q.get("SPECTRAL_ADJUST") == "TRUE":
        q["TARGET_SENSOR"] = "SEN2L"
    return q, ch


def crosses(kind, p):
    """documented combinations that are refused: (name, changed parameters, words of which one must be in the message)"""
    opts = []
    if kind == "LEVEL2":
        opts += [("aod", dict(DO_AOD="FALSE", DIR_AOD="NULL"), ["DIR_AOD"]), ("topo", dict(DO_ATMO="TRUE", DO_TOPO="TRUE", FILE_DEM="NULL"), ["FILE_DEM"]),
                 ("dem", dict(USE_DEM_DATABASE="TRUE", FILE_DEM="NULL"), ["FILE_DEM"]), ("custom", dict(OUTPUT_FORMAT="CUSTOM", FILE_OUTPUT_OPTIONS="NULL"), ["FILE_OUTPUT_OPTIONS"])]
    elif kind != "TRAIN":
        opts += [("chunk", dict(CHUNK_SIZE=" ".join(str(float(v) + 3) for v in values(p, "CHUNK_SIZE"))), ["CHUNK_SIZE"]),
                 ("mask", dict(DIR_MASK=p["DIR_LOWER"], BASE_MASK="NULL"), ["BASE_MASK"]),
                 ("custom", dict(OUTPUT_FORMAT="CUSTOM", FILE_OUTPUT_OPTIONS="NULL"), ["FILE_OUTPUT_OPTIONS"])]
    if kind == "TSA":
        opts += [("sma", dict(INDEX="SMA", FILE_ENDMEM="NULL"), ["FILE_ENDMEM"]),
                 ("sma2", dict(INDEX="SMA", SMA_SUM_TO_ONE="FALSE", SMA_NON_NEG="FALSE"), ["SMA_SUM_TO_ONE"]),
                 ("pol", dict(INTERPOLATE="NONE", OUTPUT_POL="TRUE"), ["INTERPOLATE"]),
                 ("index", dict(INDEX="NDVI NOINDEX"), ["NOINDEX", "INDEX", "index"])]
    if kind == "LEVEL3":
        zero = {"SCORE_%s_WEIGHT" % w: 0 for w in "DOY YEAR CLOUD HAZE CORREL VZEN".split()}
        opts += [("weights", dict(zero, REQUIRE_AUX_PRODUCTS="NULL"), ["weight"]), ("aux", dict(SCORE_CLOUD_WEIGHT=0.5, REQUIRE_AUX_PRODUCTS="VZN"), ["DST"]),
                 ("aux2", dict(zero, SCORE_DOY_WEIGHT=1, REQUIRE_AUX_PRODUCTS="HOT"), ["HOT"])]
        for w, a in (("CLOUD", "DST"), ("HAZE", "HOT"), ("VZEN", "VZN")):
            key = "SCORE_%s_WEIGHT" % w
            opts += [("weight without " + a, dict(zero, SCORE_DOY_WEIGHT=1, REQUIRE_AUX_PRODUCTS="NULL", **{key: 0.1}), [a]),
                     (a + " without weight", dict(zero, SCORE_DOY_WEIGHT=1, REQUIRE_AUX_PRODUCTS=a), [a])]
    if kind == "LSM":
        opts += [("threshold", dict(LSM_THRESHOLD=str(p["LSM_THRESHOLD"]) + " 5"), ["LSM_THRESHOLD"]),
                 ("query", dict(LSM_THRESHOLD_TYPE=str(p["LSM_THRESHOLD_TYPE"]) + " GT"), ["LSM_THRESHOLD_TYPE"])]
    if kind in ("TXT", "LSM"):
        opts += [("radius", {kind + "_RADIUS": 13}, ["RADIUS"])]
    if kind in ("L2IMP", "CFIMP"):
        opts += [("window", dict(SEASONAL_WINDOW="100"), ["SEASONAL_WINDOW"]), ("radius", dict(KERNEL_SIZE=23), ["RADIUS"])]
    if kind == "L2IMP":
        opts += [("lowres", dict(SENSORS_LOWRES="LND08 NOSENSOR"), ["NOSENSOR", "sensor"])]
    if kind == "CFIMP":
        opts += [("years", dict(COARSE_PREDICT_YEARS="2015 2019"), ["COARSE_PREDICT_YEARS"])]
    if kind == "ML":
        opts += [("model", dict(FILE_MODEL=["nofile.xml"]), ["nofile.xml"])]
    if kind in ("TSA", "LEVEL3", "CSO", "UDF", "L2IMP", "CFIMP"):
        opts += [("sensor", dict(SENSORS="LND08 NOSENSOR"), ["NOSENSOR", "sensor"])]
    if kind == "TRAIN":
        opts += [("grid", dict(SVM_C_GRID="10 1 10"), ["SVM_C_GRID"]), ("weights", dict(FEATURE_WEIGHTS="0.1 0.2 0.3"), ["FEATURE_WEIGHTS"]),
                 ("weights2", dict(FEATURE_WEIGHTS="SOMETHING"), ["FEATURE_WEIGHTS"])]
    return opts


def cross(rng, kind, p):
    opts = crosses(kind, p)
    name, ch, words = opts[rng.integers(len(opts))]
    q = dict(p)
    q.update(ch)
    return q, name, words


def layout(rng, kind, p):
    """the same parameters in another layout"""
    lines = []
    for k, v in p.items():
        for x in (v if isinstance(v, list) else [v]):
            lines.append((k, str(x)))
    multi = {k for k, v in p.items() if isinstance(v, list)}
    order = rng.permutation(len(lines)) if rng.random() < 0.7 else np.arange(len(lines))
    fixed = [l for l in lines if l[0] in multi]
    mixed = [lines[i] for i in order if lines[i][0] not in multi]
    pos = sorted(rng.integers(0, len(mixed) + 1, len(fixed)).tolist(), reverse=True)
    for l, i in zip(reversed(fixed), pos):
        mixed.insert(i, l)
    crlf = "\r\n" if rng.random() < 0.2 else "\n"
    out = ["++PARAM_%s_START++" % kind]
    for k, v in mixed:
        if rng.random() < 0.2:
            out.append(["", "# %s = 1" % k, "#", "   ", "# comment = x # y", "#%s=TRUE" % k][rng.integers(6)])
        sp = [" ", "", "    ", "  "]
        v = v.replace(" ", [" ", "   "][rng.integers(2)])
        out.append(sp[rng.integers(4)] * int(rng.random() < 0.3) + k + sp[rng.integers(4)] + "=" + sp[rng.integers(4)] + v + sp[rng.integers(4)] +
                   (["# remark", "#", "# x = 5"][rng.integers(3)] if rng.random() < 0.2 else ""))
    if rng.random() < 0.8:
        out.append("++PARAM_%s_END++" % kind)
    return crlf.join(out) + (crlf if rng.random() < 0.8 else "")


def execute(ctx, kind, text=None, p=None, timeout=60, san=False):
    prm = ctx.dir + "/v.prm"
    if text is None:
        M.write_prm(prm, kind, p)
    else:
        with open(prm, "w", newline="") as f:
            f.write(text)
    exe = {"TRAIN": "force-train", "LEVEL2": "force-l2ps"}.get(kind, "force-higher-level")
    arg = [open(ctx.dir + "/scene.txt").read()] if kind == "LEVEL2" else []
    return F.run([ctx.exe(exe, san)] + arg + [prm], cwd=ctx.dir, timeout=timeout, env=dict(ASAN_OPTIONS="detect_leaks=0:exitcode=99", OMP_NUM_THREADS="2"))


def products(ctx, kind, p):
    if kind == "TRAIN":
        return {n: open(ctx.dir + "/" + n, "rb").read() for n in ("m.xml",) if os.path.exists(ctx.dir + "/" + n)}
    if kind == "SMP":
        return {k: sorted(open(p[k]).read().splitlines()) for k in ("FILE_SAMPLE", "FILE_RESPONSE", "FILE_COORDINATES") if os.path.exists(p[k])}
    if kind == "LEVEL2":
        return {"%s/%s" % k: F.Raster(f).data.tobytes() for k, f in fl1.products(p["DIR_LEVEL2"]).items()}
    outs = hl.outputs(p["DIR_HIGHER"])
    return {k: (a.names, a.data.tobytes()) for k, a in outs.items()}


def clean(ctx, kind, p):
    import shutil
    if kind == "TRAIN":
        for n in ("m.xml", "log.txt"):
            if os.path.exists(ctx.dir + "/" + n):
                os.remove(ctx.dir + "/" + n)
    elif kind == "SMP":
        for k in ("FILE_SAMPLE", "FILE_RESPONSE", "FILE_COORDINATES"):
            if os.path.exists(p[k]):
                os.remove(p[k])
    if kind == "LEVEL2":
        for k in ("DIR_LEVEL2", "DIR_LOG", "DIR_PROVENANCE", "DIR_TEMP"):
            shutil.rmtree(p[k], ignore_errors=True)
            os.makedirs(p[k])
    elif kind != "TRAIN":
        shutil.rmtree(p["DIR_HIGHER"], ignore_errors=True)
        os.makedirs(p["DIR_HIGHER"])


def crashed(r):
    return r.rc < 0 or r.rc >= 99 or "Sanitizer" in r.out


def run_case(case, ctx):
    out = Outcome()
    kind, p = build(ctx, case["sc"])
    for k in ("DIR_LOWER", "DIR_HIGHER", "DIR_PROVENANCE"):
        if k in p:
            os.makedirs(p[k], exist_ok=True)
    base = None
    out.evals = 0
    for i, (what, seed) in enumerate(case["var"]):
        rng = np.random.default_rng([seed, case["sc"]["seed"], i])
        text = q = None
        words, desc, verdict = [], what, None
        if what == "fault":
            q, n, k = fault(rng, p, ctx)
            desc, words, verdict = "%s %s: %s" % (k, n, q.get(n)), [n], "refuse"
            label = k
        elif what == "fault2":
            q, n, k = fault(rng, p, ctx)
            for _ in range(20):
                q2, n2, k2 = fault(rng, p, ctx)
                if n2 != n:
                    break
            q = {a: b for a, b in q.items() if a != n2}
            q.update({a: b for a, b in q2.items() if a == n2 or a == "#" + n2})
            desc, words, verdict = "%s %s and %s %s" % (k, n, k2, n2), [n, n2], "refuse"
            label = "two faults"
        elif what == "accept":
            q, ch = accept(rng, p)
            desc, verdict = "valid " + ", ".join("%s = %s" % (n, q[n]) for n in ch), "accept"
            label = "other values"
        elif what == "cross":
            q, k, words = cross(rng, kind, p)
            desc, verdict = "combination " + k, "refuse"
            label = "combination"
        elif what == "layout":
            text = layout(rng, kind, p)
            verdict = "same"
            label = "layout"
        else:
            names = [n for n in sorted(p) if n not in D.PATHS and not n.startswith("NTHREAD") and n not in
                     ("X_TILE_RANGE", "Y_TILE_RANGE", "CHUNK_SIZE", "RESOLUTION", "TXT_ITERATION", "INT_DAY", "RF_NTREE", "SVM_MAXITER", "SVM_C_GRID", "SVM_GAMMA_GRID",
                      "SVM_KFOLD", "YEAR_NUM", "DATE_RANGE", "HARMONIC_FIT_RANGE")]
            q = dict(p)
            n = names[rng.integers(len(names))]
            g = GARBAGE[rng.integers(len(GARBAGE))]
            if rng.random() < 0.3:
                g = values(p, n)[0] + g
            q[n] = g
            desc = "garbage %s = %s" % (n, g[:40])
            label = "garbage"
        clean(ctx, kind, p)
        if verdict == "same" and base is None:
            r = execute(ctx, kind, p=p)
            if r.rc != 0:
                out.fail("accept", "%s: the plain file was refused: exit %s %s" % (kind, r.rc, r.tail()))
                break
            base = products(ctx, kind, p)
            clean(ctx, kind, p)
        r = execute(ctx, kind, text=text, p=q, san=verdict is None or rng.random() < 0.1)
        out.evals += 1
        out.label(kind)
        out.label(label)
        if r.timeout:
            out.label("timeout")
            continue
        if crashed(r):
            out.fail("crash", "%s with %s: exit %s %s" % (kind, desc, r.rc, r.out[:600] if "Sanitizer" in r.out else r.tail()))
            continue
        if verdict is None:
            continue
        out.nontrivial += 1
        pr = products(ctx, kind, p)
        if verdict == "refuse":
            if r.rc == 0:
                out.fail("refuse", "%s with fault (%s) was accepted: %s" % (kind, desc, r.tail()))
            elif pr:
                out.fail("products", "%s with fault (%s) wrote %s" % (kind, desc, sorted(pr)[:3]))
            elif not any(w in r.out for w in words):
                out.fail("names", "%s with fault (%s): the message does not name it: %s" % (kind, desc, r.tail()))
        elif r.rc != 0:
            out.fail("accept", "%s with %s was refused: exit %s %s" % (kind, desc, r.rc, r.tail()))
        elif verdict == "same" and pr != base:
            out.fail("layout", "%s: another layout of the file changed the products: %s" % (kind, text[:1200]))
    # an interval of the list of all single faults, at some place of it
    cs = combos(p)
    at, num = case["sweep"]
    todo = [("combination",) + c for c in crosses(kind, p)] if num else []
    for i in range(min(num, len(cs))):
        todo.append(cs[(at * len(cs) // 100 + i) % len(cs)])
    for i, (k, n, *more) in enumerate(todo):
        rng = np.random.default_rng([case["sc"]["seed"], at, i])
        if k == "combination":
            q, words = dict(p), more[1]
            q.update(more[0])
        else:
            q, words = fault_at(rng, p, ctx, k, n, more[0])[0], [n]
        clean(ctx, kind, p)
        r = execute(ctx, kind, p=q)
        out.evals += 1
        out.label(kind)
        out.label("sweep")
        desc = "%s %s: %s" % (k, n, q.get(n))
        if r.timeout:
            out.label("timeout")
            continue
        out.nontrivial += 1
        pr = products(ctx, kind, p)
        if crashed(r):
            out.fail("crash", "%s with %s: exit %s %s" % (kind, desc, r.rc, r.tail()))
        elif r.rc == 0:
            out.fail("refuse", "%s with fault (%s) was accepted: %s" % (kind, desc, r.tail()))
        elif pr:
            out.fail("products", "%s with fault (%s) wrote %s" % (kind, desc, sorted(pr)[:3]))
        elif not any(w in r.out for w in words):
            out.fail("names", "%s with fault (%s): the message does not name it: %s" % (kind, desc, r.tail()))
    out.evals = max(out.evals, 1)
    out.sample = dict(kind=kind, last=desc)
    return out


def minimise(case, where):
    if case["sweep"][1]:
        yield dict(case, var=[])
        yield dict(case, sweep=[0, 0])
        for i in range(0, 100, 5):
            yield dict(case, var=[], sweep=[i, 4])
    for i in range(1, len(case["var"])):
        yield dict(case, var=case["var"][:i])
