"""Generated templates: filled in with the values of a scenario they run, and every parameter they list is required."""
import os
import re

import numpy as np
from hypothesis import strategies as st

import c40
import fcube as F
import modules as M
from harness import Outcome

ID = "C41"
RULE = ("a case writes the template of a module with and without comments over an existing file or a new one, fills it with the values of a generated scenario, runs it, and leaves out listed parameters; "
        "one evaluation = one template or program run; distinct non-trivial = program runs")
TIERS = {"quick": dict(examples=1500, budget=30), "thorough": dict(examples=6000, budget=75)}
ASSUMPTIONS = ["the rules of the user (values that are not given by the scenario) are those of the template"]
MODULES = c40.KINDS + ["SYNTHMIX"]


@st.composite
def strategy_(draw, tier):
    kind = draw(st.sampled_from(MODULES))
    if kind == "SYNTHMIX":
        sc = dict(kind=kind, seed=draw(st.integers(0, 999)))
    else:
        sc = draw(c40.strategy("quick").map(lambda c: c["sc"])) if draw(st.booleans()) else None
        if sc is None or sc["kind"] != kind:
            sc = draw(scene(kind))
    return dict(sc=sc, drop=draw(st.integers(0, 99)), n=draw(st.sampled_from([40, 20, 5])), compact=draw(st.booleans()), exists=draw(st.booleans()),
                bad=draw(st.sampled_from([None, None, None, "tsa", "LEVEL1", "", "TSAX", "ALL"])))


@st.composite
def scene(draw, kind):
    if kind in ("TRAIN", "LEVEL2", "L2IMP", "CFIMP"):
        sc = dict(kind=kind, seed=draw(st.integers(0, 999)))
        if kind == "TRAIN":
            sc.update(method=draw(st.sampled_from(["RFC", "RFR", "SVR", "SVC"])))
        elif kind == "LEVEL2":
            sc.update(sensor=draw(st.sampled_from([5, 7, 8, 9])), tile=draw(st.booleans()))
        else:
            sc.update(nx=7, ny=8, h=2, ht=1, pattern="groups", noise=5.0, cloud=0.1, void=False, cvoid=0.0, coarse="follow", mask=None, window=[1, 180, 365],
                      fine=[[30, "SEN2A"], [400, "SEN2B"]], acq=[20], fields=1, first=2015, bands=2, years=[2015, 2016])
        return sc
    sc = draw(M.scenario([kind], sizes=(6, 8)))
    sc["grid"]["tiles"] = sc["grid"]["tiles"][:1]
    return sc


def strategy(tier):
    return strategy_(tier)


def pairs(text):
    """(first line, [(name, value)], last line, comments?)"""
    lines = [l.strip() for l in text.split("\n") if l.strip()]
    out, com = [], 0
    for l in lines[1:-1]:
        if l.startswith("#"):
            com += 1
            continue
        m = re.match(r"^([A-Z0-9_]+)\s*=\s*(.*)$", l)
        out.append((m.group(1), m.group(2).strip()) if m else (None, l))
    return lines[0] if lines else "", out, lines[-1] if lines else "", com


def fill(text, values, drop=None):
    """the template with values replaced; the lines of a repeated parameter are all given at its first place"""
    done, out = set(), []
    for l in text.split("\n"):
        m = re.match(r"^\s*([A-Z0-9_]+)\s*=", l)
        if not m or l.lstrip().startswith("#"):
            out.append(l)
            continue
        k = m.group(1)
        if k == drop:
            continue
        if k not in values:
            out.append(l)
        elif k not in done:
            v = values[k]
            out += ["%s = %s" % (k, x) for x in (v if isinstance(v, list) else [v])]
            done.add(k)
    return "\n".join(out)


def synthmix(ctx, seed):
    rng = np.random.default_rng(seed)
    resp = np.repeat([1, 2, 3, 4], 4)
    np.savetxt(ctx.dir + "/f.txt", rng.integers(0, 9000, (16, 3)), "%d")
    np.savetxt(ctx.dir + "/r.txt", resp, "%d")
    os.makedirs(ctx.dir + "/o")
    return dict(FILE_FEATURES=ctx.dir + "/f.txt", FILE_RESPONSE=ctx.dir + "/r.txt", DIR_MIXES=ctx.dir + "/o", SYNTHETIC_MIXTURES=30, ITERATIONS=1)


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    kind = case["sc"]["kind"]
    out.label(kind)
    # templates
    text = {}
    for compact in (False, True):
        f = ctx.dir + "/t%d.prm" % compact
        if case["exists"]:
            with open(f, "w") as fp:
                fp.write("old content\n" * 2000)
        r = F.run([ctx.exe("force-parameter")] + (["-c"] if compact else []) + [f, kind], cwd=ctx.dir, timeout=30)
        out.evals += 1
        if r.rc != 0 or not os.path.exists(f):
            out.fail("template", "%s: exit %s %s" % (kind, r.rc, r.tail()))
            return out
        text[compact] = open(f, encoding="utf-8", errors="replace").read()
    a, b = pairs(text[False]), pairs(text[True])
    if a[:3] != b[:3]:
        out.fail("compact", "%s: the compact template differs: %s" % (kind, sorted(set(a[1]) ^ set(b[1]))[:4]))
    if a[0] != "++PARAM_%s_START++" % kind or a[2] != "++PARAM_%s_END++" % kind or any(k is None for k, _ in a[1]):
        out.fail("form", "%s: %s ... %s %s" % (kind, a[0], a[2], [v for k, v in a[1] if k is None][:2]))
        return out
    listed = list(dict.fromkeys(k for k, _ in a[1]))
    if case["bad"] is not None:
        f = ctx.dir + "/bad.prm"
        r = F.run([ctx.exe("force-parameter"), f, case["bad"]], cwd=ctx.dir, timeout=30)
        out.evals += 1
        if r.rc == 0 or os.path.exists(f):
            out.fail("module", "a template of %r was written" % case["bad"])
    # fill in
    if kind == "SYNTHMIX":
        p = vals = synthmix(ctx, case["sc"]["seed"])
    else:
        kind, p = c40.build(ctx, case["sc"])
        for k in ("DIR_LOWER", "DIR_HIGHER", "DIR_PROVENANCE"):
            if k in p:
                os.makedirs(p[k], exist_ok=True)
        d = M.defaults(kind)
        vals = {k: v for k, v in p.items() if k not in d or str(v) != str(d[k])}

    def go(t, timeout=60):
        if kind == "SYNTHMIX":
            for n in os.listdir(ctx.dir + "/o"):
                os.remove(ctx.dir + "/o/" + n)
            with open(ctx.dir + "/v.prm", "w") as fp:
                fp.write(t)
            r = F.run([ctx.exe("force-synthmix"), ctx.dir + "/v.prm"], cwd=ctx.dir, timeout=timeout)
            return r, {n: 1 for n in os.listdir(ctx.dir + "/o")}
        c40.clean(ctx, kind, p)
        r = c40.execute(ctx, kind, text=t, timeout=timeout)
        return r, c40.products(ctx, kind, p)
    r, pr = go(fill(text[case["compact"]], vals))
    out.evals += 1
    if r.timeout:
        out.label("timeout")
        return out
    out.nontrivial += 1
    if r.rc != 0:
        out.fail("accept", "%s: the filled template was refused: exit %s %s" % (kind, r.rc, r.tail()))
        return out
    r2, pr2 = go(fill(text[not case["compact"]], vals))
    out.evals += 1
    if not r2.timeout and pr2 != pr:
        out.fail("same", "%s: the templates with and without comments give different results (exit %s)" % (kind, r2.rc))
    # every listed parameter is required
    # an interval of the list, at some place of it
    for n in range(case["n"] if kind != "SYNTHMIX" else 3):
        k = listed[(case["drop"] * len(listed) // 100 + n) % len(listed)]
        r, pr = go(fill(text[True], vals, drop=k))
        out.evals += 1
        if r.timeout:
            continue
        out.nontrivial += 1
        if r.rc == 0 or pr:
            out.fail("required", "%s: %s is in the template, but is not required: exit %s, products %s" % (kind, k, r.rc, sorted(pr)[:2]))
        elif k not in r.out:
            out.fail("named", "%s: the message does not name the missing %s: %s" % (kind, k, r.tail()))
    out.sample = dict(kind=kind, parameters=len(listed), left_out=k)
    return out
