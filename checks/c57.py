"""Parameter expansion against itertools."""
import itertools
import os

from hypothesis import strategies as st

import fcube as F
from harness import Outcome

ID = "C57"
RULE = ("a case is a generated parameter file with 1-3 replacement vectors and 2-15 body lines; one evaluation = one generated file (or one refusal); "
        "distinct non-trivial = files in which at least one placeholder was replaced")
TIERS = {"quick": dict(examples=2000, budget=20), "thorough": dict(examples=6000, budget=60)}
VALUE = st.text("abcXYZ0123456789_.-/:=", min_size=1, max_size=8).filter(lambda s: not s.startswith("-") and ".." not in s)
KEY = st.text("ABCXYZ_abc019", min_size=1, max_size=6)


@st.composite
def strategy_(draw, tier):
    keys = draw(st.lists(KEY, min_size=1, max_size=3, unique=True))
    paired = draw(st.booleans())
    n = draw(st.integers(1, 5))
    same = draw(st.integers(0, 4)) > 0
    vec = [draw(st.lists(VALUE, min_size=n if paired and same else 1, max_size=n if paired and same else 4)) for _ in keys]
    body = []
    for _ in range(draw(st.integers(2, 15))):
        parts = draw(st.lists(st.one_of(st.sampled_from(["{%" + k + "%}" for k in keys] + ["{%OTHER%}", "%" + keys[0] + "% ", keys[0], "# comment", " = ", "  ", "/data/"]), VALUE), min_size=0, max_size=5))
        body.append("P" + "".join(parts))
    return dict(keys=keys, vec=vec, body=body, mode="paired" if paired else draw(st.sampled_from([None, "all"])), sep=draw(st.sampled_from([" ", "   "])), out=draw(st.booleans()),
                head=draw(st.lists(st.sampled_from(["", "# a comment", "text"]), max_size=3)), name=draw(st.sampled_from(["main.prm", "x.y.prm", "par"])))


def strategy(tier):
    return strategy_(tier)


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    keys, vec = case["keys"], case["vec"]
    body = ["++PARAM_TRAIN_START++"] + case["body"] + ["++PARAM_TRAIN_END++"]
    head = case["head"] + ["%%%s%%:%s%s" % (k, case["sep"], case["sep"].join(v)) for k, v in zip(keys, vec)] + [""]
    f = ctx.dir + "/" + case["name"]
    with open(f, "w") as fh:
        fh.write("\n".join(head + body) + "\n")
    orig = open(f).read()
    o = ctx.dir
    cmd = [ctx.exe("force-magic-parameters")]
    if case["mode"]:
        cmd += ["-c", case["mode"]]
    if case["out"]:
        o = ctx.dir + "/o"
        os.makedirs(o)
        cmd += ["-o", o]
    r = F.run(cmd + [f], cwd=ctx.dir, timeout=60)
    if r.timeout:
        out.label("timeout")
        return out
    core = case["name"].split(".")[0]
    got = sorted(x for x in os.listdir(o) if x.startswith(core + "_") and x.endswith(".prm"))
    if open(f).read() != orig:
        out.fail("input", "the parameter file itself was changed")
    if case["mode"] == "paired" and len({len(v) for v in vec}) > 1:
        out.label("refused")
        out.nontrivial = 1
        if r.rc == 0 or got:
            out.fail("refuse", "vectors of different length were paired")
        return out
    if r.rc != 0:
        out.fail("exit", "exit %s %s" % (r.rc, r.tail()))
        return out
    combos = list(zip(*vec)) if case["mode"] == "paired" else list(itertools.product(*vec))

    def fill(combo):
        t = "\n".join(body) + "\n"
        # simultaneous replacement: values never contain placeholders
        for k, v in zip(keys, combo):
            t = t.replace("{%" + k + "%}", v)
        return t

    exp = sorted(fill(c) for c in combos)
    have = sorted(open(o + "/" + g).read() for g in got)
    if len(have) != len(exp):
        out.fail("number", "%d files for %d combinations of %s" % (len(have), len(exp), vec))
    elif have != exp:
        a, b = next((x, y) for x, y in zip(have, exp) if x != y)
        la, lb = next(((x, y) for x, y in zip(a.split("\n"), b.split("\n")) if x != y), (a, b))
        out.fail("content", "line %r, expected %r (vectors %s)" % (la, lb, dict(zip(keys, vec))))
    out.evals = len(exp)
    out.nontrivial = len(exp) if any("{%" + k + "%}" in "\n".join(body) for k in keys) else 0
    out.label(case["mode"] or "default")
    out.sample = dict(vectors=dict(zip(keys, vec)), files=len(got))
    return out
