"""Echo functions for the Python and R entry points: every output band is a stated function of what the function was given."""
import json
import os

import numpy as np
from hypothesis import strategies as st

import fcube as F
import hl
import modules as M
from harness import Outcome

LAYOUT = [(["LND08"], "LNDLG"), (["LND08", "LND05"], "LNDLG"), (["SEN2A"], "SEN2L"), (["LND07", "SEN2B"], "LNDLG"), (["S1AIA", "S1BID"], "VVVHP"),
          (["MOD01"], "MODIS")]
AUX = ["DST", "HOT", "VZN"]

PY = '''
import numpy as np
import json
OPS = json.loads(%r)
NAMES = json.loads(%r)
def s(x):
    return x.decode() if isinstance(x, bytes) else str(x)
def code(x):
    return sum((i + 1) * ord(c) for i, c in enumerate(s(x))) %% 20000
def forcepy_init(dates, sensors, bandnames):
    r = []
    for n in NAMES:
        if n[0] == "plain":
            r.append(n[1])
        elif n[0] == "bytes":
            r.append(n[1].encode())
        elif n[0] == "band":
            r.append(bandnames[n[1] %% len(bandnames)])
        elif n[0] == "date":
            r.append("D%%d" %% dates[n[1] %% len(dates)])
        else:
            r.append("N%%d-%%d-%%d" %% (len(dates), len(sensors), len(bandnames)))
    return r
def value(op, a, dates, sensors, bandnames, nodata, nproc):
    k, x, name = op
    nt = a.shape[0]
    names = [s(b) for b in bandnames]
    b = names.index(name) if name in names else 0
    shp = a.shape[2:]
    if k == "pick":
        return a[x %% nt, b]
    if k == "count":
        return (a[:, b] != nodata).sum(0)
    if k == "max":
        return a[:, b].max(0)
    if k == "date":
        return np.full(shp, dates[x %% nt] %% 20000)
    if k == "sensor":
        return np.full(shp, code(sensors[x %% nt]))
    if k == "names":
        return np.full(shp, sum((i + 1) * code(n) for i, n in enumerate(sorted(names))) %% 20000)
    if k == "nproc":
        return np.full(shp, nproc)
    if k == "shape":
        return np.full(shp, (a.shape[0] * 37 + a.shape[1]) %% 20000)
    if k == "row":
        return np.broadcast_to(np.arange(shp[0])[:, None], shp)
    if k == "col":
        return np.broadcast_to(np.arange(shp[1])[None, :], shp)
    if k == "right":
        r = np.full(shp, nodata)
        r[:, :-1] = a[x %% nt, b][:, 1:]
        return r
    return None
def run(a, out, dates, sensors, bandnames, nodata, nproc):
    a = a.astype(np.int64)
    ok = (a != nodata).any((0, 1))
    for i, op in enumerate(OPS):
        v = value(op, a, dates, sensors, bandnames, nodata, nproc)
        if v is not None:
            out[i] = np.where(ok, v, nodata)
def forcepy_pixel(inarray, outarray, dates, sensors, bandnames, nodata, nproc):
    out = np.full((len(OPS), 1, 1), nodata)
    run(inarray, out, dates, sensors, bandnames, nodata, nproc)
    outarray[:] = out[:, 0, 0]
def forcepy_chunk(inblock, outblock, dates, sensors, bandnames, nodata, nproc):
    run(inblock, outblock, dates, sensors, bandnames, nodata, nproc)
'''

R = '''
OPS <- list(%s)
NAMES <- list(%s)
code <- function(x) { v <- utf8ToInt(x); sum(seq_along(v) * v) %%%% 20000 }
force_rstats_init <- function(dates, sensors, bandnames) {
  r <- character(0)
  for (n in NAMES) {
    if (n[[1]] == "plain" || n[[1]] == "bytes") r <- c(r, n[[2]])
    else if (n[[1]] == "band") r <- c(r, bandnames[n[[2]] %%%% length(bandnames) + 1])
    else if (n[[1]] == "date") r <- c(r, sprintf("D%%d", as.integer(dates[n[[2]] %%%% length(dates) + 1])))
    else r <- c(r, sprintf("N%%d-%%d-%%d", length(dates), length(sensors), length(bandnames)))
  }
  return(r)
}
force_rstats_chunk <- function(inarray, dates, sensors, bandnames, nproc) {
  d <- dim(inarray); nt <- d[1]; ny <- d[3]; nx <- d[4]
  out <- array(NA, c(length(OPS), ny, nx))
  ok <- array(apply(!is.na(inarray), c(3, 4), any), c(ny, nx))
  for (i in seq_along(OPS)) {
    k <- OPS[[i]][[1]]; x <- OPS[[i]][[2]] %%%% nt + 1; b <- match(OPS[[i]][[3]], bandnames); if (is.na(b)) b <- 1
    band <- array(inarray[, b, , ], c(nt, ny, nx))
    v <- switch(k,
      pick = array(band[x, , ], c(ny, nx)),
      count = array(apply(!is.na(band), c(2, 3), sum), c(ny, nx)),
      max = array(apply(band, c(2, 3), function(z) if (all(is.na(z))) NA else max(z, na.rm = TRUE)), c(ny, nx)),
      date = array(as.integer(dates[x]) %%%% 20000, c(ny, nx)),
      sensor = array(code(sensors[x]), c(ny, nx)),
      names = array(sum(seq_along(bandnames) * sapply(sort(bandnames, method = "radix"), code)) %%%% 20000, c(ny, nx)),
      nproc = array(nproc, c(ny, nx)),
      shape = array((nt * 37 + d[2]) %%%% 20000, c(ny, nx)),
      row = array(rep(seq_len(ny) - 1, nx), c(ny, nx)),
      col = array(rep(seq_len(nx) - 1, each = ny), c(ny, nx)),
      right = cbind(array(band[x, , -1], c(ny, nx - 1)), rep(NA, ny)),
      unset = array(NA, c(ny, nx)))
    v[!ok] <- NA
    out[i, , ] <- v
  }
  return(out)
}
force_rstats_pixel <- function(inarray, dates, sensors, bandnames, nproc) {
  d <- dim(inarray)
  return(as.vector(force_rstats_chunk(array(inarray, c(d[1], d[2], 1, 1)), dates, sensors, bandnames, nproc)))
}
'''


def code(x):
    return sum((i + 1) * ord(c) for i, c in enumerate(x)) % 20000


@st.composite
def case_(draw, lang):
    entry = draw(st.sampled_from(["UDF", "UDF", "TSA"]))
    mode = draw(st.sampled_from(["PIXEL", "CHUNK"]))
    sens, target = draw(st.sampled_from(LAYOUT))
    bands = hl.TARGETS[target]
    aux = draw(st.lists(st.sampled_from(AUX), max_size=2, unique=True)) if entry == "UDF" else []
    acq = draw(st.lists(st.tuples(st.integers(0, 729), st.integers(0, len(sens) - 1)), min_size=1, max_size=7, unique=True))
    names = bands + aux
    ops = []
    kinds = ["pick", "count", "max", "date", "nproc", "shape", "names", "unset"]
    kinds += ["sensor"] if entry == "UDF" else []
    kinds += ["row", "col", "right", "right"] if mode == "CHUNK" else []
    for i in range(draw(st.integers(1, 6))):
        ops.append([draw(st.sampled_from(kinds)), draw(st.integers(0, 20)), draw(st.sampled_from(names)) if entry == "UDF" else "-"])
    lab = []
    for i in range(len(ops)):
        k = draw(st.sampled_from(["plain", "date", "band", "sizes", "bytes"]))
        lab.append([k, draw(st.sampled_from(["alpha", "20150301", "q-1", "Z_z", "7"])) + ("" if k == "plain" else "x")]
                   if k in ("plain", "bytes") else [k, draw(st.integers(0, 9))])
    nx, ny = draw(st.integers(2, 7)), draw(st.sampled_from([1, 2, 3, 4, 6]))
    cy = draw(st.sampled_from([c for c in (1, 2, 3) if ny % c == 0]))
    return dict(entry=entry, mode=mode, lay=LAYOUT.index((sens, target)), aux=aux, acq=[list(a) for a in sorted(acq)], ops=ops, lab=lab, nx=nx, ny=ny, cy=cy,
                seed=draw(st.integers(0, 2**31 - 1)), mask=draw(st.sampled_from([None, 0.5, 0.2, 0.9])), nthread=draw(st.sampled_from([1, 3, 2])) if lang == "py" else
                (1 if mode == "PIXEL" else draw(st.sampled_from([1, 2]))), streaming=draw(st.booleans()) if lang == "py" else False,
                index=draw(st.lists(st.sampled_from(bands), min_size=1, max_size=2, unique=True)),
                interpolate=draw(st.sampled_from(["NONE", "LINEAR", "MOVING"])), step=draw(st.sampled_from([30, 91, 16])), miss=draw(st.sampled_from([0.3, 0.0, 0.8])))


def epoch(ymd):
    return int((np.datetime64("%04d-%02d-%02d" % tuple(ymd)) - np.datetime64("1970-01-01")).astype(int))


def run(case, ctx, lang):
    out = Outcome()
    base = ctx.dir
    hl.dirs(base)
    ny, nx, ops = case["ny"], case["nx"], case["ops"]
    sens, target = LAYOUT[case["lay"]]
    bands = hl.TARGETS[target]
    rng = np.random.default_rng(case["seed"])
    cube = F.Cube(base + "/lower", tile=(nx * 10, ny * 10))
    mask = np.ones((ny, nx), bool)
    kw = {}
    if case["mask"] is not None:
        mask = rng.random((ny, nx)) < case["mask"]
        mask[-1, -1] = True
        F.Cube(base + "/mask", tile=(nx * 10, ny * 10)).write(0, 0, "m.tif", mask.astype(np.uint8)[None], nodata=255, dtype="uint8")
        kw = dict(DIR_MASK=base + "/mask", BASE_MASK="m.tif")
    data = []
    for day, k in case["acq"]:
        d = hl.from_ord(day, 2015)
        b = hl.SENSORS[sens[k]]
        v = rng.integers(1, 9000, (len(b), ny, nx)).astype(np.int16)
        ok = rng.random((ny, nx)) >= case["miss"]
        hl.write_acq(cube, (0, 0), d, sens[k], np.where(ok | (rng.random((ny, nx)) < 0.5), v, hl.ND).astype(np.int16), np.where(ok, 0, 1).astype(np.int16),
                     product="BOA")
        q = {n: v[b.index(n)] for n in bands}
        for a in AUX:
            av = rng.integers(0, 9000, (ny, nx)).astype(np.int16)
            hl.write_acq(cube, (0, 0), d, sens[k], av[None], None, product=a)
            if a in case["aux"]:
                q[a] = av
        data.append((hl.date_str(d) + "_" + sens[k], d, sens[k], {n: np.where(ok & mask, x, hl.ND) for n, x in q.items()}))
    data.sort()
    fn = base + ("/f.py" if lang == "py" else "/f.r")
    with open(fn, "w") as f:
        if lang == "py":
            f.write(PY % (json.dumps(ops), json.dumps(case["lab"])))
        else:
            q = lambda v: '"%s"' % v if isinstance(v, str) else str(v)
            f.write(R % (", ".join("list(%s)" % ", ".join(map(q, o)) for o in ops), ", ".join("list(%s)" % ", ".join(map(q, o)) for o in case["lab"])))
    kw.update(FILE_PYTHON=fn, PYTHON_TYPE=case["mode"], OUTPUT_PYP="TRUE") if lang == "py" else kw.update(FILE_RSTATS=fn, RSTATS_TYPE=case["mode"], OUTPUT_RSP="TRUE")
    prod = "PYP" if lang == "py" else "RSP"
    kw.update(SENSORS=" ".join(sens), TARGET_SENSOR=target, DATE_RANGE="2015-01-01 2016-12-31", SCREEN_QAI="NODATA", ABOVE_NOISE=0, BELOW_NOISE=0, RESOLUTION=10,
              CHUNK_SIZE="%d %d" % (nx * 10, ny // case["cy"] * 10), NTHREAD_COMPUTE=case["nthread"], STREAMING="TRUE" if case["streaming"] else "FALSE",
              X_TILE_RANGE="0 0", Y_TILE_RANGE="0 0")
    if case["entry"] == "UDF":
        p = M.params(ctx, "UDF", REQUIRE_AUX_PRODUCTS=" ".join(case["aux"]) or "NULL", **kw)
    else:
        p = M.params(ctx, "TSA", INDEX=" ".join(case["index"]), INTERPOLATE=case["interpolate"], INT_DAY=case["step"], OUTPUT_TSI="TRUE", OUTPUT_TSS="FALSE",
                     HARMONIC_FIT_RANGE="2015-01-01 2016-12-31", **kw)
    env = dict(os.environ)
    if lang == "r":
        env["R_HOME"] = ctx.rhome
    r = hl.run_hl(ctx, case["entry"], p, env=env)
    out.evals = 1
    if r.rc != 0:
        out.fail("run", "exit %s: %s" % (r.rc, r.tail()))
        return out
    o = hl.outputs(base + "/higher")
    calls = []              # (label, output, dates, sensors, {name: [nt][ny][nx]})
    if case["entry"] == "UDF":
        g = [v for k, v in o.items() if prod in k]
        if len(g) != 1 or len(o) != 1:
            out.fail("files", "outputs %s" % sorted(o))
            return out
        calls.append(("UDF", g[0], [d for _, d, _, _ in data], [s for _, _, s, _ in data], {n: np.stack([q[n] for _, _, _, q in data]) for n in bands + case["aux"]}))
    else:
        for i in case["index"]:
            g = [v for k, v in o.items() if "_%s_%s." % (i, prod) in k]
            t = [v for k, v in o.items() if "_%s_TSI." % i in k]
            if len(g) != 1 or len(t) != 1:
                out.fail("files", "outputs %s, index %s" % (sorted(o), i))
                return out
            t = t[0]
            if case["interpolate"] == "NONE":
                hl.compare(out, "series", t.data, np.stack([q[i] for _, _, _, q in data]), what="uninterpolated series")
            dates = [(int(n[:4]), int(n[4:6]), int(n[6:8])) for n in t.names]
            calls.append((i, g[0], dates, None, {i: t.data}))
    cyh = ny // case["cy"]
    for lab, g, dates, sensors, q in calls:
        exp = []
        arr = list(q.values())
        nt = len(dates)
        ok = np.zeros((ny, nx), bool)
        for a in arr:
            ok |= (a != hl.ND).any(0)
        ep = [epoch(d) for d in dates]
        allnames = sorted(q) if case["entry"] == "UDF" else [lab]
        for k, x, name in ops:
            a = q[name] if name in q else arr[0]
            x %= nt
            full = lambda v: np.full((ny, nx), v)
            if k == "pick":
                v = a[x]
            elif k == "count":
                v = (a != hl.ND).sum(0)
            elif k == "max":
                v = a.max(0)
            elif k == "date":
                v = full(ep[x] % 20000)
            elif k == "sensor":
                v = full(code(sensors[x]))
            elif k == "names":
                v = full(sum((i + 1) * code(n) for i, n in enumerate(allnames)) % 20000)
            elif k == "nproc":
                v = full(1 if case["mode"] == "PIXEL" else case["nthread"])
            elif k == "shape":
                v = full((nt * 37 + len(arr)) % 20000)
            elif k == "row":
                v = np.broadcast_to((np.arange(ny) % cyh)[:, None], (ny, nx))
            elif k == "col":
                v = np.broadcast_to(np.arange(nx)[None], (ny, nx))
            elif k == "right":
                v = full(hl.ND)
                v[:, :-1] = a[x][:, 1:]
            else:
                v = full(hl.ND)
            exp.append(np.where(ok, v, hl.ND))
        en = []
        for n in case["lab"]:
            en.append(n[1] if n[0] in ("plain", "bytes") else None if n[0] == "band" else "D%d" % ep[n[1] % nt] if n[0] == "date" else "N%d-%d-%d" % (nt, nt, len(arr)))
        if len(g.names) != len(en) or any(e is not None and e != x for x, e in zip(g.names, en)) or \
                any(e is None and x not in (list(q) if case["entry"] == "UDF" else [lab]) for x, e in zip(g.names, en)):
            out.fail("names", "%s: band names %s, the function returned %s" % (lab, g.names, en))
            return out
        exp = np.stack(exp)
        what = "%s function, %s entry, %s mode, ops %s" % (lang, case["entry"], case["mode"], ops)
        out.evals += hl.compare(out, "values-" + case["entry"] + "-" + case["mode"], g.data, exp, what=what)
        out.nontrivial += int((exp != hl.ND).sum())
    out.label(case["entry"])
    out.label(case["mode"])
    out.label("mask" if case["mask"] is not None else "no mask")
    out.label("aux" if case["aux"] else "no aux")
    for x in ops:
        out.label("op " + x[0])
    out.sample = dict(entry=case["entry"], mode=case["mode"], ops=ops, names=calls[0][1].names, first_pixel=calls[0][1].data[:, 0, 0].tolist())
    return out


def minimise(case, where):
    if len(case["ops"]) > 1:
        for i in range(len(case["ops"])):
            yield dict(case, ops=[case["ops"][i]], lab=[case["lab"][i]])
    if len(case["acq"]) > 1:
        for i in range(len(case["acq"])):
            yield dict(case, acq=case["acq"][:i] + case["acq"][i + 1:])
    if case["mask"] is not None:
        yield dict(case, mask=None)
    if case["aux"]:
        yield dict(case, aux=[])
