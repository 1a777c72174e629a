"""Higher-level runs on toy cubes."""
import os

import numpy as np

import fcube as F

ND = -9999

# band names and order of the Level 2 products as documented, per sensor name
_S2 = ["BLUE", "GREEN", "RED", "REDEDGE1", "REDEDGE2", "REDEDGE3", "BROADNIR", "NIR", "SWIR1", "SWIR2"]
_LS = ["BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2"]
_MO = ["BLUE", "GREEN", "RED", "NIR", "SWIR0", "SWIR1", "SWIR2"]
SENSORS = {}
for _n in ("LND04", "LND05", "LND07", "LND08", "LND09"):
    SENSORS[_n] = _LS
for _n in ("SEN2A", "SEN2B", "SEN2C", "SEN2D"):
    SENSORS[_n] = _S2
    SENSORS[_n.lower()] = ["BLUE", "GREEN", "RED", "BROADNIR"]
for _n in ("MOD01", "MOD02"):
    SENSORS[_n] = _MO
for _n in ("S1AIA", "S1AID", "S1BIA", "S1BID", "S1CIA", "S1CID"):
    SENSORS[_n] = ["VV", "VH"]
TARGETS = {"LNDLG": _LS, "SEN2L": _S2, "sen2l": ["BLUE", "GREEN", "RED", "BROADNIR"], "R-G-B": ["BLUE", "GREEN", "RED"],
           "VVVHP": ["VV", "VH"], "MODIS": _MO}


def sensor_bands(ctx, sensor):
    return SENSORS[sensor]


def sensor_label(ctx, sensor):
    """sensor part of the file names (differs from the sensor's own name for the 10 m Sentinel-2 subsets)"""
    return sensor.upper()


def date_str(ymd):
    return "%04d%02d%02d" % tuple(ymd)


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]


def doy(m, d):
    """day of year on force's 365-day calendar"""
    return min(CUM[m - 1] + d, 365)


def ce(y, m, d):
    return y * 365 + doy(m, d)


def ymd_from_ce(c):
    y = (c - 1) // 365
    dd = c - y * 365
    for m in range(12):
        if dd <= CUM[m + 1]:
            return (y, m + 1, dd - CUM[m])
    raise ValueError(c)


def from_ord(o, y0=2000):
    """o-th day (0-based) after 1 January y0 on the 365-day calendar -> (y, m, d)"""
    return ymd_from_ce(y0 * 365 + 1 + o)


def write_acq(cube, tile, ymd, sensor, boa, qai, product="BOA", quality="QAI", nodata=ND, level="LEVEL2", res=None,
              ext="tif", driver="GTiff"):
    """boa [bands][ny][nx] int16, qai [ny][nx]"""
    stem = "%s_%s_%s_" % (date_str(ymd), level, sensor)
    if boa is not None:
        cube.write(tile[0], tile[1], stem + product + "." + ext, np.asarray(boa), nodata=nodata, res=res, driver=driver)
    if qai is not None:
        cube.write(tile[0], tile[1], stem + quality + "." + ext, np.asarray(qai)[None], nodata=1, res=res, driver=driver)


def dirs(base):
    out = {}
    for d in ("lower", "higher", "prov"):
        out[d] = os.path.join(base, d)
        os.makedirs(out[d], exist_ok=True)
    return out


def base_params(base, higher="higher", **kw):
    p = dict(F.HIGHER)
    p.update(DIR_LOWER=os.path.join(base, "lower"), DIR_HIGHER=os.path.join(base, higher),
             DIR_PROVENANCE=os.path.join(base, "prov"))
    p.update(kw)
    return p


def tsa_params(base, **kw):
    p = base_params(base)
    p.update(F.ARD)
    p.update(F.TSA)
    p.update(kw)
    return p


def run_hl(ctx, kind, params, name="p.prm", timeout=120, env=None):
    prm = os.path.join(ctx.dir, name)
    for k in ("DIR_LOWER", "DIR_HIGHER", "DIR_PROVENANCE"):
        os.makedirs(params[k], exist_ok=True)
    F.write_prm(prm, kind, params)
    return F.run([ctx.exe("force-higher-level"), prm], cwd=ctx.dir, timeout=timeout, env=env)


def outputs(path, exts=(".tif", ".dat", ".vrt", ".bsq")):
    """{relative path: Raster} of all images below path"""
    res = {}
    for d, dd, ff in os.walk(path):
        for f in sorted(ff):
            if f.endswith(exts):
                full = os.path.join(d, f)
                res[os.path.relpath(full, path)] = F.Raster(full)
    return res


def one(outs, *parts):
    """the single output whose name contains all parts"""
    m = [k for k in outs if all(p in os.path.basename(k) for p in parts)]
    if len(m) != 1:
        raise AssertionError("expected one output with %s, have %s" % (parts, sorted(outs)))
    return outs[m[0]]


def compare(out, key, got, exp, tol=0, judge=None, what="", limit=4):
    """compare arrays; record a failure with the first differing positions; returns number of judged cells"""
    got, exp = np.asarray(got), np.asarray(exp)
    if got.shape != exp.shape:
        out.fail(key, "%s shape %s, expected %s" % (what, got.shape, exp.shape))
        return 0
    bad = np.abs(got.astype(np.float64) - exp.astype(np.float64)) > tol
    if judge is not None:
        bad &= judge
        n = int(np.broadcast_to(judge, got.shape).sum())
    else:
        n = got.size
    if bad.any():
        idx = np.argwhere(bad)
        txt = ", ".join("at %s got %s expected %s" % (tuple(int(v) for v in i), got[tuple(i)], exp[tuple(i)])
                        for i in idx[:limit])
        px = sorted({tuple(int(v) for v in i[-2:]) for i in idx[:2000]})
        out.fail(key, "%s differs in %d of %d cells: %s" % (what, len(idx), n, txt),
                 [y * got.shape[-1] + x for y, x in px][:200])
    return n


def minimise_pixels(case, where):
    """candidate cases keeping only some failing pixels (cases support case['keep'])"""
    cur = case.get("keep")
    if not where:
        return
    if cur is None or len(cur) > 1:
        for w in where[:3]:
            if cur != [w]:
                yield dict(case, keep=[w])
        if cur is None and len(where) > 2:
            yield dict(case, keep=sorted(set(where))[:8])


def keep_mask(case, ny, nx):
    """True for pixels that carry data"""
    k = case.get("keep")
    m = np.ones((ny, nx), bool)
    if k is not None:
        m[:] = False
        m.reshape(-1)[[i for i in k if 0 <= i < nx * ny]] = True
    return m
