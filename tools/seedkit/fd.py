"""Helpers of the demonstration scripts: toy cubes and runs of the executables built in /repo/bin."""
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from osgeo import gdal

gdal.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")
BIN = os.environ.get("FORCE_BIN", os.path.join(os.getcwd(), "bin"))
WKT = ('PROJCS["ETRS89-extended/LAEAEurope",GEOGCS["ETRS89",DATUM["European_Terrestrial_Reference_System_1989",'
       'SPHEROID["GRS1980",6378137,298.257222101]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]],'
       'PROJECTION["Lambert_Azimuthal_Equal_Area"],PARAMETER["latitude_of_center",52],'
       'PARAMETER["longitude_of_center",10],PARAMETER["false_easting",4321000],PARAMETER["false_northing",3210000],'
       'UNIT["metre",1]]')
ORIGIN = (2456026.363042, 4574919.607965)
D = tempfile.mkdtemp(prefix="force-demo-")
DT = {"int16": gdal.GDT_Int16, "uint8": gdal.GDT_Byte, "int32": gdal.GDT_Int32, "float32": gdal.GDT_Float32,
      "uint16": gdal.GDT_UInt16}


def finish(ok, msg=""):
    shutil.rmtree(D, ignore_errors=True)
    print(("as expected " if ok else "BROKEN ") + str(msg))
    sys.exit(0 if ok else 1)


def tif(path, a, gt=None, nodata=-9999, dtype="int16", driver="GTiff", wkt=WKT):
    a = np.asarray(a)
    a = a[None] if a.ndim == 2 else a
    os.makedirs(os.path.dirname(path), exist_ok=True)
    ds = gdal.GetDriverByName(driver).Create(path, a.shape[2], a.shape[1], a.shape[0], DT[dtype])
    ds.SetGeoTransform(gt or (ORIGIN[0], 10, 0, ORIGIN[1], 0, -10))
    ds.SetProjection(wkt)
    for b in range(a.shape[0]):
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(nodata)
    for b in range(a.shape[0]):
        ds.GetRasterBand(b + 1).WriteArray(a[b].astype(dtype))
    ds = None
    return path


def cube(path, tile):
    os.makedirs(path, exist_ok=True)
    with open(path + "/datacube-definition.prj", "w") as f:
        f.write("PROJECTION = %s\nORIGIN_GEO_X = -25.0\nORIGIN_GEO_Y = 60.0\nORIGIN_MAP_X = %f\nORIGIN_MAP_Y = %f\n"
                "TILE_SIZE_X = %f\nTILE_SIZE_Y = %f\n" % (WKT, ORIGIN[0], ORIGIN[1], tile[0], tile[1]))


def acq(date, sensor, boa, qai=None, tile=(0, 0), size=None, res=10.0, product="BOA"):
    boa = np.asarray(boa)
    boa = boa[None] if boa.ndim == 2 else boa
    sx, sy = size or (boa.shape[2] * res, boa.shape[1] * res)
    gt = (ORIGIN[0] + tile[0] * sx, res, 0, ORIGIN[1] - tile[1] * sy, 0, -res)
    stem = "%s/lower/X%04d_Y%04d/%s_LEVEL2_%s_" % (D, tile[0], tile[1], date, sensor)
    tif(stem + product + ".tif", boa, gt)
    tif(stem + "QAI.tif", np.zeros(boa.shape[1:]) if qai is None else qai, gt, nodata=1)


def prm(kind, **kw):
    """parameter file from the program's own template with the given values filled in"""
    subprocess.run([BIN + "/force-parameter", D + "/t.prm", kind], check=True, stdout=subprocess.DEVNULL)
    base = dict(DIR_LOWER=D + "/lower", DIR_HIGHER=D + "/higher", DIR_PROVENANCE=D + "/prov", DIR_MASK="NULL",
                OUTPUT_FORMAT="GTiff", RESOLUTION="10", X_TILE_RANGE="0 0", Y_TILE_RANGE="0 0", NTHREAD_READ="1",
                NTHREAD_COMPUTE="2", NTHREAD_WRITE="1", STREAMING="FALSE", PRETTY_PROGRESS="FALSE", SENSORS="LND08",
                TARGET_SENSOR="LNDLG", DATE_RANGE="2015-01-01 2016-12-31", SPECTRAL_ADJUST="FALSE", ABOVE_NOISE="0",
                BELOW_NOISE="0", SCREEN_QAI="NODATA", HARMONIC_FIT_RANGE="2015-01-01 2016-12-31", FAIL_IF_EMPTY="FALSE")
    base.update(kw)
    out, done = [], set()
    for line in open(D + "/t.prm"):
        k = line.split("=")[0].strip()
        if "=" not in line or k not in base or line.startswith("#"):
            out.append(line)
        elif k in base and k not in done:
            out.append("%s = %s\n" % (k, base[k]))
            done.add(k)
    with open(D + "/p.prm", "w") as f:
        f.writelines(out)
    for d in ("lower", "higher", "prov"):
        os.makedirs(D + "/" + d, exist_ok=True)
    return D + "/p.prm"


def run(*cmd, env=None, cwd=None):
    e = dict(os.environ, **(env or {}))
    e["PATH"] = BIN + ":" + e["PATH"]
    r = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=cwd)
    return r.returncode, r.stdout


def hl(kind, **kw):
    rc, out = run(BIN + "/force-higher-level", prm(kind, **kw))
    if rc:
        finish(False, "exit %d %s" % (rc, out[-400:]))
    return read_all(D + "/higher")


def read(path):
    ds = gdal.Open(path)
    a = ds.ReadAsArray()
    return a[None] if a.ndim == 2 else a


def names(path):
    ds = gdal.Open(path)
    return [ds.GetRasterBand(i + 1).GetDescription() for i in range(ds.RasterCount)]


def read_all(path):
    r = {}
    for d, _, ff in os.walk(path):
        for f in ff:
            if f.endswith((".tif", ".dat")):
                r[os.path.relpath(os.path.join(d, f), path)] = read(os.path.join(d, f))
    return r


def pick(outs, part):
    k = [x for x in outs if part in x]
    if len(k) != 1:
        finish(False, "outputs with %s: %s" % (part, sorted(outs)))
    return outs[k[0]]
