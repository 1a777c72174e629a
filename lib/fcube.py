"""Toy data cubes, parameter files and runs of the force executables."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)

import numpy as np
from osgeo import gdal, ogr, osr

gdal.UseExceptions()
ogr.UseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")

# no authority codes: PROJ database look-ups per file dominate the run time of toy cubes otherwise
WKT = ('PROJCS["ETRS89-extended/LAEAEurope",GEOGCS["ETRS89",DATUM["European_Terrestrial_Reference_System_1989",'
       'SPHEROID["GRS1980",6378137,298.257222101]],PRIMEM["Greenwich",0],UNIT["degree",0.0174532925199433]],'
       'PROJECTION["Lambert_Azimuthal_Equal_Area"],PARAMETER["latitude_of_center",52],'
       'PARAMETER["longitude_of_center",10],PARAMETER["false_easting",4321000],PARAMETER["false_northing",3210000],'
       'UNIT["metre",1]]')
ORIGIN = (2456026.363042, 4574919.607965)
ORIGIN_GEO = (-25.0, 60.0)

SENSOR_BANDS = {
    "LND04": ["BLUE", "GREEN", "RED", "NIR", "SWIR1", "SWIR2"],
    "SEN2A": ["BLUE", "GREEN", "RED", "REDEDGE1", "REDEDGE2", "REDEDGE3", "BROADNIR", "NIR", "SWIR1", "SWIR2"],
    "sen2a": ["BLUE", "GREEN", "RED", "BROADNIR"],
}


def scratch(prefix="force-"):
    base = os.environ.get("VERIF_SCRATCH", "/tmp")
    return tempfile.mkdtemp(prefix=prefix, dir=base)


class Cube:
    """A tiled directory in force's data cube layout."""

    def __init__(self, path, tile=(300.0, 300.0), res=10.0, origin=ORIGIN, origin_geo=ORIGIN_GEO, wkt=WKT):
        self.path = path
        self.tile = (float(tile[0]), float(tile[1]))
        self.res = float(res)
        self.origin = origin
        self.origin_geo = origin_geo
        self.wkt = wkt
        os.makedirs(path, exist_ok=True)
        with open(os.path.join(path, "datacube-definition.prj"), "w") as f:
            f.write("PROJECTION = %s\nORIGIN_GEO_X = %f\nORIGIN_GEO_Y = %f\nORIGIN_MAP_X = %f\nORIGIN_MAP_Y = %f\n"
                    "TILE_SIZE_X = %f\nTILE_SIZE_Y = %f\n" % (wkt, origin_geo[0], origin_geo[1], origin[0], origin[1],
                                                              self.tile[0], self.tile[1]))

    def nxny(self, res=None):
        r = res or self.res
        return int(round(self.tile[0] / r)), int(round(self.tile[1] / r))

    def tile_dir(self, tx, ty):
        d = os.path.join(self.path, tile_id(tx, ty))
        os.makedirs(d, exist_ok=True)
        return d

    def geotransform(self, tx, ty, res=None):
        r = res or self.res
        return (self.origin[0] + tx * self.tile[0], r, 0.0, self.origin[1] - ty * self.tile[1], 0.0, -r)

    def write(self, tx, ty, name, arrays, nodata=-9999, dtype="int16", res=None, bandnames=None, meta=None,
              bandmeta=None, driver="GTiff", options=()):
        """arrays: [bands][rows][cols]"""
        arrays = np.asarray(arrays)
        if arrays.ndim == 2:
            arrays = arrays[None]
        nb, ny, nx = arrays.shape
        fname = os.path.join(self.tile_dir(tx, ty), name)
        write_raster(fname, arrays, self.geotransform(tx, ty, res), self.wkt, nodata, dtype, bandnames, meta,
                     bandmeta, driver, options)
        return fname


def tile_id(tx, ty):
    return "X%04d_Y%04d" % (tx, ty)


_GT = {"int16": gdal.GDT_Int16, "uint8": gdal.GDT_Byte, "int32": gdal.GDT_Int32, "float32": gdal.GDT_Float32,
       "uint16": gdal.GDT_UInt16, "float64": gdal.GDT_Float64}


def write_raster(fname, arrays, gt, wkt, nodata=-9999, dtype="int16", bandnames=None, meta=None, bandmeta=None,
                 driver="GTiff", options=()):
    nb, ny, nx = arrays.shape
    if driver == "GTiff" and not (bandnames or meta or bandmeta or options):
        return _write_tif(fname, arrays, gt, wkt, nodata, dtype)
    ds = gdal.GetDriverByName(driver).Create(fname, nx, ny, nb, _GT[dtype], options=list(options))
    ds.SetGeoTransform(gt)
    ds.SetProjection(wkt)
    if meta:
        ds.SetMetadata(meta, "FORCE")
    for b in range(nb):
        band = ds.GetRasterBand(b + 1)
        if nodata is not None:
            band.SetNoDataValue(nodata)
        if bandnames:
            band.SetDescription(bandnames[b])
        if bandmeta:
            band.SetMetadata(bandmeta[b], "FORCE")
        band.WriteArray(np.ascontiguousarray(arrays[b]))
    ds.FlushCache()
    ds = None


_templates = {}


def _write_tif(fname, arrays, gt, wkt, nodata, dtype):
    """plain GeoTIFF from a cached header (creating one with GDAL costs several milliseconds)"""
    nb, ny, nx = arrays.shape
    key = (nb, ny, nx, tuple(gt), wkt, nodata, dtype)
    if key not in _templates:
        if len(_templates) > 400:
            _templates.clear()
        tmp = "/vsimem/template%d.tif" % os.getpid()
        probe = np.arange(nb * ny * nx).reshape(nb, ny, nx) % 100 + 1
        ds = gdal.GetDriverByName("GTiff").Create(tmp, nx, ny, nb, _GT[dtype],
                                                  options=["INTERLEAVE=BAND", "BLOCKYSIZE=%d" % ny])
        ds.SetGeoTransform(gt)
        ds.SetProjection(wkt)
        if nodata is not None:
            for b in range(nb):
                ds.GetRasterBand(b + 1).SetNoDataValue(nodata)
        ds.FlushCache()
        ds.WriteArray(probe.astype(dtype))
        ds = None
        ds = gdal.Open(tmp)
        offs = [int(ds.GetRasterBand(b + 1).GetMetadataItem("BLOCK_OFFSET_0_0", "TIFF")) for b in range(nb)]
        ds = None
        size = gdal.VSIStatL(tmp).size
        f = gdal.VSIFOpenL(tmp, "rb")
        raw = bytes(gdal.VSIFReadL(1, size, f))
        gdal.VSIFCloseL(f)
        gdal.Unlink(tmp)
        for b in range(nb):
            blk = np.ascontiguousarray(probe[b].astype(dtype)).tobytes()
            if raw[offs[b]:offs[b] + len(blk)] != blk:
                raise RuntimeError("unexpected template layout")
        _templates[key] = (raw, offs)
    raw, offs = _templates[key]
    buf = bytearray(raw)
    for b in range(nb):
        blk = np.ascontiguousarray(arrays[b].astype(dtype)).tobytes()
        buf[offs[b]:offs[b] + len(blk)] = blk
    with open(fname, "wb") as f:
        f.write(buf)


class Raster:
    def __init__(self, fname):
        ds = gdal.Open(fname)
        self.fname = fname
        self.nx, self.ny, self.nb = ds.RasterXSize, ds.RasterYSize, ds.RasterCount
        a = ds.ReadAsArray()
        self.data = a[None] if a.ndim == 2 else a
        self.gt = ds.GetGeoTransform()
        self.wkt = ds.GetProjection()
        self.nodata = [ds.GetRasterBand(b + 1).GetNoDataValue() for b in range(self.nb)]
        self.names = [ds.GetRasterBand(b + 1).GetDescription() for b in range(self.nb)]
        self.dtype = gdal.GetDataTypeName(ds.GetRasterBand(1).DataType)
        self.meta = ds.GetMetadata("FORCE")
        self.bandmeta = [ds.GetRasterBand(b + 1).GetMetadata("FORCE") for b in range(self.nb)]
        ds = None


# QAI ---------------------------------------------------------------------------------------------
# (name, first bit, number of bits) as documented for the Level 2 product
QAI_FIELDS = [("off", 0, 1), ("cloud", 1, 2), ("shadow", 3, 1), ("snow", 4, 1), ("water", 5, 1), ("aod", 6, 2),
              ("subzero", 8, 1), ("sat", 9, 1), ("sun", 10, 1), ("illum", 11, 2), ("slope", 13, 1), ("wvp", 14, 1)]
QAI_POS = {n: (b, w) for n, b, w in QAI_FIELDS}


def qai_get(q, name):
    b, w = QAI_POS[name]
    return (q.astype(np.int64) >> b) & ((1 << w) - 1)


def qai_make(**kw):
    v = 0
    for k, x in kw.items():
        b, w = QAI_POS[k]
        v |= (int(x) & ((1 << w) - 1)) << b
    return v


QAI_RULES = {
    "NODATA": ("off", 1), "CLOUD_BUFFER": ("cloud", 1), "CLOUD_OPAQUE": ("cloud", 2), "CLOUD_CIRRUS": ("cloud", 3),
    "CLOUD_SHADOW": ("shadow", 1), "SNOW": ("snow", 1), "WATER": ("water", 1), "AOD_INT": ("aod", 1),
    "AOD_HIGH": ("aod", 2), "AOD_FILL": ("aod", 3), "SUBZERO": ("subzero", 1), "SATURATION": ("sat", 1),
    "SUN_LOW": ("sun", 1), "ILLUMIN_LOW": ("illum", 1), "ILLUMIN_POOR": ("illum", 2), "ILLUMIN_NONE": ("illum", 3),
    "SLOPED": ("slope", 1), "WVP_NONE": ("wvp", 1)}


def qai_pass(q, flags):
    ok = np.ones(q.shape, bool)
    for f in flags:
        n, v = QAI_RULES[f]
        ok &= qai_get(q, n) != v
    return ok


# parameter files -----------------------------------------------------------------------------------
HIGHER = dict(DIR_LOWER=None, DIR_HIGHER=None, DIR_PROVENANCE=None, DIR_MASK="NULL", BASE_MASK="NULL",
              OUTPUT_FORMAT="GTiff", FILE_OUTPUT_OPTIONS="NULL", OUTPUT_EXPLODE="FALSE", OUTPUT_SUBFOLDERS="FALSE",
              FAIL_IF_EMPTY="FALSE", NTHREAD_READ=1, NTHREAD_COMPUTE=2, NTHREAD_WRITE=1, STREAMING="FALSE",
              PRETTY_PROGRESS="FALSE", X_TILE_RANGE="0 0", Y_TILE_RANGE="0 0", FILE_TILE="NULL", CHUNK_SIZE="300 300",
              RESOLUTION=10)
ARD = dict(REDUCE_PSF="FALSE", USE_L2_IMPROPHE="FALSE", SENSORS="LND08", TARGET_SENSOR="LNDLG",
           PRODUCT_TYPE_MAIN="BOA", PRODUCT_TYPE_QUALITY="QAI", SPECTRAL_ADJUST="FALSE", SCREEN_QAI="NODATA",
           ABOVE_NOISE=0, BELOW_NOISE=0, DATE_RANGE="2015-01-01 2016-12-31", DOY_RANGE="1 365",
           DATE_IGNORE_LANDSAT_7="2099-12-31")
TSA = dict(INDEX="NDVI", STANDARDIZE_TSS="NONE", OUTPUT_TSS="FALSE", FILE_ENDMEM="NULL", SMA_SUM_TO_ONE="TRUE",
           SMA_NON_NEG="TRUE", SMA_SHD_NORM="TRUE", SMA_ENDMEMBER=1, OUTPUT_RMS="FALSE", INTERPOLATE="NONE",
           MOVING_MAX=16, RBF_SIGMA="8 16 32", RBF_CUTOFF=0.95, HARMONIC_TREND="TRUE", HARMONIC_MODES=3,
           HARMONIC_FIT_RANGE="2015-01-01 2016-12-31", OUTPUT_NRT="FALSE", INT_DAY=16, STANDARDIZE_TSI="NONE",
           OUTPUT_TSI="FALSE", FILE_PYTHON="NULL", PYTHON_TYPE="PIXEL", OUTPUT_PYP="FALSE", FILE_RSTATS="NULL",
           RSTATS_TYPE="PIXEL", OUTPUT_RSP="FALSE", OUTPUT_STM="FALSE", STM="Q25 Q50 Q75 AVG STD", FOLD_TYPE="AVG",
           STANDARDIZE_FOLD="NONE", OUTPUT_FBY="FALSE", OUTPUT_FBQ="FALSE", OUTPUT_FBM="FALSE", OUTPUT_FBW="FALSE",
           OUTPUT_FBD="FALSE", OUTPUT_TRY="FALSE", OUTPUT_TRQ="FALSE", OUTPUT_TRM="FALSE", OUTPUT_TRW="FALSE",
           OUTPUT_TRD="FALSE", OUTPUT_CAY="FALSE", OUTPUT_CAQ="FALSE", OUTPUT_CAM="FALSE", OUTPUT_CAW="FALSE",
           OUTPUT_CAD="FALSE", POL_START_THRESHOLD=0.2, POL_MID_THRESHOLD=0.5, POL_END_THRESHOLD=0.8,
           POL_ADAPTIVE="TRUE", POL="VSS VPS VES VSA RMR IGS", STANDARDIZE_POL="NONE", OUTPUT_PCT="FALSE",
           OUTPUT_POL="FALSE", OUTPUT_TRO="FALSE", OUTPUT_CAO="FALSE", TREND_TAIL="TWO", TREND_CONF=0.95,
           CHANGE_PENALTY="FALSE")


def write_prm(path, kind, values):
    with open(path, "w") as f:
        f.write("++PARAM_%s_START++\n" % kind)
        for k, v in values.items():
            f.write("%s = %s\n" % (k, v))
        f.write("++PARAM_%s_END++\n" % kind)
    return path


class Result:
    def __init__(self, rc, out, timeout=False):
        self.rc, self.out, self.timeout = rc, out, timeout

    def tail(self, n=600):
        return self.out[-n:]


def run(cmd, cwd=None, timeout=120, env=None, input=None):
    e = dict(os.environ)
    e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PATH="/usr/bin:/bin:/usr/sbin:/sbin", HOME=cwd or "/tmp",
             OMP_WAIT_POLICY="passive")
    e.pop("PYTHONPATH", None)
    e.pop("OMP_NUM_THREADS", None)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           input=input, stdin=subprocess.DEVNULL if input is None else None)
        return Result(r.returncode, r.stdout.decode("utf-8", "replace"))
    except subprocess.TimeoutExpired as ex:
        return Result(-999, (ex.stdout or b"").decode("utf-8", "replace"), True)
