"""Synthetic Level 1 scenes (Landsat 4-9) for the Level 2 processing system:
image files, product metadata, parameter file, an independent sun position,
and readers for what the processor writes."""

import math
import os
import shutil

import numpy as np
from osgeo import osr

import fcube as F

osr.UseExceptions()

TEMPLATE = None

#            key  domain   (key is the USGS band name)
TM = [('1', 'BLUE'), ('2', 'GREEN'), ('3', 'RED'), ('4', 'NIR'),
      ('5', 'SWIR1'), ('7', 'SWIR2'), ('6', 'TEMP')]
OLI = [('1', 'ULTRABLUE'), ('2', 'BLUE'), ('3', 'GREEN'), ('4', 'RED'),
       ('5', 'NIR'), ('6', 'SWIR1'), ('7', 'SWIR2'), ('9', 'CIRRUS'),
       ('10', 'TEMP')]
PRODUCT = ['BLUE', 'GREEN', 'RED', 'NIR', 'SWIR1', 'SWIR2']
SATURATED = {4: 255, 5: 255, 7: 255, 8: 65535, 9: 65535}

# published mean exoatmospheric irradiance [W m-2 um-1] (Chander et al. 2009)
ESUN = {4: [1983, 1795, 1539, 1028, 219.8, 83.49],
        5: [1983, 1796, 1536, 1031, 220.0, 83.44],
        7: [1997, 1812, 1533, 1039, 230.8, 84.90]}

K = {4: (671.62, 1284.30), 5: (607.76, 1260.56), 7: (666.09, 1282.71),
     8: (774.8853, 1321.0789), 9: (799.0284, 1329.2405)}


def bands(sensor):
    return TM if sensor <= 7 else OLI


def utm_wkt(zone):
    s = osr.SpatialReference()
    s.ImportFromEPSG(32600 + zone if zone > 0 else 32700 - zone)
    return s.ExportToWkt()


def lonlat(x, y, wkt):
    s = osr.SpatialReference(); s.ImportFromWkt(wkt)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    g = osr.SpatialReference(); g.ImportFromEPSG(4326)
    g.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    t = osr.CoordinateTransformation(s, g)
    lon, lat, _ = t.TransformPoint(float(x), float(y))
    return lon, lat


def transform(pts, src, dst):
    s = osr.SpatialReference(); s.ImportFromWkt(src)
    s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    g = osr.SpatialReference(); g.ImportFromWkt(dst)
    g.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    t = osr.CoordinateTransformation(s, g)
    return np.array(t.TransformPoints(np.asarray(pts, float)[:, :2].tolist()))[:, :2]


def sun_zenith(date, time, lon, lat):
    return sun_position(date, time, lon, lat)[0]


def sun_position(date, time, lon, lat):
    """solar zenith and azimuth [rad] (NOAA low-accuracy algorithm, double precision)"""
    y, m, d = date
    hh, mm, ss = time
    frac = (hh + mm/60 + ss/3600)/24
    a = (14 - m)//12
    yy = y + 4800 - a
    mo = m + 12*a - 3
    jdn = d + (153*mo + 2)//5 + 365*yy + yy//4 - yy//100 + yy//400 - 32045
    jd = jdn - 0.5 + frac
    t = (jd - 2451545)/36525
    l0 = (280.46646 + t*(36000.76983 + 0.0003032*t)) % 360
    an = math.radians(357.52911 + t*(35999.05029 - 0.0001537*t))
    e = 0.016708634 - t*(0.000042037 + 0.0000001267*t)
    c = (math.sin(an)*(1.914602 - t*(0.004817 + 0.000014*t)) +
         math.sin(2*an)*(0.019993 - 0.000101*t) + math.sin(3*an)*0.000289)
    om = math.radians(125.04 - 1934.136*t)
    app = math.radians(l0 + c - 0.00569 - 0.00478*math.sin(om))
    eps = math.radians(23 + (26 + (21.448 - t*(46.815 + t*(0.00059 - t*0.001813)))/60)/60
                       + 0.00256*math.cos(om))
    dec = math.asin(math.sin(eps)*math.sin(app))
    v = math.tan(eps/2)**2
    l0r = math.radians(l0)
    eot = 4*math.degrees(v*math.sin(2*l0r) - 2*e*math.sin(an) + 4*e*v*math.sin(an)*math.cos(2*l0r)
                         - 0.5*v*v*math.sin(4*l0r) - 1.25*e*e*math.sin(2*an))
    tst = frac*1440 + eot + 4*lon
    ha = math.radians(tst/4 - 180)
    la = math.radians(lat)
    cz = math.sin(la)*math.sin(dec) + math.cos(la)*math.cos(dec)*math.cos(ha)
    z = math.acos(max(-1, min(1, cz)))
    az = math.atan2(-math.sin(ha)*math.cos(dec)*math.cos(la), math.sin(dec) - math.sin(la)*cz)
    return z, az


class Scene:
    """a Level 1 scene; dn maps a band key to its counts"""

    def __init__(self, sensor, nx, ny, ulx, uly, zone, date=(2018, 6, 5),
                 time=(10, 2, 3.123), style='new', datatype='L1TP', category='T1',
                 path=193, row=23, rmul=None, radd=None, lmax=None, lmin=None):
        self.sensor, self.nx, self.ny = sensor, nx, ny
        self.ulx, self.uly, self.zone = float(ulx), float(uly), zone
        self.date, self.time, self.style = tuple(date), tuple(time), style
        self.datatype, self.category = datatype, category
        self.path, self.row = path, row
        self.res = 30.0
        self.wkt = utm_wkt(zone)
        self.bands = bands(sensor)
        self.dn = {}
        byte = sensor <= 7
        self.sat = SATURATED[sensor]
        self.rmul = rmul or {k: (0.0055 if byte else 2e-5) for k, _ in self.bands}
        self.radd = radd or {k: (-0.011 if byte else -0.1) for k, _ in self.bands}
        self.lmax, self.lmin = {}, {}
        for k, dom in self.bands:
            if dom == 'TEMP':
                lo, hi = (1.238, 15.303) if byte else (0.1, 22.0)
            else:
                lo, hi = (-1.5, 300.0) if byte else (-50.0, 600.0)
            self.lmax[k] = (lmax or {}).get(k, hi)
            self.lmin[k] = (lmin or {}).get(k, lo)

    def key(self, domain):
        return next((k for k, d in self.bands if d == domain), None)

    # -- physical quantities -------------------------------------------------
    def scaled(self, domain):
        """reflectance before the division by the cosine of the sun zenith"""
        k = self.key(domain)
        return self.radd[k] + self.rmul[k]*self.dn[k].astype(float)

    def radiance(self, domain):
        k = self.key(domain)
        gain = (self.lmax[k]-self.lmin[k])/(self.sat-1)
        return gain*(self.dn[k].astype(float)-1) + self.lmin[k]

    def counts(self, domain, reflectance, mu=1.0):
        k = self.key(domain)
        dn = np.round((np.asarray(reflectance, float)*mu - self.radd[k])/self.rmul[k])
        return np.clip(dn, 1, self.sat-1).astype('uint16' if self.sensor > 7 else 'uint8')

    def counts_temp(self, kelvin):
        k = self.key('TEMP')
        k1, k2 = K[self.sensor]
        rad = k1/(np.exp(k2/np.asarray(kelvin, float))-1)
        gain = (self.lmax[k]-self.lmin[k])/(self.sat-1)
        dn = np.round((rad-self.lmin[k])/gain + 1)
        return np.clip(dn, 1, self.sat-1).astype('uint16' if self.sensor > 7 else 'uint8')

    def kelvin(self):
        k1, k2 = K[self.sensor]
        return k2/np.log(k1/self.radiance('TEMP')+1)

    def void(self):
        """pixels without data in any band that carries information for the
        product (the cirrus band may legitimately be 0)"""
        v = np.zeros((self.ny, self.nx), bool)
        for k, d in self.bands:
            if d != 'CIRRUS':
                v |= self.dn[k] == 0
        return v

    def mu(self):
        lon, lat = lonlat(self.ulx, self.uly, self.wkt)
        return math.cos(sun_zenith(self.date, self.time, lon, lat))

    # -- files ---------------------------------------------------------------
    def name(self):
        pre = {4: 'LT04', 5: 'LT05', 7: 'LE07', 8: 'LC08', 9: 'LC09'}[self.sensor]
        d = '%04d%02d%02d' % self.date
        return '%s_%s_%03d%03d_%s_%s_01_%s' % (pre, self.datatype, self.path, self.row, d, d, self.category)

    def write(self, root):
        base = self.name()
        sc = os.path.join(root, base)
        os.makedirs(sc)
        dt = 'uint16' if self.sensor > 7 else 'uint8'
        gt = (self.ulx, self.res, 0, self.uly, 0, -self.res)
        fn = {}
        for k, d in self.bands:
            tag = '6_VCID_1' if self.sensor == 7 and k == '6' else k
            fn[k] = '%s_B%s.TIF' % (base, tag)
            F.write_raster(os.path.join(sc, fn[k]), self.dn[k][None], gt, self.wkt, None, dt)
        m = []
        h, mi, s = self.time
        clock = '%02d:%02d:%010.7fZ' % (h, mi, s)
        day = '%04d-%02d-%02d' % self.date
        x, y = self.ulx+self.res/2, self.uly-self.res/2
        if self.style != 'old':
            m += ['GROUP = L1_METADATA_FILE', '  GROUP = PRODUCT_METADATA']
            m += ['    DATA_TYPE = "%s"' % self.datatype,
                  '    COLLECTION_CATEGORY = "%s"' % self.category,
                  '    SPACECRAFT_ID = "LANDSAT_%d"' % self.sensor,
                  '    SENSOR_ID = "%s"' % ('TM' if self.sensor < 7 else 'ETM' if self.sensor == 7 else 'OLI_TIRS'),
                  '    WRS_PATH = %d' % self.path, '    WRS_ROW = %d' % self.row,
                  '    DATE_ACQUIRED = %s' % day, '    SCENE_CENTER_TIME = "%s"' % clock,
                  '    CORNER_UL_PROJECTION_X_PRODUCT = %.3f' % x,
                  '    CORNER_UL_PROJECTION_Y_PRODUCT = %.3f' % y,
                  '    REFLECTIVE_LINES = %d' % self.ny, '    REFLECTIVE_SAMPLES = %d' % self.nx]
            for k, d in self.bands:
                tag = '6_VCID_1' if self.sensor == 7 and k == '6' else k
                m += ['    FILE_NAME_BAND_%s = "%s"' % (tag, fn[k])]
            m += ['  END_GROUP = PRODUCT_METADATA', '  GROUP = MIN_MAX_RADIANCE']
            for k, d in self.bands:
                tag = '6_VCID_1' if self.sensor == 7 and k == '6' else k
                m += ['    RADIANCE_MAXIMUM_BAND_%s = %.5f' % (tag, self.lmax[k]),
                      '    RADIANCE_MINIMUM_BAND_%s = %.5f' % (tag, self.lmin[k])]
            m += ['  END_GROUP = MIN_MAX_RADIANCE', '  GROUP = MIN_MAX_PIXEL_VALUE']
            for k, d in self.bands:
                tag = '6_VCID_1' if self.sensor == 7 and k == '6' else k
                m += ['    QUANTIZE_CAL_MAX_BAND_%s = %d' % (tag, self.sat),
                      '    QUANTIZE_CAL_MIN_BAND_%s = 1' % tag]
            m += ['  END_GROUP = MIN_MAX_PIXEL_VALUE']
            if self.style == 'new':
                m += ['  GROUP = RADIOMETRIC_RESCALING']
                for k, d in self.bands:
                    if d == 'TEMP':
                        continue
                    m += ['    REFLECTANCE_MULT_BAND_%s = %.7E' % (k, self.rmul[k]),
                          '    REFLECTANCE_ADD_BAND_%s = %.7f' % (k, self.radd[k])]
                m += ['  END_GROUP = RADIOMETRIC_RESCALING']
            m += ['  GROUP = TIRS_THERMAL_CONSTANTS']
            tk = {7: '6_VCID_1', 4: '6', 5: '6'}.get(self.sensor, '10')
            m += ['    K1_CONSTANT_BAND_%s = %.4f' % (tk, K[self.sensor][0]),
                  '    K2_CONSTANT_BAND_%s = %.4f' % (tk, K[self.sensor][1])]
            m += ['  END_GROUP = TIRS_THERMAL_CONSTANTS', '  GROUP = PROJECTION_PARAMETERS',
                  '    GRID_CELL_SIZE_REFLECTIVE = %.2f' % self.res,
                  '  END_GROUP = PROJECTION_PARAMETERS', 'END_GROUP = L1_METADATA_FILE', 'END']
        else:
            m += ['GROUP = L1_METADATA_FILE', '  GROUP = PRODUCT_METADATA',
                  '    PRODUCT_TYPE = "%s"' % self.datatype[:3],
                  '    SPACECRAFT_ID = "Landsat%d"' % self.sensor,
                  '    ACQUISITION_DATE = %s' % day, '    SCENE_CENTER_SCAN_TIME = %s' % clock,
                  '    WRS_PATH = %d' % self.path, '    WRS_ROW = %d' % self.row,
                  '    PRODUCT_UL_CORNER_MAPX = %.3f' % x, '    PRODUCT_UL_CORNER_MAPY = %.3f' % y,
                  '    PRODUCT_SAMPLES_REF = %d' % self.nx, '    PRODUCT_LINES_REF = %d' % self.ny]
            for k, d in self.bands:
                tag = '61' if self.sensor == 7 and k == '6' else k
                m += ['    BAND%s_FILE_NAME = "%s"' % (tag, fn[k])]
            for k, d in self.bands:
                tag = '61' if self.sensor == 7 and k == '6' else k
                m += ['    LMAX_BAND%s = %.5f' % (tag, self.lmax[k]), '    LMIN_BAND%s = %.5f' % (tag, self.lmin[k])]
            for k, d in self.bands:
                tag = '61' if self.sensor == 7 and k == '6' else k
                m += ['    QCALMAX_BAND%s = %.1f' % (tag, self.sat), '    QCALMIN_BAND%s = 1.0' % tag]
            m += ['    GRID_CELL_SIZE_REF = %.3f' % self.res, '  END_GROUP = PRODUCT_METADATA',
                  'END_GROUP = L1_METADATA_FILE', 'END']
        with open(os.path.join(sc, base+'_MTL.txt'), 'w') as fp:
            fp.write('\n'.join(m)+'\n')
        return sc


def defaults():
    """name/value pairs of the documented Level 2 parameter file"""
    import modules
    return dict(modules.defaults('LEVEL2'))


def params(root, **kw):
    p = defaults()
    for s in ('l2', 'log', 'prov', 'tmp'):
        os.makedirs(os.path.join(root, s), exist_ok=True)
    p.update(FILE_QUEUE=root+'/queue', DIR_LEVEL2=root+'/l2', DIR_LOG=root+'/log',
             DIR_PROVENANCE=root+'/prov', DIR_TEMP=root+'/tmp',
             DO_REPROJ='FALSE', DO_TILE='TRUE', TILE_SIZE='1500 1500', BLOCK_SIZE='150',
             ORIGIN_LON=10, ORIGIN_LAT=53, PROJECTION=F.WKT, RESOLUTION_LANDSAT=30,
             DO_ATMO='FALSE', DO_TOPO='FALSE', DO_BRDF='FALSE', ADJACENCY_EFFECT='FALSE',
             MULTI_SCATTERING='FALSE', WATER_VAPOR='2.0', DO_AOD='TRUE', RES_MERGE='NONE',
             OUTPUT_FORMAT='GTiff', OUTPUT_OVV='FALSE', OUTPUT_DST='TRUE', OUTPUT_VZN='TRUE',
             OUTPUT_HOT='TRUE', OUTPUT_AOD='FALSE', OUTPUT_WVP='FALSE',
             MAX_CLOUD_COVER_FRAME=100, MAX_CLOUD_COVER_TILE=100,
             IMPULSE_NOISE='FALSE', BUFFER_NODATA='FALSE', TIER=1,
             NPROC=1, NTHREAD=2, PARALLEL_READS='FALSE', DELAY=0, TIMEOUT_ZIP=30)
    have = set(defaults())
    p = {k: v for k, v in p.items() if k in have}
    for k, v in kw.items():
        if k not in have:
            raise KeyError(k)
        p[k] = v
    return p


def run(exe, root, scene_dir, par, timeout=120):
    with open(par['FILE_QUEUE'], 'w') as fp:
        fp.write(scene_dir+' QUEUED\n')
    F.write_prm(root+'/l2.prm', 'LEVEL2', par)
    return F.run([exe, scene_dir, root+'/l2.prm'], cwd=root, timeout=timeout)


def products(l2):
    """{(tile or frame directory, product): path}"""
    out = {}
    for d in sorted(os.listdir(l2)):
        p = os.path.join(l2, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith('.tif') or f.endswith('.dat') or f.endswith('.bsq'):
                    out[d, f.rsplit('.', 1)[0].split('_')[-1]] = os.path.join(p, f)
    return out


def origin(par, wkt):
    """projected coordinates of the grid origin"""
    geo = osr.SpatialReference(); geo.ImportFromEPSG(4326)
    return transform([(float(par['ORIGIN_LON']), float(par['ORIGIN_LAT']))],
                     geo.ExportToWkt(), wkt)[0]


#           UB    B     G     R     NIR   S1    S2    T      cirrus
SPECTRA = {
    'veg':   (.060, .050, .060, .040, .300, .150, .070, 293.0, .0010),
    'soil':  (.090, .085, .105, .135, .225, .280, .240, 297.0, .0010),
    'water': (.050, .042, .035, .020, .010, .005, .003, 288.0, .0010),
    'cloud': (.450, .450, .450, .460, .500, .400, .300, 262.0, .0060),
    'snow':  (.720, .700, .700, .680, .600, .080, .050, 268.0, .0010),
    'warm':  (.450, .450, .450, .460, .500, .400, .300, 278.0, .0060),
    'shade': (.021, .018, .021, .014, .105, .053, .025, 290.0, .0010),
    'cirrus': (.090, .080, .085, .070, .310, .160, .080, 290.0, .0350),
}
DOMAINS = ['ULTRABLUE', 'BLUE', 'GREEN', 'RED', 'NIR', 'SWIR1', 'SWIR2', 'TEMP', 'CIRRUS']


def blob(rng, ny, nx, size):
    """an elliptic patch of roughly the given size; boolean image"""
    y, x = np.mgrid[0:ny, 0:nx]
    cy, cx = rng.uniform(0, ny), rng.uniform(0, nx)
    a, b = size*rng.uniform(0.6, 1.4), size*rng.uniform(0.6, 1.4)
    return ((y-cy)/a)**2 + ((x-cx)/b)**2 <= 1


def natural(sc, rng, cover, noise=0.03, base='veg'):
    """fill a scene with surfaces; cover = list of (class, number, size). Returns
    the class image."""
    ny, nx = sc.ny, sc.nx
    cls = np.full((ny, nx), base, dtype=object)
    for name, n, size in cover:
        for _ in range(n):
            cls[blob(rng, ny, nx, size)] = name
    fill(sc, rng, cls, noise)
    return cls


def fill(sc, rng, cls, noise=0.03):
    mu = sc.mu()
    names = sorted(set(cls.ravel().tolist()))
    idx = np.searchsorted(names, cls.ravel().astype(str)).reshape(cls.shape)
    table = np.array([SPECTRA[n] for n in names])
    common = 1 + noise*rng.standard_normal(cls.shape)
    for k, d in sc.bands:
        v = table[idx, DOMAINS.index(d)]
        if d == 'TEMP':
            sc.dn[k] = sc.counts_temp(v + rng.uniform(-0.4, 0.4, cls.shape))
        elif d == 'CIRRUS':
            sc.dn[k] = sc.counts(d, v*common, mu)
        else:
            w = v*common*(1 + 0.3*noise*rng.standard_normal(cls.shape))
            sc.dn[k] = np.maximum(sc.counts(d, w, mu), int(math.ceil((0.002-sc.radd[k])/sc.rmul[k]))).astype('uint16' if sc.sensor > 7 else 'uint8')
