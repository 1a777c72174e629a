"""Synthetic Sentinel-2 Level 1C granules for the Level 2 processing system."""

import os

import numpy as np

import fcube as F
import fl1

#         file  domain       resolution
BANDS = [('01', 'ULTRABLUE', 60), ('02', 'BLUE', 10), ('03', 'GREEN', 10), ('04', 'RED', 10),
         ('05', 'REDEDGE1', 20), ('06', 'REDEDGE2', 20), ('07', 'REDEDGE3', 20), ('08', 'BROADNIR', 10),
         ('8A', 'NIR', 20), ('09', 'VAPOR', 60), ('10', 'CIRRUS', 60), ('11', 'SWIR1', 20), ('12', 'SWIR2', 20)]
PRODUCT = ['BLUE', 'GREEN', 'RED', 'REDEDGE1', 'REDEDGE2', 'REDEDGE3', 'BROADNIR', 'NIR', 'SWIR1', 'SWIR2']
COARSE = ['REDEDGE1', 'REDEDGE2', 'REDEDGE3', 'NIR', 'SWIR1', 'SWIR2']
STEP = 5000


class Granule:
    """square granule of n x n pixels (10 m), n a multiple of 6; dn maps a domain to counts
    at the resolution of the band"""

    def __init__(self, n, ulx, uly, zone, date, time, letter='A', quant=10000, offset=None, tile='33UUU', long=False):
        self.n, self.ulx, self.uly, self.zone = n, float(ulx), float(uly), zone
        self.date, self.time, self.letter = date, time, letter
        self.quant, self.offset, self.tile, self.long = quant, offset, tile, long
        self.wkt = fl1.utm_wkt(zone)
        self.dn = {}
        self.nodes = -(-n*10//STEP) + 1
        self.zen, self.azi = {}, {}      # (band, detector): nodes x nodes, NaN = not seen

    def size(self, res):
        return self.n*10//res

    def full(self, domain):
        """counts on the 10 m grid"""
        res = dict((d, r) for _, d, r in BANDS)[domain]
        k = res//10
        return np.repeat(np.repeat(self.dn[domain], k, 0), k, 1)

    def reflectance(self, domain, dtype=float):
        b = [d for _, d, _ in BANDS].index(domain)
        add = self.offset[b] if self.offset else 0
        return (self.full(domain).astype(dtype) + dtype(add))/dtype(self.quant)*dtype(1e4)

    def void(self):
        v = np.zeros((self.n, self.n), bool)
        for _, d, _ in BANDS:
            if d != 'CIRRUS':
                v |= self.full(d) == 0
        return v

    def cells(self, grids):
        """one angle per 5 km cell: mean over the corners of a band and detector, then
        over bands and detectors"""
        m = self.nodes - 1
        per = []
        for g in grids.values():
            c = np.full((m, m), np.nan)
            for i in range(m):
                for j in range(m):
                    w = g[i:i+2, j:j+2]
                    if np.isfinite(w).any():
                        c[i, j] = np.nanmean(w)
            per.append(c)
        per = np.array(per)
        seen = np.isfinite(per)
        with np.errstate(invalid='ignore'):
            return np.where(seen.any(0), np.where(seen, per, 0).sum(0)/np.maximum(seen.sum(0), 1), np.nan)

    def stamp(self):
        return '%04d%02d%02dT%02d%02d%02d' % (tuple(self.date) + tuple(int(t) for t in self.time))

    def write(self, root):
        safe = os.path.join(root, 'S2%s_MSIL1C_%s_N0206_R022_T%s_%s.SAFE' % (self.letter, self.stamp(), self.tile, self.stamp()))
        if self.long:
            gran = 'S2%s_OPER_MSI_L1C_TL_SGS__%s_A010220_T%s_N02.04' % (self.letter, self.stamp(), self.tile)
        else:
            gran = 'L1C_T%s_A010220_%s' % (self.tile, self.stamp())
        d = os.path.join(safe, 'GRANULE', gran)
        os.makedirs(os.path.join(d, 'IMG_DATA'))
        for k, dom, res in BANDS:
            f = os.path.join(d, 'IMG_DATA', 'T%s_%s_B%s.jp2' % (self.tile, self.stamp(), k))
            F.write_raster(f, self.dn[dom][None], (self.ulx, res, 0, self.uly, 0, -res), self.wkt, None, 'uint16')
        day = '%04d-%02d-%02d' % tuple(self.date)
        clock = '%02d:%02d:%02d.026Z' % tuple(int(t) for t in self.time)
        x = ['<?xml version="1.0" encoding="UTF-8" standalone="no"?>', '<n1:Level-1C_User_Product>',
             '  <n1:General_Info>', '    <Product_Info>',
             '      <PRODUCT_START_TIME>%sT%s</PRODUCT_START_TIME>' % (day, clock),
             '      <PRODUCT_STOP_TIME>%sT%s</PRODUCT_STOP_TIME>' % (day, clock),
             '      <PROCESSING_LEVEL>Level-1C</PROCESSING_LEVEL>',
             '      <Datatake datatakeIdentifier="GS2%s_%s_010220_N02.06">' % (self.letter, self.stamp()),
             '        <SPACECRAFT_NAME>Sentinel-2%s</SPACECRAFT_NAME>' % self.letter, '      </Datatake>', '    </Product_Info>',
             '    <Product_Image_Characteristics>']
        q = '      <QUANTIFICATION_VALUE unit="none">%d</QUANTIFICATION_VALUE>' % self.quant
        if self.offset:
            x += [q, '      <Radiometric_Offset_List>']
            x += ['        <RADIO_ADD_OFFSET band_id="%d">%d</RADIO_ADD_OFFSET>' % bo for bo in enumerate(self.offset)]
            x += ['      </Radiometric_Offset_List>']
        else:
            x += [q]
        x += ['    </Product_Image_Characteristics>', '  </n1:General_Info>', '</n1:Level-1C_User_Product>']
        with open(os.path.join(safe, 'MTD_MSIL1C.xml'), 'w') as fp:
            fp.write('\n'.join(x)+'\n')
        x = ['<?xml version="1.0" encoding="UTF-8" standalone="no"?>', '<n1:Level-1C_Tile_ID>', '  <n1:Geometric_Info>', '    <Tile_Geocoding>']
        for res in (10, 20, 60):
            x += ['      <Size resolution="%d">' % res, '        <NROWS>%d</NROWS>' % self.size(res),
                  '        <NCOLS>%d</NCOLS>' % self.size(res), '      </Size>']
        for res in (10, 20, 60):
            x += ['      <Geoposition resolution="%d">' % res, '        <ULX>%d</ULX>' % self.ulx, '        <ULY>%d</ULY>' % self.uly,
                  '        <XDIM>%d</XDIM>' % res, '        <YDIM>-%d</YDIM>' % res, '      </Geoposition>']
        x += ['    </Tile_Geocoding>', '    <Tile_Angles>']

        def values(tag, g):
            o = ['        <%s>' % tag, '          <COL_STEP unit="m">5000</COL_STEP>', '          <ROW_STEP unit="m">5000</ROW_STEP>', '          <Values_List>']
            for r in g:
                o += ['            <VALUES>%s</VALUES>' % ' '.join('NaN' if not np.isfinite(v) else '%.4f' % v for v in r)]
            return o + ['          </Values_List>', '        </%s>' % tag]
        sun = np.full((self.nodes, self.nodes), 40.0)
        x += ['      <Sun_Angles_Grid>'] + values('Zenith', sun) + values('Azimuth', sun*4) + ['      </Sun_Angles_Grid>']
        x += ['      <Mean_Sun_Angle>', '        <ZENITH_ANGLE unit="deg">40.0</ZENITH_ANGLE>', '        <AZIMUTH_ANGLE unit="deg">160.0</AZIMUTH_ANGLE>', '      </Mean_Sun_Angle>']
        for b, det in self.zen:
            x += ['      <Viewing_Incidence_Angles_Grids bandId="%d" detectorId="%d">' % (b, det)]
            x += values('Zenith', self.zen[b, det]) + values('Azimuth', self.azi[b, det])
            x += ['      </Viewing_Incidence_Angles_Grids>']
        x += ['    </Tile_Angles>', '  </n1:Geometric_Info>', '</n1:Level-1C_Tile_ID>']
        name = 'MTD_TL.xml' if not self.long else 'MTD_%s.xml' % gran
        with open(os.path.join(d, name), 'w') as fp:
            fp.write('\n'.join(x)+'\n')
        return d
