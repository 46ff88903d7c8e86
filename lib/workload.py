"""Synthetic inputs for FORCE and readers for what it writes."""
import struct, os, shutil, subprocess
import numpy as np
from osgeo import gdal, osr

gdal.UseExceptions()
gdal.SetConfigOption('GDAL_NUM_THREADS', '1')

OX, OY = 300000.0, 5900000.0          # map origin of the higher-level test cube
_wkt = None


def wkt():
    global _wkt
    if _wkt is None:
        sr = osr.SpatialReference()
        sr.ImportFromEPSG(32633)
        _wkt = sr.ExportToWkt()
    return _wkt


# ------------------------------------------------------------------ parameter files
def skeletons(bindir, out, mods):
    """parameter skeletons as the tree under test prints them"""
    os.makedirs(out, exist_ok=True)
    for m in mods:
        f = os.path.join(out, m + '.prm')
        if not os.path.exists(f):
            r = subprocess.run([os.path.join(bindir, 'force-parameter'), '-c', f, m], capture_output=True, text=True, stdin=subprocess.DEVNULL)
            if not os.path.exists(f):
                raise RuntimeError('force-parameter %s: %s %s' % (m, r.stdout[-300:], r.stderr[-300:]))


def prm(src, dst, **kw):
    out = []
    for l in open(src):
        k = l.split('=')[0].strip() if '=' in l and not l.startswith('#') else None
        if k in kw:
            if kw[k] is None:
                continue
            l = '%s = %s\n' % (k, kw[k])
        out.append(l)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'w') as f:
        f.writelines(out)


def l2_params(W, **kw):
    p = dict(FILE_QUEUE=W + '/queue.txt', DIR_LEVEL2=W + '/l2', DIR_LOG=W + '/log', DIR_PROVENANCE=W + '/prov', DIR_TEMP=W + '/temp',
             FILE_DEM='NULL', TILE_SIZE='900 900', ORIGIN_LON='13', ORIGIN_LAT='53', PROJECTION=wkt(), RESAMPLING='NN',
             DO_ATMO='FALSE', DO_TOPO='FALSE', DO_BRDF='FALSE', DO_AOD='TRUE', DIR_WVPLUT='NULL', WATER_VAPOR='1.5', DIR_AOD='NULL',
             IMPULSE_NOISE='TRUE', BUFFER_NODATA='FALSE', OUTPUT_FORMAT='GTiff', OUTPUT_OVV='FALSE', MAX_CLOUD_COVER_TILE='100',
             MAX_CLOUD_COVER_FRAME='100', NTHREAD='1', PARALLEL_READS='FALSE')
    p.update(kw)
    return p


def hl_params(W, **kw):
    p = dict(DIR_LOWER=W + '/l2', DIR_HIGHER=W + '/out', DIR_PROVENANCE=W + '/prov', X_TILE_RANGE='0 0', Y_TILE_RANGE='0 0', RESOLUTION='30',
             CHUNK_SIZE='300 300', SENSORS='LND08', NTHREAD_READ='1', NTHREAD_COMPUTE='1', NTHREAD_WRITE='1', STREAMING='FALSE',
             PRETTY_PROGRESS='FALSE', DATE_RANGE='2018-01-01 2018-12-31', OUTPUT_FORMAT='GTiff')
    p.update(kw)
    return p


# ------------------------------------------------------------------ level 1
def scene_name(row, date='20200615'):
    return 'LC08_L1TP_193%03d_%s_%s_02_T1' % (row, date, date)


RICH = {    # place (share of the image: x, y, width, height), reflectance by band
    'water': ((.05, .05, .3, .3), {1: 0.1158, 2: 0.0950, 3: 0.0742, 4: 0.0534, 5: 0.0378, 6: 0.0326, 7: 0.0274, 9: 0.001}),
    'forest': ((.4, .05, .25, .3), {1: 0.1106, 2: 0.0898, 3: 0.0742, 4: 0.0534, 5: 0.2821, 6: 0.1158, 7: 0.0586, 9: 0.001}),
    'snow': ((.7, .05, .2, .2), {1: 0.8538, 2: 0.8538, 3: 0.8331, 4: 0.8019, 5: 0.6979, 6: 0.1054, 7: 0.0742, 9: 0.002}),
    'cloud': ((.55, .5, .25, .2), {1: 0.4900, 2: 0.4900, 3: 0.4900, 4: 0.5004, 5: 0.5420, 6: 0.4380, 7: 0.3653, 9: 0.02}),
    'shadow': ((.3, .55, .22, .2), {1: 0.0950, 2: 0.0742, 3: 0.0638, 4: 0.0534, 5: 0.1054, 6: 0.0742, 7: 0.0534, 9: 0.001}),
}


def scene(d, row, ulx, uly, nx, ny, seed, date='2020-06-15', rich=False, spots=0):
    """a small synthetic Landsat-8 level-1 product; rich: with water, dense forest, snow, and a cold cloud with its shadow; spots: with that many small clouds of different heights and their shadows"""
    name = scene_name(row, date.replace('-', ''))
    d = os.path.join(d, name)
    os.makedirs(d, exist_ok=True)
    rng = np.random.RandomState(seed)
    L = []
    P = L.append
    P('GROUP = L1_METADATA_FILE')
    P('SPACECRAFT_ID = "LANDSAT_8"')
    P('SENSOR_ID = "OLI_TIRS"')
    P('PROCESSING_LEVEL = "L1TP"')
    P('COLLECTION_CATEGORY = "T1"')
    P('DATA_TYPE = "L1TP"')
    P('WRS_PATH = 193')
    P('WRS_ROW = %d' % row)
    P('DATE_ACQUIRED = %s' % date)
    P('SCENE_CENTER_TIME = "10:02:11.1234560Z"')
    P('REFLECTIVE_LINES = %d' % ny)
    P('REFLECTIVE_SAMPLES = %d' % nx)
    P('GRID_CELL_SIZE_REFLECTIVE = 30.00')
    P('CORNER_UL_PROJECTION_X_PRODUCT = %.3f' % (ulx + 15))
    P('CORNER_UL_PROJECTION_Y_PRODUCT = %.3f' % (uly - 15))
    refl = {1: .10, 2: .09, 3: .09, 4: .08, 5: .30, 6: .2, 7: .12, 9: .001}
    spot = [((k % 3 * nx + nx // 2) // 3, (k // 3 * ny + ny) // 3, k) for k in range(spots)]
    for b in (1, 2, 3, 4, 5, 6, 7, 9, 10):
        fn = '%s_B%d.TIF' % (name, b)
        if b != 10:
            t = np.full((ny, nx), refl[b])
            if rich:
                for (x0, y0, w, h), sp in RICH.values():
                    t[int(y0 * ny):int((y0 + h) * ny), int(x0 * nx):int((x0 + w) * nx)] = sp[b]
            for x, y, k in spot:
                j, i = y - round(.9 * (5 + k)), x - round(.42 * (5 + k))         # the sun stands in the south-southeast
                t[max(j, 0):j + 4, i:i + 3 + k % 3] = RICH['shadow'][1][b]
                t[y:y + 4, x:x + 3 + k % 3] = RICH['cloud'][1][b]
            a = (t + .1) / 2e-5 * np.sin(np.radians(55))
            q = 40 if rich else 300
            arr = a + rng.randint(-q, q, (ny, nx)) + (30 if rich else 200) * np.sin(np.arange(nx) / 5.)[None, :]
        else:
            arr = 26000 + rng.randint(-200, 200, (ny, nx))
            if rich:
                for k, dn in (('cloud', 16000), ('snow', 20000)):
                    (x0, y0, w, h), _ = RICH[k]
                    arr[int(y0 * ny):int((y0 + h) * ny), int(x0 * nx):int((x0 + w) * nx)] = dn
            for x, y, k in spot:
                arr[y:y + 4, x:x + 3 + k % 3] = 23500 - 150 * k
        ds = gdal.GetDriverByName('GTiff').Create(d + '/' + fn, nx, ny, 1, gdal.GDT_UInt16)
        ds.SetGeoTransform((ulx, 30, 0, uly, 0, -30))
        ds.SetProjection(wkt())
        ds.GetRasterBand(1).WriteArray(arr.astype(np.uint16))
        ds = None
        spread(d + '/' + fn)
        P('FILE_NAME_BAND_%d = "%s"' % (b, fn))
    for b in (1, 2, 3, 4, 5, 6, 7, 9):
        P('RADIANCE_MAXIMUM_BAND_%d = 750.0' % b)
        P('RADIANCE_MINIMUM_BAND_%d = -62.0' % b)
        P('QUANTIZE_CAL_MAX_BAND_%d = 65535' % b)
        P('QUANTIZE_CAL_MIN_BAND_%d = 1' % b)
        P('REFLECTANCE_MULT_BAND_%d = 2.0000E-05' % b)
        P('REFLECTANCE_ADD_BAND_%d = -0.100000' % b)
    P('RADIANCE_MAXIMUM_BAND_10 = 22.00180')
    P('RADIANCE_MINIMUM_BAND_10 = 0.10033')
    P('QUANTIZE_CAL_MAX_BAND_10 = 65535')
    P('QUANTIZE_CAL_MIN_BAND_10 = 1')
    P('K1_CONSTANT_BAND_10 = 774.8853')
    P('K2_CONSTANT_BAND_10 = 1321.0789')
    P('END_GROUP = L1_METADATA_FILE')
    P('END')
    with open(d + '/' + name + '_MTL.txt', 'w') as f:
        f.write('\n'.join(L) + '\n')
    return name


S2_BANDS = [('01', 60), ('02', 10), ('03', 10), ('04', 10), ('05', 20), ('06', 20), ('07', 20), ('08', 10), ('8A', 20), ('09', 60), ('10', 60), ('11', 20), ('12', 20)]
S2_LIKE = {'01': 1, '02': 2, '03': 3, '04': 4, '05': 4, '06': 5, '07': 5, '08': 5, '8A': 5, '09': 5, '10': 9, '11': 6, '12': 7}     # Landsat band with the spectrum to use


def s2_name(date='20200615'):
    return 'S2A_MSIL1C_%sT101031_N0500_R022_T33UUT_%sT121314.SAFE/GRANULE/L1C_T33UUT_A025999_%sT101031' % (date, date, date)


def scene_s2(d, ulx, uly, n, seed, date='20200615', offset=0, vzen=4.5):
    """a small synthetic Sentinel-2 level-1 product of n x n pixels of 10 m (n: multiple of 6) with water, forest, snow, a cloud and its shadow"""
    g = os.path.join(d, s2_name(date))
    os.makedirs(g + '/IMG_DATA')
    rng = np.random.RandomState(seed)
    refl = {1: .10, 2: .09, 3: .09, 4: .08, 5: .30, 6: .2, 7: .12, 9: .001}
    base = rng.rand(n, n) * .01 + .01 * np.sin(np.arange(n) / 7.)[None, :]
    for b, res in S2_BANDS:
        k = S2_LIKE[b]
        t = np.full((n, n), refl[k])
        for nm, ((x0, y0, w, h), sp) in RICH.items():
            sh = {'08': 0, '07': 1, '8A': 2}.get(b, 0) if nm == 'cloud' else 0      # parallax
            t[int(y0 * n) + sh:int((y0 + h) * n) + sh, int(x0 * n):int((x0 + w) * n)] = sp[k]
        if b == '09':
            t = t * .6
        t = (t + base * (1 if k != 9 else .01)) * (1 + .02 * rng.rand(n, n))
        f = res // 10
        m = n // f
        t = t.reshape(m, f, m, f).mean((1, 3))
        fn = g + '/IMG_DATA/T33UUT_%sT101031_B%s.jp2' % (date, b)
        ds = gdal.GetDriverByName('GTiff').Create(fn, m, m, 1, gdal.GDT_UInt16)
        ds.SetGeoTransform((ulx, res, 0, uly, 0, -res))
        ds.SetProjection(wkt())
        ds.GetRasterBand(1).WriteArray((t * 10000 - offset).clip(1).astype(np.uint16))
        ds = None
        spread(fn)
    grid = lambda tag, v: ['<%s>' % tag, '<COL_STEP unit="m">5000</COL_STEP>', '<ROW_STEP unit="m">5000</ROW_STEP>', '<Values_List>'] + ['<VALUES>%s %s</VALUES>' % (v, v)] * 2 + ['</Values_List>', '</%s>' % tag]
    L = ['<?xml version="1.0"?>', '<n1:Level-1C_Tile_ID>']
    for r in (10, 20, 60):
        L += ['<Size resolution="%d">' % r, '<NROWS>%d</NROWS>' % (n * 10 // r), '<NCOLS>%d</NCOLS>' % (n * 10 // r), '</Size>']
    for r in (10, 20, 60):
        L += ['<Geoposition resolution="%d">' % r, '<ULX>%d</ULX>' % ulx, '<ULY>%d</ULY>' % uly, '</Geoposition>']
    L += ['<Sun_Angles_Grid>'] + grid('Zenith', 32.5) + grid('Azimuth', 155.1) + ['</Sun_Angles_Grid>']
    for b in range(13):
        L += ['<Viewing_Incidence_Angles_Grids bandId="%d" detectorId="3">' % b] + grid('Zenith', vzen) + grid('Azimuth', 105.5) + ['</Viewing_Incidence_Angles_Grids>']
    with open(g + '/MTD_TL.xml', 'w') as f:
        f.write('\n'.join('  ' + x for x in L) + '\n')
    t = '%s-%s-%s' % (date[:4], date[4:6], date[6:])
    L = ['<?xml version="1.0"?>', '<PRODUCT_START_TIME>%sT10:10:31.024Z</PRODUCT_START_TIME>' % t, '<PROCESSING_LEVEL>Level-1C</PROCESSING_LEVEL>', '<SPACECRAFT_NAME>Sentinel-2A</SPACECRAFT_NAME>',
         '<QUANTIFICATION_VALUE unit="none">10000</QUANTIFICATION_VALUE>'] + ['<RADIO_ADD_OFFSET band_id="%d">%d</RADIO_ADD_OFFSET>' % (b, offset) for b in range(13) if offset]
    with open(os.path.dirname(os.path.dirname(g)) + '/MTD_MSIL1C.xml', 'w') as f:
        f.write('\n'.join('  ' + x for x in L) + '\n')
    return g


# ------------------------------------------------------------------ level 2 cube
def cube_def(d, ts=900.0, cs=300.0):
    """datacube definition in the tag/value format"""
    os.makedirs(d, exist_ok=True)
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(32633)
    g = osr.SpatialReference()
    g.ImportFromEPSG(4326)
    for s in (sr, g):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    lon, lat, _ = osr.CoordinateTransformation(sr, g).TransformPoint(OX, OY)
    with open(d + '/datacube-definition.prj', 'w') as f:
        f.write('PROJECTION = %s\nORIGIN_GEO_X = %.9f\nORIGIN_GEO_Y = %.9f\nORIGIN_MAP_X = %f\nORIGIN_MAP_Y = %f\nTILE_SIZE_X = %f\nTILE_SIZE_Y = %f\n'
                % (wkt(), lon, lat, OX, OY, ts, ts))


def polygon(path, x0, y0, x1, y1):
    from osgeo import ogr
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(32633)
    ds = ogr.GetDriverByName('ESRI Shapefile').CreateDataSource(path)
    ly = ds.CreateLayer('aoi', sr, ogr.wkbPolygon)
    f = ogr.Feature(ly.GetLayerDefn())
    f.SetGeometry(ogr.CreateGeometryFromWkt('POLYGON((%f %f,%f %f,%f %f,%f %f,%f %f))' % (x0, y0, x1, y0, x1, y1, x0, y1, x0, y0)))
    ly.CreateFeature(f)


def tif(path, arr, ulx, uly, res, nodata=-9999, dt=gdal.GDT_Int16, opts=()):
    nb, ny, nx = arr.shape
    ds = gdal.GetDriverByName('GTiff').Create(path, nx, ny, nb, dt, list(opts))
    ds.SetGeoTransform((ulx, res, 0, uly, 0, -res))
    ds.SetProjection(wkt())
    for b in range(nb):
        ds.GetRasterBand(b + 1).WriteArray(arr[b])
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(nodata)
    ds = None
    spread(path)


def spread(path):
    """move the pixels to a page of their own: what cannot be read is either the header or pixels, as in images of common size"""
    d = bytearray(open(path, 'rb').read())
    o, = struct.unpack_from('<I', d, 4)
    tags = {}
    for i in range(struct.unpack_from('<H', d, o)[0]):
        a = o + 2 + 12 * i
        t, ty, n, x = struct.unpack_from('<HHII', d, a)
        tags[t] = (a + 8 if n * {3: 2, 4: 4}.get(ty, 8) <= 4 else x, n, 'H' if ty == 3 else 'I')
    if d[:4] != b'II*\0' or tags[273][2] != 'I':
        return
    at, n, f = tags[273]
    al, _, fl = tags[279]
    d += b'\0' * (-len(d) % 4096)
    for i in range(n):
        off, = struct.unpack_from('<' + f, d, at + 4 * i)
        ln, = struct.unpack_from('<' + fl, d, al + struct.calcsize(fl) * i)
        struct.pack_into('<I', d, at + 4 * i, len(d))
        d += d[off:off + ln]
    d += b'\0' * (-len(d) % 4096 + 16)      # libraries look at the end of the file to learn its size
    with open(path, 'wb') as g:
        g.write(d)


def ard(d, tiles, dates, sensor='LND08', nb=6, n=30, ts=900.0, seed=1, prod='BOA', cloudy=.15):
    for (tx, ty) in tiles:
        td = '%s/X%04d_Y%04d' % (d, tx, ty)
        os.makedirs(td, exist_ok=True)
        for i, dt in enumerate(dates):
            rng = np.random.RandomState(seed * 10007 + tx * 977 + ty * 131 + i)
            base = np.array([400, 600, 700, 3000, 2000, 1200, 900, 800, 700, 600][:nb]).reshape(nb, 1, 1)
            a = base * (1 + .3 * np.sin(i / 2.)) + rng.randint(-200, 200, (nb, n, n))
            q = np.zeros((1, n, n), np.int16)
            q[0][rng.rand(n, n) < cloudy] = 2
            q[0][rng.rand(n, n) < .05] = 1
            a = a.astype(np.int16)
            a[:, q[0] == 1] = -9999
            tif('%s/%s_LEVEL2_%s_%s.tif' % (td, dt, sensor, prod), a, OX + tx * ts, OY - ty * ts, ts / n)
            tif('%s/%s_LEVEL2_%s_QAI.tif' % (td, dt, sensor), q, OX + tx * ts, OY - ty * ts, ts / n, nodata=1)


def features(d, tiles, name='FEAT', nb=4, n=30, ts=900.0, seed=3, bad=.05):
    """feature stacks for ML/SMP/TXT/LSM/LIB"""
    for (tx, ty) in tiles:
        td = '%s/X%04d_Y%04d' % (d, tx, ty)
        os.makedirs(td, exist_ok=True)
        rng = np.random.RandomState(seed * 10007 + tx * 977 + ty * 131)
        a = rng.randint(0, 3000, (nb, n, n)).astype(np.int16)
        a[:, rng.rand(n, n) < bad] = -9999
        tif('%s/%s.tif' % (td, name), a, OX + tx * ts, OY - ty * ts, ts / n)


def masks(d, tiles, name='MASK', n=30, ts=900.0, seed=5, empty_chunks=(), chunk=None, frac=.5):
    """processing masks; chunks listed in empty_chunks (tile, cx, cy) are fully masked"""
    for (tx, ty) in tiles:
        td = '%s/X%04d_Y%04d' % (d, tx, ty)
        os.makedirs(td, exist_ok=True)
        rng = np.random.RandomState(seed * 10007 + tx * 977 + ty * 131)
        a = (rng.rand(1, n, n) < frac).astype(np.uint8)
        for (t, cx, cy) in empty_chunks:
            if t == (tx, ty) or list(t) == [tx, ty]:
                a[0, cy * chunk:(cy + 1) * chunk, cx * chunk:(cx + 1) * chunk] = 0
        tif('%s/%s.tif' % (td, name), a, OX + tx * ts, OY - ty * ts, ts / n, nodata=255, dt=gdal.GDT_Byte)


# ------------------------------------------------------------------ observation
def read_raster(path):
    """what a reader sees: pixel values, grid, no-data, band names.  None if unreadable."""
    try:
        with gdal.ExceptionMgr(useExceptions=True):
            gdal.PushErrorHandler('CPLQuietErrorHandler')
            try:
                ds = gdal.Open(path)
                a = ds.ReadAsArray()
                if a.ndim == 2:
                    a = a[None]
                m = (ds.GetGeoTransform(), ds.GetProjection(), tuple(ds.GetRasterBand(i + 1).GetNoDataValue() for i in range(ds.RasterCount)),
                     tuple(ds.GetRasterBand(i + 1).GetDescription() for i in range(ds.RasterCount)))
                ds = None
                return a, m
            finally:
                gdal.PopErrorHandler()
    except Exception:
        return None


def same_raster(p, q):
    """do two files hold the same image?"""
    try:
        if open(p, 'rb').read() == open(q, 'rb').read():
            return True
    except OSError:
        return False
    a, b = read_raster(p), read_raster(q)
    if a is None or b is None:
        return False
    return a[1] == b[1] and a[0].shape == b[0].shape and a[0].dtype == b[0].dtype and bool(np.array_equal(a[0], b[0], equal_nan=a[0].dtype.kind == 'f'))


def diff_raster(p, q):
    a, b = read_raster(p), read_raster(q)
    if a is None or b is None:
        return 'unreadable' if a is None else 'reference unreadable'
    if a[0].shape != b[0].shape:
        return 'shape %s vs %s' % (a[0].shape, b[0].shape)
    if a[1] != b[1]:
        return 'metadata differ'
    d = a[0] != b[0]
    return '%d of %d values differ' % (int(d.sum()), d.size)


def listing(d):
    out = {}
    for r, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = p
    return out


def copy_into(src, W):
    shutil.copytree(src, W, symlinks=True, dirs_exist_ok=True)


def read_text(p):
    try:
        with open(p, errors='replace') as f:
            return f.read()
    except OSError:
        return None
