"""Small synthetic worlds for FORCE programs; run with the repository as working directory."""
import os, shutil, subprocess, sys, tempfile, time
import numpy as np
from osgeo import gdal, osr

gdal.UseExceptions()
BIN = os.path.join(os.getcwd(), 'bin')
OX, OY = 300000.0, 5900000.0
_wkt = None
RICH = {}


def wkt():
    global _wkt
    if _wkt is None:
        sr = osr.SpatialReference()
        sr.ImportFromEPSG(32633)
        _wkt = sr.ExportToWkt()
    return _wkt


def prm(src, dst, **kw):
    out = []
    for l in open(src):
        k = l.split('=')[0].strip() if '=' in l and not l.startswith('#') else None
        if k in kw:
            if kw[k] is None:
                continue
            l = '%s = %s\n' % (k, kw[k])
        out.append(l)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'w') as f:
        f.writelines(out)


def l2_params(W, **kw):
    p = dict(FILE_QUEUE=W + '/queue.txt', DIR_LEVEL2=W + '/l2', DIR_LOG=W + '/log', DIR_PROVENANCE=W + '/prov', DIR_TEMP=W + '/temp',
             FILE_DEM='NULL', TILE_SIZE='900 900', ORIGIN_LON='13', ORIGIN_LAT='53', PROJECTION=wkt(), RESAMPLING='NN',
             DO_ATMO='FALSE', DO_TOPO='FALSE', DO_BRDF='FALSE', DO_AOD='TRUE', DIR_WVPLUT='NULL', WATER_VAPOR='1.5', DIR_AOD='NULL',
             IMPULSE_NOISE='TRUE', BUFFER_NODATA='FALSE', OUTPUT_FORMAT='GTiff', OUTPUT_OVV='FALSE', MAX_CLOUD_COVER_TILE='100',
             MAX_CLOUD_COVER_FRAME='100', NTHREAD='1', PARALLEL_READS='FALSE')
    p.update(kw)
    return p


def hl_params(W, **kw):
    p = dict(DIR_LOWER=W + '/l2', DIR_HIGHER=W + '/out', DIR_PROVENANCE=W + '/prov', X_TILE_RANGE='0 0', Y_TILE_RANGE='0 0', RESOLUTION='30',
             CHUNK_SIZE='300 300', SENSORS='LND08', NTHREAD_READ='1', NTHREAD_COMPUTE='1', NTHREAD_WRITE='1', STREAMING='FALSE',
             PRETTY_PROGRESS='FALSE', DATE_RANGE='2018-01-01 2018-12-31', OUTPUT_FORMAT='GTiff')
    p.update(kw)
    return p


def scene_name(row, date='20200615'):
    return 'LC08_L1TP_193%03d_%s_%s_02_T1' % (row, date, date)


def scene(d, row, ulx, uly, nx, ny, seed, date='2020-06-15', rich=False):
    """a small synthetic Landsat-8 level-1 product; rich: with water, dense forest, snow, and a cold cloud with its shadow"""
    name = scene_name(row, date.replace('-', ''))
    d = os.path.join(d, name)
    os.makedirs(d, exist_ok=True)
    rng = np.random.RandomState(seed)
    L = []
    P = L.append
    P('GROUP = L1_METADATA_FILE')
    P('SPACECRAFT_ID = "LANDSAT_8"')
    P('SENSOR_ID = "OLI_TIRS"')
    P('PROCESSING_LEVEL = "L1TP"')
    P('COLLECTION_CATEGORY = "T1"')
    P('DATA_TYPE = "L1TP"')
    P('WRS_PATH = 193')
    P('WRS_ROW = %d' % row)
    P('DATE_ACQUIRED = %s' % date)
    P('SCENE_CENTER_TIME = "10:02:11.1234560Z"')
    P('REFLECTIVE_LINES = %d' % ny)
    P('REFLECTIVE_SAMPLES = %d' % nx)
    P('GRID_CELL_SIZE_REFLECTIVE = 30.00')
    P('CORNER_UL_PROJECTION_X_PRODUCT = %.3f' % (ulx + 15))
    P('CORNER_UL_PROJECTION_Y_PRODUCT = %.3f' % (uly - 15))
    refl = {1: .10, 2: .09, 3: .09, 4: .08, 5: .30, 6: .2, 7: .12, 9: .001}
    for b in (1, 2, 3, 4, 5, 6, 7, 9, 10):
        fn = '%s_B%d.TIF' % (name, b)
        if b != 10:
            t = np.full((ny, nx), refl[b])
            if rich:
                for (x0, y0, w, h), sp in RICH.values():
                    t[int(y0 * ny):int((y0 + h) * ny), int(x0 * nx):int((x0 + w) * nx)] = sp[b]
            a = (t + .1) / 2e-5 * np.sin(np.radians(55))
            q = 40 if rich else 300
            arr = a + rng.randint(-q, q, (ny, nx)) + (30 if rich else 200) * np.sin(np.arange(nx) / 5.)[None, :]
        else:
            arr = 26000 + rng.randint(-200, 200, (ny, nx))
            if rich:
                for k, dn in (('cloud', 16000), ('snow', 20000)):
                    (x0, y0, w, h), _ = RICH[k]
                    arr[int(y0 * ny):int((y0 + h) * ny), int(x0 * nx):int((x0 + w) * nx)] = dn
        ds = gdal.GetDriverByName('GTiff').Create(d + '/' + fn, nx, ny, 1, gdal.GDT_UInt16)
        ds.SetGeoTransform((ulx, 30, 0, uly, 0, -30))
        ds.SetProjection(wkt())
        ds.GetRasterBand(1).WriteArray(arr.astype(np.uint16))
        ds = None
        P('FILE_NAME_BAND_%d = "%s"' % (b, fn))
    for b in (1, 2, 3, 4, 5, 6, 7, 9):
        P('RADIANCE_MAXIMUM_BAND_%d = 750.0' % b)
        P('RADIANCE_MINIMUM_BAND_%d = -62.0' % b)
        P('QUANTIZE_CAL_MAX_BAND_%d = 65535' % b)
        P('QUANTIZE_CAL_MIN_BAND_%d = 1' % b)
        P('REFLECTANCE_MULT_BAND_%d = 2.0000E-05' % b)
        P('REFLECTANCE_ADD_BAND_%d = -0.100000' % b)
    P('RADIANCE_MAXIMUM_BAND_10 = 22.00180')
    P('RADIANCE_MINIMUM_BAND_10 = 0.10033')
    P('QUANTIZE_CAL_MAX_BAND_10 = 65535')
    P('QUANTIZE_CAL_MIN_BAND_10 = 1')
    P('K1_CONSTANT_BAND_10 = 774.8853')
    P('K2_CONSTANT_BAND_10 = 1321.0789')
    P('END_GROUP = L1_METADATA_FILE')
    P('END')
    with open(d + '/' + name + '_MTL.txt', 'w') as f:
        f.write('\n'.join(L) + '\n')
    return name


def cube_def(d, ts=900.0, cs=300.0):
    """datacube definition in the tag/value format"""
    os.makedirs(d, exist_ok=True)
    sr = osr.SpatialReference()
    sr.ImportFromEPSG(32633)
    g = osr.SpatialReference()
    g.ImportFromEPSG(4326)
    for s in (sr, g):
        s.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    lon, lat, _ = osr.CoordinateTransformation(sr, g).TransformPoint(OX, OY)
    with open(d + '/datacube-definition.prj', 'w') as f:
        f.write('PROJECTION = %s\nORIGIN_GEO_X = %.9f\nORIGIN_GEO_Y = %.9f\nORIGIN_MAP_X = %f\nORIGIN_MAP_Y = %f\nTILE_SIZE_X = %f\nTILE_SIZE_Y = %f\n'
                % (wkt(), lon, lat, OX, OY, ts, ts))


def tif(path, arr, ulx, uly, res, nodata=-9999, dt=gdal.GDT_Int16, opts=()):
    nb, ny, nx = arr.shape
    ds = gdal.GetDriverByName('GTiff').Create(path, nx, ny, nb, dt, list(opts))
    ds.SetGeoTransform((ulx, res, 0, uly, 0, -res))
    ds.SetProjection(wkt())
    for b in range(nb):
        ds.GetRasterBand(b + 1).WriteArray(arr[b])
        if nodata is not None:
            ds.GetRasterBand(b + 1).SetNoDataValue(nodata)
    ds = None


def ard(d, tiles, dates, sensor='LND08', nb=6, n=30, ts=900.0, seed=1, prod='BOA', cloudy=.15):
    for (tx, ty) in tiles:
        td = '%s/X%04d_Y%04d' % (d, tx, ty)
        os.makedirs(td, exist_ok=True)
        for i, dt in enumerate(dates):
            rng = np.random.RandomState(seed * 10007 + tx * 977 + ty * 131 + i)
            base = np.array([400, 600, 700, 3000, 2000, 1200, 900, 800, 700, 600][:nb]).reshape(nb, 1, 1)
            a = base * (1 + .3 * np.sin(i / 2.)) + rng.randint(-200, 200, (nb, n, n))
            q = np.zeros((1, n, n), np.int16)
            q[0][rng.rand(n, n) < cloudy] = 2
            q[0][rng.rand(n, n) < .05] = 1
            a = a.astype(np.int16)
            a[:, q[0] == 1] = -9999
            tif('%s/%s_LEVEL2_%s_%s.tif' % (td, dt, sensor, prod), a, OX + tx * ts, OY - ty * ts, ts / n)
            tif('%s/%s_LEVEL2_%s_QAI.tif' % (td, dt, sensor), q, OX + tx * ts, OY - ty * ts, ts / n, nodata=1)


def features(d, tiles, name='FEAT', nb=4, n=30, ts=900.0, seed=3, bad=.05):
    """feature stacks for ML/SMP/TXT/LSM/LIB"""
    for (tx, ty) in tiles:
        td = '%s/X%04d_Y%04d' % (d, tx, ty)
        os.makedirs(td, exist_ok=True)
        rng = np.random.RandomState(seed * 10007 + tx * 977 + ty * 131)
        a = rng.randint(0, 3000, (nb, n, n)).astype(np.int16)
        a[:, rng.rand(n, n) < bad] = -9999
        tif('%s/%s.tif' % (td, name), a, OX + tx * ts, OY - ty * ts, ts / n)


def listing(d):
    out = {}
    for r, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = p
    return out


def skeleton(W, m):
    f = W + '/%s.skel' % m
    if not os.path.exists(f):
        subprocess.run([BIN + '/force-parameter', '-c', f, m], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return f


def l2world(W, scenes, **kw):
    """directories, Level-1 scenes [(row, ulx, uly, seed)], parameter file l2.prm"""
    for d in ('l2', 'log', 'prov', 'temp'):
        os.makedirs(W + '/' + d, exist_ok=True)
    open(W + '/queue.txt', 'w').close()
    for (row, x, y, s) in scenes:
        scene(W + '/l1', row, x, y, 30, 30, s)
    prm(skeleton(W, 'LEVEL2'), W + '/l2.prm', **l2_params(W, **kw))


def l2job(W, row):
    return [BIN + '/force-l2ps', W + '/l1/' + scene_name(row), W + '/l2.prm']


def hlprm(W, skel, name, **kw):
    q = hl_params(W, **kw)
    out, seen = [], set()
    for l in open(skeleton(W, skel)):
        k = l.split('=')[0].strip() if '=' in l and not l.startswith('#') else None
        if k in q:
            if k in seen:
                continue
            seen.add(k)
            l = '%s = %s\n' % (k, q[k])
        out.append(l)
    with open('%s/%s.prm' % (W, name), 'w') as f:
        f.writelines(out)


def run(cmd, **kw):
    kw.setdefault('timeout', 250)
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def start(cmd):
    return subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def pixels(p):
    a = gdal.Open(p).ReadAsArray()
    return a if a.ndim == 3 else a[None]


class World:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='demo', dir='/dev/shm' if os.path.isdir('/dev/shm') else None)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def verdict(ok, text):
    print(text)
    sys.exit(0 if ok else 1)
