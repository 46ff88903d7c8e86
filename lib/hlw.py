"""Higher-level workloads: one small cube and parameter sets for the submodules."""
import os, subprocess
import numpy as np
from osgeo import gdal
import workload as wl

TS, N = 600.0, 20           # tile edge in map units and pixels
TILES = [(0, 0), (1, 0)]
DATES = ['2018%02d%02d' % (m, d) for m, d in ((1, 10), (3, 5), (4, 20), (6, 1), (7, 15), (8, 30), (10, 10), (12, 1))]
FEAT = dict(INPUT_FEATURE='FEAT.tif 1 2 3 4', FEATURE_NODATA='-9999', FEATURE_EXCLUDE='FALSE')

# name -> (skeleton, parameters).  @I is the input directory, @W the world
MODULES = {
    'STM': ('TSA', dict(INDEX='NDVI NIR', OUTPUT_STM='TRUE', STM='Q50 AVG STD NUM', OUTPUT_TSS='TRUE')),
    'TSI': ('TSA', dict(INDEX='NDVI', INTERPOLATE='RBF', INT_DAY='32', OUTPUT_TSI='TRUE', OUTPUT_FBM='TRUE', OUTPUT_TRM='TRUE', OUTPUT_CAM='TRUE')),
    'HARM': ('TSA', dict(INDEX='NIR', INTERPOLATE='HARMONIC', HARMONIC_MODES='1', HARMONIC_FIT_RANGE='2018-01-01 2018-12-31', HARMONIC_TREND='FALSE', INT_DAY='64', OUTPUT_TSI='TRUE', OUTPUT_STM='TRUE', STANDARDIZE_TSS='NORMALIZE', OUTPUT_TSS='TRUE')),
    'POL': ('TSA', dict(DIR_LOWER='@I/l2p', X_TILE_RANGE='0 0', DATE_RANGE='2016-01-01 2018-12-31', INDEX='NDVI', INTERPOLATE='LINEAR', INT_DAY='16', OUTPUT_POL='TRUE', OUTPUT_PCT='TRUE', OUTPUT_TRO='TRUE', OUTPUT_FBQ='TRUE', OUTPUT_FBY='TRUE')),
    'L3': ('LEVEL3', dict(REQUIRE_AUX_PRODUCTS='NULL', BASE_LSP='a.tif b.tif c.tif', SCORE_CLOUD_WEIGHT='0', SCORE_HAZE_WEIGHT='0', SCORE_CORREL_WEIGHT='0.2', YEAR_NUM='1', OUTPUT_SCR='TRUE')),
    'CSO': ('CSO', dict(MONTH_STEP='6')),
    'TXT': ('TXT', dict(FEAT, TXT_RADIUS='60')),
    'LSM': ('LSM', dict(FEAT, LSM_RADIUS='60', LSM_THRESHOLD_TYPE='GT GT LT GT', LSM_THRESHOLD='1500 1000 2000 500', LSM='UCI MPA EDD AVG STD MAX ARE')),
    'ML': ('ML', dict(FEAT, DIR_MODEL='@I/model', FILE_MODEL='m.xml', ML_METHOD='SVR', ML_SCALE='1', OUTPUT_MLP='TRUE', OUTPUT_MLI='TRUE')),
    'SMP': ('SMP', dict(FEAT, FILE_POINTS='@I/points.csv', FILE_SAMPLE='@W/out/features.txt', FILE_RESPONSE='@W/out/response.txt', FILE_COORDINATES='@W/out/coord.txt', PROJECTED='TRUE')),
    'LIB': ('LIB', dict(FEAT, DIR_LIBRARY='@I/lib', FILE_LIBRARY='lib.txt')),
    'IDX': ('TSA', dict(DIR_LOWER='@I/l2s', SENSORS='SEN2A', TARGET_SENSOR='SEN2L', INDEX='NDVI EVI kNDVI CIre MSRre TC-WET ContRemSWIR SMA', FILE_ENDMEM='@I/endmember.txt', OUTPUT_TSS='TRUE', OUTPUT_STM='TRUE', STM='MAX IQR SKW KRT')),
    'NSE': ('TSA', dict(DIR_LOWER='@I/l2s', SENSORS='LND08 SEN2A', SPECTRAL_ADJUST='TRUE', TARGET_SENSOR='SEN2L', INDEX='SMA', OUTPUT_RMS='TRUE', FILE_ENDMEM='@I/endmember.txt', SMA_NON_NEG='FALSE', ABOVE_NOISE='3', BELOW_NOISE='1', INTERPOLATE='MOVING', MOVING_MAX='60', INT_DAY='16', OUTPUT_TSI='TRUE', OUTPUT_FBW='TRUE', OUTPUT_FBD='TRUE', STANDARDIZE_TSI='CENTER', STANDARDIZE_FOLD='NORMALIZE')),
    'PSF': ('TSA', dict(RESOLUTION='60', REDUCE_PSF='TRUE', INDEX='NDVI RED', OUTPUT_TSS='TRUE')),
    'BAP': ('LEVEL3', dict(REQUIRE_AUX_PRODUCTS='DST HOT VZN', BASE_LSP='a.tif b.tif c.tif', USE_CLOUDY='TRUE', USE_HAZY='TRUE', SCORE_VZEN_WEIGHT='0.2', SELECT='FALSE', YEAR_NUM='1', COMBINE_SCORES='MULTIPLICATIVE', OUTPUT_SCR='TRUE', OUTPUT_OVV='TRUE')),
    'RFC': ('ML', dict(FEAT, DIR_MODEL='@I/model', FILE_MODEL='rf1.xml rf2.xml', ML_METHOD='RFC', ML_CONVERGENCE='1', OUTPUT_MLP='TRUE', OUTPUT_MLI='TRUE', OUTPUT_MLU='TRUE', OUTPUT_RFP='TRUE', OUTPUT_RFM='TRUE')),
    'CFI': ('CFIMP', dict(KERNEL_SIZE='120', KERNEL_TEXT='60', SEASONAL_WINDOW='1 181 365', DIR_COARSE='@I/coarse', BASE_COARSE='COARSE.tif', COARSE_1ST_YEAR='2018', COARSE_PREDICT_YEARS='2018 2019', DATE_RANGE='2018-01-01 2019-12-31')),
}
SKELETONS = sorted({m[0] for m in MODULES.values()})


def inputs(d, bindir, prmdir):
    """everything the modules read"""
    wl.cube_def(d + '/l2', TS)
    wl.ard(d + '/l2', TILES, DATES, n=N, ts=TS)
    wl.ard(d + '/l2', TILES, DATES[2:5], sensor='LND07', n=N, ts=TS, seed=9)
    wl.ard(d + '/l2p', TILES[:1], ['%d%s' % (y, x[4:]) for y in (2016, 2017, 2018) for x in DATES[::2]], n=N, ts=TS, seed=11)
    wl.cube_def(d + '/l2p', TS)
    wl.features(d + '/l2', TILES, n=N, ts=TS)
    wl.cube_def(d + '/l2s', TS)
    wl.ard(d + '/l2s', TILES, DATES[::2], n=N, ts=TS, seed=21)
    wl.ard(d + '/l2s', TILES, DATES[1::2], sensor='SEN2A', nb=10, n=N, ts=TS, seed=22)
    for i, dt in enumerate(DATES):      # distance to clouds, haze, view zenith
        for (tx, ty) in TILES:
            rng = np.random.RandomState(500 + 10 * i + tx)
            for k, hi in (('DST', 5000), ('HOT', 1500), ('VZN', 900)):
                wl.tif('%s/l2/X%04d_Y%04d/%s_LEVEL2_LND08_%s.tif' % (d, tx, ty, dt, k), rng.randint(-300 if k == 'HOT' else 0, hi, (1, N, N)).astype(np.int16), wl.OX + tx * TS, wl.OY - ty * TS, TS / N)
    with open(d + '/endmember.txt', 'w') as f:
        for b in range(10):
            f.write(' '.join(str(x) for x in (300 + 250 * b % 1700, 2500 - 200 * b, 500 + 90 * b)) + ' ' * 600 + '\n')
    wl.cube_def(d + '/coarse', TS)
    for (tx, ty) in TILES:
        td = d + '/coarse/X%04d_Y%04d' % (tx, ty)
        os.makedirs(td, exist_ok=True)
        rng = np.random.RandomState(77 + tx)
        a = np.repeat(np.repeat(rng.randint(100, 5000, (2, N // 5, N // 5)), 5, 1), 5, 2).astype(np.int16)
        wl.tif(td + '/COARSE.tif', a, wl.OX + tx * TS, wl.OY - ty * TS, TS / N)
    rng = np.random.RandomState(5)
    with open(d + '/points.csv', 'w') as f:
        for i in range(260):     # pixel centres, distinct pixels; more than one page
            px, py = i * 71 % (2 * N * N) % (2 * N), i * 71 % (2 * N * N) // (2 * N)
            f.write('%.1f %.1f %d\n' % (wl.OX + (px + .5) * TS / N, wl.OY - (py + .5) * TS / N, i + 1))
    os.makedirs(d + '/lib', exist_ok=True)
    with open(d + '/lib/lib.txt', 'w') as f:
        for i in range(6):
            f.write(' '.join(str(x) for x in rng.randint(0, 3000, 4)) + ' ' * 900 + '\n')       # more than one page
    os.makedirs(d + '/model', exist_ok=True)
    with open(d + '/model/features.txt', 'w') as f, open(d + '/model/response.txt', 'w') as g:
        for i in range(40):
            x = rng.randint(0, 3000, 4)
            f.write(' '.join(str(v) for v in x) + '\n')
            g.write('%d\n' % (x[0] * .5 + x[1] * .2 + rng.randint(0, 50)))
    with open(d + '/model/class.txt', 'w') as g:
        for l in open(d + '/model/features.txt'):
            g.write('%d\n' % (1 + (sum(int(x) for x in l.split()[:2]) > 3000)))
    for k, w in (('rf1', '11'), ('rf2', '7')):
        wl.prm(prmdir + '/TRAIN.prm', d + '/model/%s.prm' % k, FILE_FEATURES=d + '/model/features.txt', FILE_RESPONSE=d + '/model/class.txt', FILE_MODEL=d + '/model/%s.xml' % k,
               FILE_LOG=d + '/model/%s.txt' % k, PERCENT_TRAIN='100', RANDOM_SPLIT='FALSE', ML_METHOD='RFC', RF_NTREE=w)
        subprocess.run([bindir + '/force-train', d + '/model/%s.prm' % k], capture_output=True)
    wl.prm(prmdir + '/TRAIN.prm', d + '/model/train.prm', FILE_FEATURES=d + '/model/features.txt', FILE_RESPONSE=d + '/model/response.txt',
           FILE_MODEL=d + '/model/m.xml', FILE_LOG=d + '/model/log.txt', PERCENT_TRAIN='100', RANDOM_SPLIT='FALSE', ML_METHOD='SVR')
    r = subprocess.run([bindir + '/force-train', d + '/model/train.prm'], capture_output=True, text=True)
    if not all(os.path.exists(d + '/model/%s.xml' % k) for k in ('m', 'rf1', 'rf2')):
        raise RuntimeError('force-train: %s %s' % (r.stdout[-500:], r.stderr[-500:]))


def params(prmdir, dst, W, I, module, **kw):
    sk, p = MODULES[module]
    q = {k: v.replace('@I', I).replace('@W', W) for k, v in p.items()}
    q = wl.hl_params(W, **dict(dict(DIR_LOWER=I + '/l2', X_TILE_RANGE='0 1'), **q))
    q.update(kw)
    src = prmdir + '/%s.prm' % sk
    # repeated keys (INPUT_FEATURE, FILE_MODEL) are given once
    out, seen = [], set()
    for l in open(src):
        k = l.split('=')[0].strip() if '=' in l and not l.startswith('#') else None
        if k in q:
            if k in seen or q[k] is None:
                continue
            seen.add(k)
            l = '%s = %s\n' % (k, q[k])
        out.append(l)
    with open(dst, 'w') as f:
        f.writelines(out)
