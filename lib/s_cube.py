"""Scenarios on the shell tools that treat a data cube with parallel jobs (mosaics, virtual cubes, pyramids, masks, ingestion, parameter variants)."""
import os, random, shutil
import numpy as np
from osgeo import gdal
import engine
import workload as wl
from engine import Scenario, swarm_sched
from s_l2 import draw_fault, v

RES, N, TS = 30, 30, 900.0
ND = -9999
WRITE = {'enospc', 'eio_write', 'short_write', 'disk_full'}
NAMES = ['A.tif', 'BA.tif', '20200101_LEVEL2_LND08_BOA.tif', '2020_X.B.tif', '2020_XaB.tif', 'FEAT+1.tif']


def tile(x, y):
    return 'X%04d_Y%04d' % (x, y)


def corner(x, y):
    return wl.OX + x * TS, wl.OY - y * TS


def chip(seed, name, x, y, empty=False):
    r = np.random.RandomState(abs(hash_(seed, name, x, y)) % 2**32)
    a = r.randint(0, 1000, (1, N, N)).astype(np.int16)
    a[r.rand(1, N, N) < .2] = ND
    return np.full_like(a, ND) if empty else a


def image(path):
    """opened image, None if it cannot be opened; like everywhere here, images that cannot be read are None"""
    try:
        return gdal.Open(path)
    except RuntimeError:
        return None


def pixels(ds):
    try:
        return ds.ReadAsArray() if ds is not None else None
    except RuntimeError:
        return None


def hash_(*k):
    import zlib
    return zlib.crc32(repr(k).encode())


class C17(Scenario):
    prop = 'C17'
    kinds = ('plain',)
    technique = 'seeded schedules, I/O errors and kills over the real shell tools and the programs they start'
    runs_quick, runs_thorough = 240, 8000
    rule = ('Each run lets one of the data cube tools work on a seeded data cube with one to four parallel jobs, undisturbed, with I/O errors, with an unreadable image, or killed and repeated; '
            'success must mean that all results are there and equal to a model computed from the input, and nothing that was there before may be lost.')
    real = ['force-mosaic, force-virtual-datacube, force-pyramid, force-procmask, force-cube, force-tile-extent, force-magic-parameters (complete scripts), force-mdcp',
            'bash, sed, awk, find, GNU parallel, GDAL utilities', 'file system below the scenario directory']
    stub = ['clock, sleep, random bytes, directory order, process scheduler: psim']
    assumptions = ['a failing system call has no effect, a short write transfers the stated share', 'one tool at a time works on a data cube']
    TOOLS = ['mosaic', 'vcube', 'pyramid', 'procmask', 'cube', 'vector', 'magic', 'extent']
    KINDS = ['enospc', 'eio_write', 'short_write', 'disk_full', 'eio_read', 'emfile', 'eacces', 'eio_meta']

    # ------------------------------------------------------------ cases
    def calibration(self):
        return [dict(self.draw(random.Random(7), t), mode='plain', faults=[], tool=t, jobs=2, events=1) for t in self.TOOLS]

    def needs_calibration(self, c, case):
        return False

    def calibrated(self, pairs):
        self.elig = {c['tool']: r['results'][0]['eligible'] for c, r in pairs}

    def draw(self, rng, t):
        xs = rng.choice([[3, 4], [0, 1], [-1, 0], [10, 11, 12]])
        ys = rng.choice([[5, 6], [0, 1], [7]])
        tiles = [(x, y) for x in xs for y in ys]
        tiles = rng.sample(tiles, rng.randrange(1, len(tiles) + 1))
        names = rng.sample(NAMES, rng.choice([1, 2, 3]))
        have = sorted([n, x, y] for n in names for x, y in tiles if rng.random() < .8)
        if not have:
            have = [[names[0], *tiles[0]]]
        c = dict(tool=t, seed=rng.getrandbits(40), sched=swarm_sched(rng), jobs=rng.choice([1, 2, 3, 4]), have=have, old=int(rng.random() < .3))
        if t in ('cube', 'vector'):
            c['ext'] = [[rng.randrange(-15, 40), rng.randrange(-15, 40), rng.choice([5, 20, 40, 70]), rng.choice([5, 20, 40])] for _ in range(rng.choice([1, 1, 2]))]
            c['base'] = list(rng.choice([(3, 5), (0, 0), (10, 2)]))
            c['same'] = int(rng.random() < .6)
            c['before'] = int(rng.random() < .5)
        if t == 'extent':
            c['ext'] = [[rng.randrange(-15, 40), rng.randrange(-15, 40), rng.choice([5, 20, 40, 70]), rng.choice([5, 20, 40])]]
            c['base'] = list(rng.choice([(3, 5), (0, 0), (10, 2), (1, 0)]))
        if t == 'vcube':
            c['before'] = rng.choice([0, 0, 1])
            c['over'] = rng.choice([0, 0, 1])
        if t == 'pyramid':
            c['levels'] = rng.choice(['2', '2,4', '2,4,8'])
        if t == 'procmask':
            c['expr'] = rng.choice(['A>500', 'A<100'])
            c['outname'] = rng.choice(['', 'MASK'])
        if t == 'magic':
            c['keys'] = [['K%d' % k, ['v%d%s' % (j, 'abc'[k]) for j in range(rng.choice([1, 2, 3]))]] for k in range(rng.choice([1, 2, 3]))]
            c['pair'] = rng.choice([0, 1])
            if c['pair']:
                n = len(c['keys'][0][1])
                for k in c['keys']:
                    k[1] = [k[0].lower() + str(j) for j in range(n)]
        return c

    def gen(self, rng, i):
        t = self.TOOLS[i % len(self.TOOLS)]
        c = self.draw(rng, t)
        x = rng.random()
        c['faults'] = []
        c['mode'] = 'plain'
        if x < .3:
            c['mode'] = 'fault'
            c['faults'] = [draw_fault(rng, self.elig[t], self.KINDS) for _ in range(rng.choice([1, 1, 2]))]
        elif x < .55:
            c['mode'] = 'kill'
            c['faults'] = [['kill_all', rng.randrange(max(1, self.elig[t]['kill_all'])), 0]]
        elif x < .65 and t != 'magic':
            c['mode'] = 'damaged'
            c['bad'] = rng.randrange(9)
        elif x < .8:
            c['faults'] = [['stall', rng.randrange(max(1, self.elig[t]['stall'])), rng.choice([5, 200, 3000])] for _ in range(2)]
        return c

    # ------------------------------------------------------------ world
    def ext(self, c, k):
        """array and corner of an external image: aligned with the grid, with valid and invalid pixels"""
        dx, dy, w, h = c['ext'][k]
        r = np.random.RandomState(hash_(c['seed'], k))
        a = r.randint(1, 1000, (1, h, w)).astype(np.int16)
        a[r.rand(1, h, w) < .3] = ND
        x, y = corner(*c['base'])
        return a, x + dx * RES, y - dy * RES

    def extname(self, c, k):
        return 'ext' if c.get('same') else 'ext%d' % k

    def setup(self, W, case):
        t = case['tool']
        for d in ('cube', 'out', 'in/0', 'in/1', '.parallel'):
            os.makedirs(W + '/' + d)
        open(W + '/.parallel/will-cite', 'w').close()
        self.define(W + '/cube', case['old'])
        if t == 'vcube' and case['before']:
            shutil.copy(W + '/cube/datacube-definition.prj', W + '/out/')
        if t in ('cube', 'vector'):
            self.define(W + '/out', case['old'])
        if t in ('mosaic', 'vcube', 'pyramid', 'procmask'):
            for n, x, y in case['have']:
                d = '%s/cube/%s' % (W, tile(x, y))
                os.makedirs(d, exist_ok=True)
                wl.tif(d + '/' + n, chip(case['seed'], n, x, y), *corner(x, y), RES, nodata=ND)
                ds = gdal.Open(d + '/' + n, gdal.GA_Update)
                ds.SetMetadata({'Product': n, 'Note': 'x' * 50}, 'FORCE')
                ds.GetRasterBand(1).SetDescription('band of ' + n)
                del ds
            if t == 'vcube' and case['before']:     # an earlier result that is to be kept or replaced
                n, x, y = case['have'][0]
                os.makedirs('%s/out/%s' % (W, tile(x, y)))
                with open('%s/out/%s/%s' % (W, tile(x, y), n[:-4] + '.vrt'), 'w') as f:
                    f.write('<earlier/>')
            if t == 'mosaic' and case['seed'] % 3 == 0:     # an earlier mosaic
                with open(W + '/out/' + case['have'][0][0][:-4] + '.vrt', 'w') as f:
                    f.write('<VRTDataset rasterXSize="1" rasterYSize="1"></VRTDataset>')
        for k in range(len(case.get('ext', ()))):
            a, x, y = self.ext(case, k)
            if t == 'cube':
                wl.tif('%s/in/%d/%s.tif' % (W, k, self.extname(case, k)), a, x, y, RES, nodata=ND)
            else:
                wl.polygon('%s/in/%d/%s.shp' % (W, k, self.extname(case, k)), x, y - a.shape[1] * RES, x + a.shape[2] * RES, y)
        if case.get('before') and t == 'cube':
            x, y = case['base']
            d = '%s/out/%s' % (W, tile(x, y))
            os.makedirs(d)
            wl.tif('%s/%s.tif' % (d, self.extname(case, 0)), chip(case['seed'], 'before', x, y), *corner(x, y), RES, nodata=ND)
        if t == 'magic':
            with open(W + '/in/p.prm', 'w') as f:
                for k, vs in case['keys']:
                    f.write('%%%s%%: %s\n' % (k, ' '.join(vs)))
                f.write(self.body(case, {k: '{%%%s%%}' % k for k, _ in case['keys']}))
        if case['mode'] == 'damaged':
            self.inputs = fs = sorted(f for f in wl.listing(W) if f.startswith(('cube/X', 'in/')) and f.endswith(('.tif', '.shp')))
            with open(W + '/' + fs[case['bad'] % len(fs)], 'r+b') as f:
                f.truncate(0)

    def body(self, case, val):
        return '++PARAM_START++\n' + ''.join('TAG_%s = a %s b\n# comment %d\n' % (k, val[k], i) for i, (k, _) in enumerate(case['keys'])) + '++PARAM_END++\n'

    def define(self, d, old):
        wl.cube_def(d, ts=TS)
        p = d + '/datacube-definition.prj'
        if old:
            L = [l.split(' = ', 1)[1] for l in open(p)]
            with open(p, 'w') as f:
                f.write(''.join(L[:6]) + '300.000000\n')

    def argv(self, W, case):
        t, b = case['tool'], self.bins['plain'] + '/force-'
        j = ['-j', str(case['jobs'])]
        imgs = ['%s/cube/%s/%s' % (W, tile(x, y), n) for n, x, y in case['have']]
        ext = ['%s/in/%d/%s.%s' % (W, k, self.extname(case, k), 'tif' if t == 'cube' else 'shp') for k in range(len(case.get('ext', ())))]
        return {'mosaic': lambda: [b + 'mosaic', *j, '-m', W + '/out', W + '/cube'],
                'vcube': lambda: [b + 'virtual-datacube', *(['-w'] if case['over'] else []), *j, W + '/cube', W + '/out'],
                'pyramid': lambda: [b + 'pyramid', *j, '-l', case['levels'], *imgs],
                'procmask': lambda: [b + 'procmask', *j, '-s', str(RES), '-d', W + '/cube', '-o', W + '/out', *(['-b', case['outname']] if case['outname'] else []), case['have'][0][0], case['expr']],
                'cube': lambda: [b + 'cube', *j, '-s', str(RES), '-t', 'Int16', '-n', str(ND), '-o', W + '/out', *ext],
                'vector': lambda: [b + 'cube', *j, '-s', str(RES), '-o', W + '/out', *ext],
                'extent': lambda: [b + 'tile-extent', '-d', W + '/cube', '-a', W + '/out/allow.txt', *ext],
                'magic': lambda: [b + 'magic-parameters', '-c', 'paired' if case['pair'] else 'all', '-o', W + '/out', W + '/in/p.prm']}[t]()

    def phases(self, W, case, results):
        env = dict(TERM='xterm', PATH=engine.CLEAN_PATH, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', GDAL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        ph = dict(procs=[dict(name='t', argv=['/bin/bash'] + self.argv(W, case), env=env)], exclude=[W + '/.parallel'], maxevents=60000, shuffle=1)
        yield dict(ph, seed=case['seed'], sched=case['sched'], faults=case['faults'], events=case.get('events'))
        if case['mode'] == 'kill':
            self.after = list(self.lost(W, case))
            yield dict(ph, seed=case['seed'] + 1)

    # ------------------------------------------------------------ model
    def paste(self, a, x, y, b, bx, by, nodata=ND):
        """pixels of image b (upper left corner bx, by) in image a (x, y), where b is valid"""
        c0, r0 = round((bx - x) / RES), round((y - by) / RES)
        for r in range(max(0, r0), min(a.shape[0], r0 + b.shape[0])):
            for c in range(max(0, c0), min(a.shape[1], c0 + b.shape[1])):
                if b[r - r0, c - c0] != nodata:
                    a[r, c] = b[r - r0, c - c0]
        return a

    def model(self, W, case):
        """{file below the result directory: (array, upper left corner)}, or text"""
        t, s = case['tool'], case['seed']
        out = {}
        if t == 'mosaic':
            for n in sorted({h[0] for h in case['have']}):
                ts = [(x, y) for m, x, y in case['have'] if m == n]
                x0, y0 = min(x for x, _ in ts), min(y for _, y in ts)
                a = np.full(((max(y for _, y in ts) - y0 + 1) * N, (max(x for x, _ in ts) - x0 + 1) * N), ND, np.int16)
                for x, y in ts:
                    a[(y - y0) * N:(y - y0 + 1) * N, (x - x0) * N:(x - x0 + 1) * N] = chip(s, n, x, y)[0]
                out[n[:-4] + '.vrt'] = (a, corner(x0, y0))
        elif t == 'vcube':
            for k, (n, x, y) in enumerate(case['have']):
                out['%s/%s.vrt' % (tile(x, y), n[:-4])] = '<earlier/>' if k == 0 and case['before'] and not case['over'] else (chip(s, n, x, y)[0], corner(x, y))
        elif t == 'procmask':
            n = case['have'][0][0]
            o = case['outname'] or n.split('.')[0] + '_procmask'
            for m, x, y in case['have']:
                if m == n:
                    a = chip(s, n, x, y)[0]
                    out['%s/%s.tif' % (tile(x, y), o)] = (np.where(a == ND, 255, a > 500 if '>' in case['expr'] else a < 100).astype(np.int16), corner(x, y))
        elif t in ('cube', 'vector'):
            nd = ND if t == 'cube' else 255
            for k in range(len(case['ext'])):
                b, bx, by = self.ext(case, k)
                if t == 'vector':
                    b = np.ones_like(b)
                for x in range(-4, 20):
                    for y in range(-4, 20):
                        f = '%s/%s.tif' % (tile(x, y), self.extname(case, k))
                        old = out[f][0] if f in out and t == 'cube' else None
                        if old is None and k == 0 and case.get('before') and t == 'cube' and (x, y) == tuple(case['base']):
                            old = chip(s, 'before', x, y)[0]
                        new = self.paste(np.full((N, N), nd, np.int16) if old is None else old.copy(), *corner(x, y), b[0], bx, by, nd)
                        if old is not None or (new != nd).any():
                            out[f] = (new, corner(x, y))
        return out

    def judge_files(self, W, case, lossy=False, tidy=True):
        t = case['tool']
        gdal.PushErrorHandler('CPLQuietErrorHandler')
        try:
            if t == 'pyramid':
                for n, x, y in case['have']:
                    f = 'cube/%s/%s' % (tile(x, y), n)
                    ds = image(W + '/' + f)
                    if ds is None:
                        yield '%s cannot be read' % f
                        continue
                    want = chip(case['seed'], n, x, y)[0]
                    lv = [int(l) for l in case['levels'].split(',')]
                    b = ds.GetRasterBand(1)
                    if b.GetOverviewCount() != len(lv):
                        yield '%s has %d pyramid levels, requested %d' % (f, b.GetOverviewCount(), len(lv))
                        continue
                    for k, l in enumerate(lv):
                        o = b.GetOverview(k)
                        a = pixels(o)
                        if a is None or a.shape != (-(-N // l), -(-N // l)):
                            yield 'pyramid level %d of %s cannot be read' % (l, f)
                        elif not set(np.unique(a)) <= set(np.unique(want)) or (a == a.flat[0]).all():
                            yield 'pyramid level %d of %s does not hold the pixels of the image' % (l, f)
                return
            if t == 'extent':
                x0, y0, w, h = case['ext'][0]
                bx, by = case['base']
                ts = sorted(tile(bx + i, by + j) for i in range(-1, 4) for j in range(-1, 4) if x0 < (i + 1) * N and x0 + w > i * N and y0 < (j + 1) * N and y0 + h > j * N)
                L = (wl.read_text(W + '/out/allow.txt') or '').split('\n')
                if L[0] != str(len(ts)) or sorted(L[1:-1]) != ts:
                    yield 'the list of tiles is %s, the area covers %s' % (L, ts)
                xs, ys = sorted({int(a[1:5]) for a in ts}), sorted({int(a[7:11]) for a in ts})
                o = wl.read_text(W + '/_sim/t.out') or ''
                for k, r in (('X', xs), ('Y', ys)):
                    m = [l.split('=')[1].split() for l in o.split('\n') if l.startswith(k + '_TILE_RANGE')]
                    if not m or [float(q) for q in m[-1]] != [r[0], r[-1]]:
                        yield 'the suggested range of tiles is %s, the area covers %s' % (m, [r[0], r[-1]])
                return
            if t == 'magic':
                import itertools
                ks = [k for k, _ in case['keys']]
                combos = list(zip(*[q for _, q in case['keys']])) if case['pair'] else list(itertools.product(*[q for _, q in case['keys']]))
                want = sorted(self.body(case, dict(zip(ks, c))) for c in combos)
                got = [wl.read_text(p) for f, p in sorted(wl.listing(W + '/out').items()) if f.endswith('.prm')]
                if len(got) != len(want):
                    yield '%d parameter files, requested %d' % (len(got), len(want))
                elif sorted(got) != want:
                    yield 'parameter files are not as requested'
                return
            want = self.model(W, case)
            got = {f: p for f, p in wl.listing(W + '/out').items() if f != 'datacube-definition.prj'}
            for f in sorted(set(got) - set(want)):
                if tidy or f.endswith(('.tif', '.vrt')) and 'force-cube-temp' not in f and '_TEMP' not in f:
                    yield '%s should not be there' % f
            for f in sorted(want):
                if f not in got:
                    if not lossy:
                        yield '%s is missing' % f
                    continue
                if isinstance(want[f], str):
                    if wl.read_text(got[f]) != want[f]:
                        yield '%s was replaced although this was not asked for' % f
                    continue
                a, (x, y) = want[f]
                ds = image(got[f])
                b = pixels(ds)
                if b is None:
                    yield '%s cannot be read' % f
                    continue
                g = ds.GetGeoTransform()
                if lossy and b.shape == a.shape:
                    a = np.where((b != a) & ((b == ds.GetRasterBand(1).GetNoDataValue()) | (b == (chip(case['seed'], 'before', *case['base'])[0] if case.get('before') else a))), b, a)
                if b.shape != a.shape or (b != a).any() or abs(g[0] - x) > .01 or abs(g[3] - y) > .01 or g[1] != RES or g[5] != -RES:
                    yield '%s does not hold the pixels of its input (%s instead of %s at %s)' % (f, b.shape, a.shape, g[0:4:3]) if b.shape != a.shape else \
                        '%s does not hold the pixels of its input (%d differ)' % (f, (b != a).sum())
                elif t == 'mosaic':
                    n = os.path.basename(f)[:-4] + '.tif'
                    if (ds.GetMetadata('FORCE') or {}).get('Product') != n or ds.GetRasterBand(1).GetDescription() != 'band of ' + n:
                        yield '%s lacks the metadata of its input' % f
            if t in ('cube', 'vector', 'procmask', 'vcube'):
                for d in sorted(os.listdir(W + '/out')):
                    if os.path.isdir(W + '/out/' + d) and not os.listdir(W + '/out/' + d):
                        yield 'empty directory %s' % d
        finally:
            gdal.PopErrorHandler()

    def lost(self, W, case, lossy=False):
        """input and earlier results that are no longer there as a whole"""
        gdal.PushErrorHandler('CPLQuietErrorHandler')
        try:
            for n, x, y in case['have'] if case['tool'] in ('mosaic', 'vcube', 'pyramid', 'procmask') else ():
                f = 'cube/%s/%s' % (tile(x, y), n)
                ds = image(W + '/' + f)
                if case['mode'] != 'damaged' and (pixels(ds) is None or (pixels(ds) != chip(case['seed'], n, x, y)[0]).any()):
                    yield 'input %s is damaged' % f
            if case['tool'] == 'cube':
                for k in range(len(case['ext'])):
                    f = '%s/in/%d/%s.tif' % (W, k, self.extname(case, k))
                    ds = image(f)
                    if case['mode'] != 'damaged' and (pixels(ds) is None or (pixels(ds) != self.ext(case, k)[0][0]).any()):
                        yield 'input %s is damaged' % f.replace(W, '')
                if case['before']:
                    x, y = case['base']
                    f = 'out/%s/%s.tif' % (tile(x, y), self.extname(case, 0))
                    ds = image(W + '/' + f) if os.path.exists(W + '/' + f) else None
                    a = pixels(ds)
                    old = chip(case['seed'], 'before', x, y)[0]
                    if a is None or ((a != old) & (old != ND) & ((a != ND) | (not lossy)) & (self.model(W, case)['%s/%s.tif' % (tile(x, y), self.extname(case, 0))][0] == old)).any() or not lossy and ((a == ND) & (old != ND)).any():
                        yield '%s, which was there before, is %s' % (f, 'gone' if a is None else 'damaged')
        finally:
            gdal.PopErrorHandler()

    def judge(self, W, case, results):
        t = case['tool']
        what = '+'.join(sorted(results[0]['fired'])) or ('an unreadable image' if case['mode'] == 'damaged' else 'no fault')
        if any(r['end'] != 'done' for r in results):
            yield v('no-completion', '%s does not come to an end (%s) after %s' % (t, [r['end'] for r in results], what))
            return
        code = results[-1]['exits'].get('t')
        tidy = not set(results[-1]['fired']) & {'eio_meta', 'eacces', 'emfile'}
        out = (wl.read_text(W + '/_sim/t.out') or '').replace(W, '')
        for m in self.after if len(results) > 1 else ():
            yield v(t + '-lost', '%s after %s of %s' % (m, what, t))
        for m in self.lost(W, case, lossy=bool(set(results[0]['fired']) & WRITE)):
            yield v(t + '-lost', '%s after %s of %s' % (m, what, t))
        if len(results) > 1:
            what += ' and repetition'
        if case['mode'] in ('plain', 'kill') and code != 0:
            yield v(t + '-failed', '%s exits with %s, %s: %s' % (t, code, what, out[-300:]))
        elif code == 0:
            if case['mode'] == 'damaged':
                if self.matters(case):
                    yield v(t + '-unnoticed', '%s reports success though an input image cannot be read' % t)
                return
            if t == 'pyramid' and set(results[0]['fired']) & WRITE:
                return          # gdaladdo ignores errors of writing
            # the library does not always tell that blocks could not be written; they are empty then.  What cannot be removed stays.
            for m in self.judge_files(W, case, lossy=t in ('cube', 'vector', 'procmask') and bool(set(results[-1]['fired']) & WRITE), tidy=tidy and case['mode'] != 'kill'):
                yield v(t + '-incomplete', '%s reports success, %s: %s' % (t, what, m))
        left = [f for f in wl.listing(W) if 'force-mosaic_' in f or 'temp-force' in f or '_TEMP' in f or 'force-cube-temp' in f]
        if code == 0 and left and tidy:
            yield v(t + '-leftover', '%s leaves %s behind, %s' % (t, left, what))

    def matters(self, case):
        """is the damaged image one that the tool has to read?"""
        if case['tool'] == 'vcube' and case['before'] and not case['over']:
            return False
        return case['tool'] != 'procmask' or all(n == case['have'][0][0] for n, _, _ in case['have'])

    def probes(self, case, r):
        yield 'tool-' + case['tool']
        yield 'mode-' + case['mode']
        if r['results'][0]['max_runnable'] > 2:
            yield 'three-or-more-runnable'
        if case['mode'] == 'fault' and r['results'][0]['fired']:
            yield 'fault-%s' % ('tolerated' if r['results'][0]['exits']['t'] == 0 else 'reported')
