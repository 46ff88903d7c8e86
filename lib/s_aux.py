"""Scenarios on the auxiliary tools (sampling, training, mixing, stacking, tables and grids)."""
import json, os, re, shutil
import numpy as np
from osgeo import gdal, ogr
import workload as wl
from engine import Scenario
from s_l2 import draw_at_file, draw_fault, file_ops, pages_read, v

ENV = dict(OPENCV_FOR_THREADS_NUM='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', GDAL_NUM_THREADS='1')


def points(path):
    """[(x, y, attributes)] of the features of a vector file; None if it cannot be read"""
    gdal.PushErrorHandler('CPLQuietErrorHandler')
    try:
        ds = gdal.OpenEx(path, gdal.OF_VECTOR)
        if ds is None or ds.GetLayerCount() != 1:
            return None
        out = []
        for f in ds.GetLayer(0):
            g = f.GetGeometryRef()
            out.append((g.ExportToWkt() if g is not None else None, sorted(f.items().items())))
        return out
    except RuntimeError:
        return None
    finally:
        gdal.PopErrorHandler()


def class_image(path, rng, n, classes):
    """class image with nodata; returns the number of pixels per class"""
    a = np.array([[rng.choice(classes + [-9999]) for _ in range(n)] for _ in range(n)], np.int16)
    for c in classes:               # rare classes
        if rng.random() < .3:
            keep = rng.choice([1, 2, 5])
            yx = np.argwhere(a == c)
            for y, x in yx[keep:]:
                a[y, x] = -9999
    wl.tif(path, a[None], 400000, 5800000, 30)
    return {c: int((a == c).sum()) for c in classes}


class C15(Scenario):
    prop = 'C15'
    kinds = ('plain',)
    technique = 'seeded clock and random numbers over the real programs'
    runs_quick, runs_thorough = 600, 20000
    rule = ('Each run draws a stratified sample, splits samples into training and validation, or mixes synthetic samples, with a seeded request and a seeded time of day or entropy, '
            'on which the random numbers of the tool depend; the result must fulfil the request exactly.')
    real = ['force-stratified-sample, force-hist, force-train, force-synthmix (complete programs)', 'file system below the scenario directory']
    stub = ['clock and random bytes: psim']
    assumptions = ['the table of class counts is the one of the image']

    def pre(self):
        wl.skeletons(self.bins['plain'], self.base + '/prm', ['TRAIN', 'SYNTHMIX'])

    def gen(self, rng, i):
        c = dict(tool=['strat', 'train', 'mix', 'strat'][i % 4], seed=rng.getrandbits(32), epoch=1500000000 + rng.randrange(400000000), entropy=rng.getrandbits(40))
        if c['tool'] == 'strat':
            c.update(n=rng.choice([12, 20, 32]), classes=rng.sample([1, 2, 3, 5, 8, 100, -3, 200], rng.choice([1, 2, 3, 4])), want=rng.choice(['one', 'few', 'half', 'most', 'all', 'mixed']))
        elif c['tool'] == 'train':
            c.update(n=rng.choice([20, 33, 60, 101]), percent=rng.choice([50, 60, 66.6, 70, 75, 90, 99, 100]), split=rng.choice(['TRUE', 'TRUE', 'FALSE']), method=rng.choice(['RFC', 'RFR']))
        else:
            c.update(n=rng.choice([1, 5, 40]), complexity=rng.choice([[1], [2], [3], [1, 2], [2, 3], [1, 2, 3]]), within=rng.choice(['TRUE', 'FALSE']), original=rng.choice(['TRUE', 'FALSE']),
                     likelihood=rng.choice(['PROPORTIONAL', 'EQUALIZED']), iterations=rng.choice([1, 2]), targets=rng.choice([[1], [2, 4], [1, 2, 3, 4]]))
        return c

    def setup(self, W, case):
        import random
        rng = random.Random(case['seed'])
        os.makedirs(W + '/out')
        if case['tool'] == 'strat':
            count = class_image(W + '/img.tif', rng, case['n'], case['classes'])
            self.want = {}
            with open(W + '/size.csv', 'w') as f:
                f.write('class,count,ssize\n')
                for c in case['classes']:
                    k = case['want'] if case['want'] != 'mixed' else rng.choice(['one', 'few', 'half', 'most', 'all'])
                    n = count[c]
                    s = min(n, {'one': 1, 'few': 3, 'half': max(1, n // 2), 'most': n - n // 10, 'all': n}[k])
                    f.write('%d,%d,%d\n' % (c, n, s))
        elif case['tool'] == 'train':
            with open(W + '/features.txt', 'w') as f, open(W + '/response.txt', 'w') as g:
                for k in range(case['n']):
                    x = [rng.randrange(3000) for _ in range(3)]
                    f.write(' '.join(map(str, x)) + '\n')
                    g.write('%d\n' % (1 + (x[0] > 1500) + (x[1] > 1500) if case['method'] == 'RFC' else x[0] + x[1]))
            wl.prm(self.base + '/prm/TRAIN.prm', W + '/t.prm', FILE_FEATURES=W + '/features.txt', FILE_RESPONSE=W + '/response.txt', FILE_MODEL=W + '/out/m.xml', FILE_LOG=W + '/out/log.txt',
                   PERCENT_TRAIN=str(case['percent']), RANDOM_SPLIT=case['split'], ML_METHOD=case['method'], RF_NTREE='5')
        else:
            # a sample tells its class (columns 1-4) and its number (column 5)
            cl = [1, 1, 1, 2, 2, 3, 3, 3, 3, 4, 4, 4]
            with open(W + '/features.txt', 'w') as f, open(W + '/response.txt', 'w') as g:
                for k, c in enumerate(cl):
                    f.write(' '.join('10000' if c == j else '0' for j in (1, 2, 3, 4)) + ' %d\n' % (100 * k + rng.randrange(90)))
                    g.write('%d\n' % c)
            p = 1. / len(case['complexity'])
            wl.prm(self.base + '/prm/SYNTHMIX.prm', W + '/t.prm', FILE_FEATURES=W + '/features.txt', FILE_RESPONSE=W + '/response.txt', USE_CLASSES='ALL', SYNTHETIC_MIXTURES=str(case['n']),
                   INCLUDE_ORIGINAL=case['original'], MIXING_COMPLEXITY=' '.join(map(str, case['complexity'])), MIXING_LIKELIHOOD=' '.join('%.4f' % p for _ in case['complexity']),
                   WITHIN_CLASS_MIXING=case['within'], CLASS_LIKELIHOOD=case['likelihood'], ITERATIONS=str(case['iterations']), TARGET_CLASS=' '.join(map(str, case['targets'])),
                   DIR_MIXES=W + '/out', BASE_MIXES='MIX')

    def phases(self, W, case, results):
        b = self.bins['plain']
        argv = {'strat': [b + '/force-stratified-sample', '-o', W + '/out/s.gpkg', W + '/img.tif', W + '/size.csv', 'ssize'],
                'train': [b + '/force-train', W + '/t.prm'], 'mix': ['/usr/bin/python3', '-B', b + '/force-synthmix', W + '/t.prm']}[case['tool']]
        yield dict(seed=case['entropy'], epoch=case['epoch'], procs=[dict(name='t', argv=argv, env=ENV)])
        if case['tool'] == 'train' and case['split'] == 'FALSE':
            os.rename(W + '/out/m.xml', W + '/first.xml')
            yield dict(seed=case['entropy'] + 1, epoch=case['epoch'] + 12345, procs=[dict(name='t', argv=argv, env=ENV)])

    def judge(self, W, case, results):
        for r in results:
            if r['end'] != 'done' or r['exits'].get('t'):
                yield v('run-failed', '%s ends with %s, exit code %s: %s' % (case['tool'], r['end'], r['exits'].get('t'), (wl.read_text(W + '/_sim/t.out') or '')[-300:]))
                return
        for m in getattr(self, 'judge_' + case['tool'])(W, case):
            yield v(case['tool'], m)

    def judge_strat(self, W, case):
        want = {}
        for l in open(W + '/size.csv').read().split('\n')[1:-1]:
            c, _, s = l.split(',')
            want[int(c)] = int(s)
        got = points(W + '/out/s.gpkg')
        if got is None:
            yield 'the sample cannot be read'
            return
        a = gdal.Open(W + '/img.tif').ReadAsArray()
        seen, n = set(), {}
        for g, at in got:
            at = dict(at)
            c = at.get('label_map')
            x, y = (float(t) for t in g[g.index('(') + 1:-1].split())
            j, i = (x - 400000) / 30 - .5, (5800000 - y) / 30 - .5
            if abs(i - round(i)) > 1e-6 or abs(j - round(j)) > 1e-6 or not (0 <= round(i) < a.shape[0] and 0 <= round(j) < a.shape[1]):
                yield 'point %s is not the centre of a pixel' % g
                return
            p = (round(i), round(j))
            if p in seen:
                yield 'pixel %s is sampled twice' % (p,)
            seen.add(p)
            if a[p] != c:
                yield 'point in a pixel of class %d is labelled %s' % (a[p], c)
                return
            n[c] = n.get(c, 0) + 1
        for c in sorted(set(want) | set(n)):
            if n.get(c, 0) != want.get(c, 0):
                yield 'class %d: %d samples drawn, %d requested' % (c, n.get(c, 0), want.get(c, 0))
                return

    def judge_train(self, W, case):
        rows = [l.replace(',', '').split() for l in (wl.read_text(W + '/out/log.txt') or '').split('\n') if l.startswith('sample: ')]
        if [int(r[1]) for r in rows] != list(range(case['n'])):
            yield 'the log does not list every sample once'
            return
        tr = [int(r[1]) for r in rows if r[3] == '1']
        if len(tr) != int(case['n'] * np.float32(case['percent']) / np.float32(100)):
            yield '%d of %d samples used for training with a share of %g %%' % (len(tr), case['n'], case['percent'])
        if case['split'] == 'FALSE':
            if tr != list(range(len(tr))):
                yield 'the training samples are not the first ones though no random split was asked for'
            if wl.read_text(W + '/first.xml') != wl.read_text(W + '/out/m.xml'):
                yield 'the model depends on the time of training though no random split was asked for'

    def judge_mix(self, W, case):
        feat = np.loadtxt(W + '/features.txt')
        resp = np.loadtxt(W + '/response.txt')
        names = {'MIX_%s_CLASS-%03d_ITERATION-%03d.txt' % (k, t, i + 1) for k in ('FEATURES', 'RESPONSE') for t in case['targets'] for i in range(case['iterations'])}
        if set(os.listdir(W + '/out')) != names:
            yield 'files %s, requested %s' % (sorted(os.listdir(W + '/out')), sorted(names))
            return
        for t in case['targets']:
            for i in range(case['iterations']):
                fs, rs = (np.loadtxt(W + '/out/MIX_%s_CLASS-%03d_ITERATION-%03d.txt' % (k, t, i + 1), ndmin=d) for k, d in (('FEATURES', 2), ('RESPONSE', 1)))
                n = case['n'] + (len(feat) if case['original'] == 'TRUE' else 0)
                if len(fs) != n or len(rs) != n:
                    yield '%d features and %d responses, requested %d' % (len(fs), len(rs), n)
                    return
                for k in range(case['n']):
                    w = fs[k, :4] / 10000
                    if abs(w.sum() - 1) > 1e-4 or w.min() < 0:
                        yield 'fractions %s do not sum to one' % w
                    if (w > 0).sum() > max(case['complexity']):
                        yield '%d classes in a mixture of at most %d' % ((w > 0).sum(), max(case['complexity']))
                    if not 0 <= rs[k] <= 1:
                        yield 'response %g' % rs[k]
                    # with mixing within the class, other members of the class add to its share
                    if (w[t - 1] < rs[k] - 2e-4) if case['within'] == 'TRUE' else abs(w[t - 1] - rs[k]) > 2e-4:
                        yield 'response %g for a share of %g of class %d' % (rs[k], w[t - 1], t)
                        return
                if case['original'] == 'TRUE' and not (np.allclose(fs[case['n']:], feat) and np.array_equal(rs[case['n']:], resp == t)):
                    yield 'original samples are not complete'

    def probes(self, case, r):
        yield 'tool-' + case['tool']
        if case['tool'] == 'strat':
            yield 'want-' + case['want']


class C16(Scenario):
    prop = 'C16'
    kinds = ('plain',)
    technique = 'seeded I/O errors over the real programs'
    runs_quick, runs_thorough = 1500, 40000
    rule = ('Each run executes one auxiliary tool and injects one to three I/O errors into its reads or writes; success must mean that its result equals the one of an undisturbed run, '
            'and its input must stay as it was.')
    real = ['force-stack, force-mdcp, force-qai-inflate, force-tabulate-grid, force-hist, force-stratified-sample, force-train, force-synthmix, force-parameter, force-tile-finder (complete programs)',
            'file system below the scenario directory']
    stub = ['clock and random bytes: psim']
    assumptions = ['a failing system call has no effect, a short write transfers the stated share']
    KINDS = ['enospc', 'eio_write', 'short_write', 'disk_full', 'eio_read', 'eio_read', 'emfile', 'eacces', 'eio_meta', 'eio_close']
    TOOLS = {
        'stack': ['force-stack', '-o', '@W/d/s.vrt', '@W/d/a.tif', '@W/d/b.tif'], 'stack2': ['force-stack', '-o', '@W/d/s.vrt', '@W/d/c.tif', '@W/d/b.tif'],
        'mdcp-vrt': ['force-mdcp', '@W/d/a.tif', '@W/d/m.vrt'], 'mdcp-tif': ['force-mdcp', '@W/d/a.tif', '@W/d/m.tif'],
        'inflate': ['force-qai-inflate', '@W/d/20200615_LEVEL2_LND08_QAI.tif', '@W/out'],
        'grid-gpkg': ['force-tabulate-grid', '-b', '52.2,52.4,13.4,13.7', '-o', '@W/out/g.gpkg', '-f', 'GPKG', '@W/cube'],
        'grid-shp': ['force-tabulate-grid', '-b', '52.2,52.4,13.4,13.7', '-o', '@W/out/g.shp', '-f', 'ESRI Shapefile', '@W/cube'],
        'grid-kml': ['force-tabulate-grid', '-b', '52.2,52.4,13.4,13.7', '-o', '@W/out/g.kml', '-f', 'KML', '@W/cube'],
        'hist': ['force-hist', '-o', '@W/out/h.csv', '@W/d/class.tif'],
        'strat': ['force-stratified-sample', '-o', '@W/out/s.gpkg', '@W/d/class.tif', '@W/d/size.csv', 'ssize'],
        'param': ['force-parameter', '@W/out/p.prm', 'TSA'], 'param-l2': ['force-parameter', '@W/out/p.prm', 'LEVEL2'],
        'train-rf': ['force-train', '@W/rf.prm'], 'train-svm': ['force-train', '@W/svm.prm'], 'mix': ['force-synthmix', '@W/mix.prm'],
        'tile': ['force-tile-finder', '-p', '13.5,52.3', '-r', '30', '@W/cube']}

    def pre(self):
        wl.skeletons(self.bins['plain'], self.base + '/prm', ['TRAIN', 'SYNTHMIX'])
        self.tpl = t = self.base + '/tpl-aux'
        if os.path.isdir(t):
            return
        import random
        rng = random.Random(3)
        os.makedirs(t + '/out')
        d = t + '/d'
        os.makedirs(d)
        for f, nb in (('a', 3), ('b', 3), ('c', 2), ('m', 3)):
            a = np.array([[[rng.randrange(9000) for _ in range(60)] for _ in range(60)] for _ in range(nb)], np.int16)
            wl.tif('%s/%s.tif' % (d, f), a, 400000, 5800000, 30)
            if f != 'm':
                ds = gdal.Open('%s/%s.tif' % (d, f), gdal.GA_Update)
                ds.SetMetadata({'Domain%d' % k: '%s value %d %s' % (f, k, 'x' * 60) for k in range(40)}, 'FORCE')
                for b in range(nb):
                    ds.GetRasterBand(b + 1).SetDescription('%s%d' % (f, b))
                    ds.GetRasterBand(b + 1).SetMetadata({'Date': '2020-06-%02d' % (b + 1), 'Sensor': 'LND08', 'Wavelength': '0.%d' % (b + 4)}, 'FORCE')
                del ds
        wl.tif(d + '/20200615_LEVEL2_LND08_QAI.tif', np.array([[[rng.randrange(8192) for _ in range(60)] for _ in range(60)]], np.int16), 400000, 5800000, 30, nodata=1)
        gdal.BuildVRT(d + '/m.vrt', [d + '/m.tif'])
        wl.cube_def(t + '/cube')
        n = class_image(d + '/class.tif', rng, 60, [1, 2, 4, 7])
        with open(d + '/size.csv', 'w') as f:
            f.write('class,count,ssize\n' + ''.join('%d,%d,%d%s\n' % (c, n[c], min(n[c], 40), ' ' * 1300) for c in sorted(n)))
        with open(d + '/features.txt', 'w') as f, open(d + '/response.txt', 'w') as g, open(d + '/value.txt', 'w') as h:
            for k in range(280):
                x = [rng.randrange(3000) for _ in range(3)]
                f.write(' '.join(map(str, x)) + ' ' * 8 + '\n')
                g.write('%d%s\n' % (1 + (x[0] > 1500) + (x[1] > 1500), ' ' * 18))
                h.write('%d%s\n' % (x[0] + x[1], ' ' * 18))

    def setup(self, W, case):
        wl.copy_into(self.tpl, W)
        d = W + '/d'
        for k, m in (('rf', 'RFC'), ('svm', 'SVR')):
            wl.prm(self.base + '/prm/TRAIN.prm', '%s/%s.prm' % (W, k), FILE_FEATURES=d + '/features.txt', FILE_RESPONSE=d + ('/response.txt' if k == 'rf' else '/value.txt'), FILE_MODEL=W + '/out/m.xml',
                   FILE_LOG=W + '/out/log.txt', PERCENT_TRAIN='70', RANDOM_SPLIT='FALSE', ML_METHOD=m, RF_NTREE='7', SVM_C_RANGE='100 100', SVM_GAMMA_RANGE='1 1', SVM_P='50')
        wl.prm(self.base + '/prm/SYNTHMIX.prm', W + '/mix.prm', FILE_FEATURES=d + '/features.txt', FILE_RESPONSE=d + '/response.txt', USE_CLASSES='ALL', SYNTHETIC_MIXTURES='200', INCLUDE_ORIGINAL='TRUE',
               MIXING_COMPLEXITY='2 3', MIXING_LIKELIHOOD='0.5 0.5', WITHIN_CLASS_MIXING='TRUE', CLASS_LIKELIHOOD='EQUALIZED', ITERATIONS='2', TARGET_CLASS='1 3', DIR_MIXES=W + '/out', BASE_MIXES='MIX')

    def calibration(self):
        return [dict(mode='ref', tool=t) for t in sorted(self.TOOLS)]

    def needs_calibration(self, c, case):
        return c['tool'] == case['tool']

    def argv(self, W, tool):
        a = [x.replace('@W', W) for x in self.TOOLS[tool]]
        a[0] = self.bins['plain'] + '/' + a[0]
        return (['/usr/bin/python3', '-B'] if tool == 'mix' else []) + a

    def phases(self, W, case, results):
        yield dict(procs=[dict(name='t', argv=self.argv(W, case['tool']), env=ENV)], faults=case.get('faults', ()), events=case['mode'] == 'ref')

    def calibrated(self, pairs):
        self.elig = {c['tool']: r['results'][-1]['eligible'] for c, r in pairs}
        self.reads = {c['tool']: json.load(open('%s/ref/aux-%s.reads' % (self.base, c['tool']))) for c, r in pairs}
        self.ops = {c['tool']: json.load(open('%s/ref/aux-%s.ops' % (self.base, c['tool']))) for c, r in pairs}

    def gen(self, rng, i):
        t = sorted(self.TOOLS)[i % len(self.TOOLS)]
        c = dict(mode='run', tool=t, faults=[draw_fault(rng, self.elig[t], self.KINDS) for _ in range(rng.choice([1, 1, 1, 2, 3]))])
        if rng.random() < .3 and self.reads[t]:
            f, n = rng.choice(self.reads[t])
            c['faults'] = [['eio_read', rng.choice([0, 0, 0, 1, 2, 5]), 2 + rng.randrange(n), f]]
        elif rng.random() < .35 and self.ops[t]:
            c['faults'] = draw_at_file(rng, self.ops[t])
        return c

    def same(self, p, q):
        if p.endswith('.tif'):
            return wl.same_raster(p, q)
        if p.endswith(('.gpkg', '.shp')):
            a = points(p)
            return a is not None and a == points(q)
        if p.endswith(('.gpkg-journal', '.gpkg-wal', '.gpkg-shm', '.shx', '.dbf', '.prj', '.cpg', '.aux.xml', '.lock')):
            return True
        if p.endswith('log.txt'):
            a, b = ((wl.read_text(x) or '').split('Training')[0] for x in (p, q))
            return a == b
        a, b = open(p, 'rb').read(), open(q, 'rb').read()
        if 'provenance' in p:       # names the input with its directory
            a, b = (re.sub(rb'[^,\s]*/(d|out)/', b'', x) for x in (a, b))
        return a == b

    def judge(self, W, case, results):
        r = results[0]
        t = case['tool']
        fired = r['fired']
        code = r['exits'].get('t')
        out = wl.read_text(W + '/_sim/t.out') or ''
        ref = '%s/ref/aux-%s' % (self.base, t)
        what = '+'.join(sorted(fired)) or 'no fault'
        if case['mode'] == 'ref':
            if r['end'] != 'done' or code:
                yield v('run-failed', '%s in a sound world ends with %s, exit code %s: %s' % (t, r['end'], code, out[-300:]))
            shutil.rmtree(ref, ignore_errors=True)
            os.makedirs(ref)
            for x in ('out', 'd'):
                shutil.copytree(W + '/' + x, ref + '/' + x)
            with open(ref + '.txt', 'w') as f:
                f.write(out.replace(W, '@W'))
            json.dump(pages_read(r['evfile'], W), open(ref + '.reads', 'w'))
            json.dump(file_ops(r['evfile']), open(ref + '.ops', 'w'))
            return
        if r['end'] == 'spin' and fired:
            return          # endless loop of the TIFF library after a write error: the user has to kill it
        if r['end'] != 'done':
            yield v('no-completion', '%s does not come to an end (%s) after %s' % (t, r['end'], what))
            return
        if 'tag ignored' in out or (code == -11 and 'TIFF directory is missing required' in out):
            return          # the TIFF library leaves out descriptions that it cannot read, and crashes in files it could not rewrite
        if t == 'grid-kml' and set(fired) & {'enospc', 'eio_write', 'short_write', 'disk_full', 'eio_close'}:
            return          # the KML driver ignores errors of writing
        if code < 0 and not (code == -6 and 'terminate called' in out):
            yield v('crash', '%s dies of signal %d after %s: %s' % (t, -code, what, out[-200:]))
        got, want, before = wl.listing(W), wl.listing(ref), wl.listing(self.tpl)
        if code == 0:
            for f in sorted(want):
                if f not in got:
                    if not f.endswith(('.aux.xml', '.lock', '.prj', '.cpg')):    # the drivers write these as an extra
                        yield v(t + '-missing', '%s reports success after %s but %s is missing' % (t, what, f))
                elif not self.same(got[f], want[f]):
                    yield v(t + '-damaged', '%s reports success after %s but %s is not what it should be' % (t, what, f))
            if t == 'tile' and out.replace(W, '@W') != wl.read_text(ref + '.txt'):
                yield v('tile-stdout', 'tile-finder reports success after %s but prints %r' % (what, out[-200:]))
        for f in sorted(before):
            if f.startswith('d/m.') or f == 'd/s.vrt':
                continue
            if f not in got or open(got[f], 'rb').read() != open(before[f], 'rb').read():
                yield v('input-changed', '%s changes its input %s after %s' % (t, f, what))

    def probes(self, case, r):
        if case['mode'] == 'run':
            x = r['results'][-1]
            yield 'exit-zero' if x['exits']['t'] == 0 else 'exit-nonzero'
            if x['fired'] and x['exits']['t'] == 0:
                yield 'fault-tolerated'
