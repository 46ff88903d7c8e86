"""Scenarios on the Level-2 processor (force-l2ps run as concurrent processes)."""
import json, itertools, os, re, shutil
import workload as wl
from engine import Scenario, swarm_sched

# scenes of one acquisition day and one sensor whose footprints overlap each other
SCENES = [  # row, ulx, uly, seed
    (23, 400000, 5800000, 1), (24, 400000, 5799400, 2), (25, 400300, 5799700, 3), (26, 399700, 5800300, 4),
    (27, 400000, 5800000, 5), (28, 400000, 5800000, 6)]


class L2(Scenario):
    n_scenes = 6
    size = 30

    real = ['force-l2ps (complete executable, GDAL I/O included)', 'file system below the scenario directory']
    stub = ['clock, sleep, random bytes, directory order, process scheduler: psim']

    def pre(self):
        wl.skeletons(self.bins['plain'], self.base + '/prm', ['LEVEL2'])
        self.tpl = self.base + '/tpl-l2'
        if not os.path.isdir(self.tpl):
            for (row, x, y, s) in SCENES[:self.n_scenes]:
                wl.scene(self.tpl + '/l1', row, x, y, self.size, self.size, s)

    def setup(self, W, case):
        wl.copy_into(self.tpl, W)
        for d in ('l2', 'log', 'prov', 'temp'):
            os.makedirs(W + '/' + d)
        open(W + '/queue.txt', 'w').close()
        wl.prm(self.base + '/prm/LEVEL2.prm', W + '/l2.prm', **wl.l2_params(W, **case.get('prm', {})))

    def job(self, W, i, start=0, bins='plain', name=None):
        return dict(name=name or 'j%s' % i, start=start, argv=[self.bins[bins] + '/force-l2ps', W + '/l1/' + (wl.s2_name() if i == 's2' else wl.scene_name(SCENES[i][0])), W + '/l2.prm'])

    def common(self, W, **kw):
        ph = dict(exclude=[W + '/l1'])
        ph.update(kw)
        return ph


def v(key, msg):
    return dict(key=key, msg=msg)


class C03(L2):
    prop = 'C03'
    runs_quick, runs_thorough = 300, 6000
    rule = ('Each run starts two to four real Level-2 jobs whose images share tile products, under a seeded schedule with seeded stalls; '
            'every final product must equal what some serial order of the jobs produces.')
    assumptions = ['writes of one system call are atomic with respect to other processes', 'no stall exceeds the lock timeout (see the lock property)']
    SETS = {'ab': (0, 1), 'abc': (0, 1, 2), 'ae': (0, 4), 'aef': (0, 4, 5)}

    def calibration(self):
        return [dict(mode='ref', set=k, order=list(p)) for k, s in sorted(self.SETS.items()) for p in itertools.permutations(s)]

    def needs_calibration(self, c, case):
        return c['set'] == case['set']

    def refdir(self, s, order):
        return '%s/ref/%s-%s' % (self.base, s, ''.join(map(str, order)))

    def phases(self, W, case, results):
        if case['mode'] == 'ref':
            for i in case['order']:
                yield self.common(W, procs=[self.job(W, i)])
            return
        yield self.common(W, seed=case['seed'], sched=case['sched'], shuffle=1, faults=case['faults'],
                          procs=[self.job(W, i, st) for i, st in zip(case['jobs'], case['start'])])

    def gen(self, rng, i):
        s = rng.choice(['ab', 'ae', 'ae', 'ae', 'aef', 'aef', 'abc'])
        jobs = list(self.SETS[s])
        rng.shuffle(jobs)
        spread = rng.choice([0, 0, 10**6, 10**7])
        start = [0] + [rng.randint(0, spread) for _ in jobs[1:]]
        faults = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            faults.append(['stall', rng.randrange(self.nstall[s]), rng.choice([5, 200, 600, 5000, 20000])])
        return dict(mode='run', set=s, jobs=jobs, start=start, sched=swarm_sched(rng), faults=faults, seed=rng.getrandbits(48))

    def calibrated(self, pairs):
        self.nstall = {}
        for c, r in pairs:
            self.nstall[c['set']] = sum(x['eligible']['stall'] for x in r['results'])

    def judge(self, W, case, results):
        if case['mode'] == 'ref':
            d = self.refdir(case['set'], case['order'])
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(W + '/l2', d)
            for r in results:
                for n, e in r['exits'].items():
                    if e:
                        yield v('serial-job-failed', 'a Level-2 job run on its own in a sound world exits with %d' % e)
            return
        r = results[0]
        if r['end'] != 'done':
            yield v('no-completion', 'concurrent Level-2 jobs did not come to an end (%s)' % r['end'])
            return
        for n, e in sorted(r['exits'].items()):
            if e:
                yield v('job-failed', 'job %s exits with %d although nothing but concurrency happened: %s' % (n, e, (wl.read_text('%s/_sim/%s.out' % (W, n)) or '')[-200:]))
        refs = [wl.listing(self.refdir(case['set'], p)) for p in itertools.permutations(self.SETS[case['set']])]
        got = wl.listing(W + '/l2')
        want = set(refs[0])
        for f in sorted(want - set(got)):
            yield v('product-missing', '%s is missing after concurrent jobs, every serial order creates it' % f)
        for f in sorted(set(got) - want):
            yield v('product-extra', '%s exists after concurrent jobs, no serial order creates it' % f)
        for f in sorted(want & set(got)):
            if not f.endswith('.tif'):
                continue
            if not any(wl.same_raster(got[f], x[f]) for x in refs):
                yield v('not-serialisable', '%s equals the result of no serial order of the jobs (%s)' % (f, '; '.join(wl.diff_raster(got[f], x[f]) for x in refs)[:300]))

    def probes(self, case, r):
        if case['mode'] == 'run':
            if r['results'][0]['time_jumps']:
                yield 'lock-contention-wait'
            if r['results'][0]['max_runnable'] > 2:
                yield 'three-or-more-runnable'


ERRORS = ['enospc', 'eio_write', 'short_write', 'disk_full', 'eio_read', 'emfile', 'eacces', 'eio_meta', 'eio_close']


def draw_fault(rng, elig, kinds):
    """one fault at a seeded place among the operations the fault-free run performs"""
    k = rng.choice([x for x in kinds if elig.get(x)])
    par = {'disk_full': rng.choice([1, 3, 10, 0]), 'short_write': rng.choice([1, 50, 99]), 'kill_mid': rng.choice([1, 50, 99]),
           'eio_close': 0, 'enomem': rng.choice([1, 1, 3])}.get(k, 0)
    return [k, rng.randrange(elig[k]), par]


def pages_read(evfile, W):
    """[file, number of pages] of all files a run has read"""
    fs = {l.split()[3] for l in open(evfile) if len(l.split()) > 4 and l.split()[2] == 'read'}
    return sorted([f, (os.path.getsize(W + f) + 4095) // 4096] for f in fs if not f.startswith('/out/') and os.path.isfile(W + f) and os.path.getsize(W + f))


def file_ops(evfile):
    """[file, [operation, times]...] of all files a run has touched; names of temporary files that hold random parts do not repeat and are left out"""
    n = {}
    for l in open(evfile):
        x = l.split()
        if len(x) > 4 and x[2] in AT and x[3].startswith('/') and not re.match(r'/(proc|_sim|\.)', x[3]):
            n.setdefault(x[3], {}).setdefault(x[2], [0])[0] += 1
    return sorted([f, sorted([o, k[0]] for o, k in d.items())] for f, d in n.items())


AT = {'open': ['emfile', 'eacces'], 'read': ['eio_read'], 'write': ['enospc', 'eio_write', 'short_write', 'disk_full'], 'close': ['eio_close'],
      'rename': ['eio_meta'], 'unlink': ['eio_meta'], 'mkdir': ['eio_meta', 'eacces'], 'truncate': ['enospc'], 'link': ['eio_meta']}


def draw_file(rng, files, turn=None):
    """every file has the same chance, or every group of files whose names differ in digits only; the groups may take turns"""
    if turn is None and rng.random() < .25:
        return rng.choice(files)
    g = {}
    for f in files:
        g.setdefault(re.sub(r'\d+', '#', f[0]), []).append(f)
    return rng.choice(g[rng.choice(sorted(g)) if turn is None else sorted(g)[turn % len(g)]])


def draw_at_file(rng, ops, turn=None):
    """a fault, or a few in a row, at one operation of one file, however often it is used"""
    f, os_ = draw_file(rng, ops, turn)
    o, n = rng.choice(os_)
    k = rng.choice(AT[o])
    at = rng.randrange(n)
    par = {'disk_full': rng.choice([1, 10, 0]), 'short_write': rng.choice([1, 50, 99])}.get(k, 0)
    return [[k, at + j, par, f] for j in range(rng.choice([1, 1, 1, 3]))]


def products(d):
    """files of an output directory; the list of references to cite is a courtesy, not a product"""
    return {f: p for f, p in wl.listing(d).items() if not f.startswith('CITEME')}


class C06(L2):
    prop = 'C06'
    runs_quick, runs_thorough = 900, 20000
    rule = ('Each run lets one Level-2 job finish, then starts a second one that shares products with it and injects one to three I/O errors '
            'or a kill into the second; success must mean complete products, failure must leave every product as it was or complete.')
    assumptions = ['a failing system call has no effect, a short write transfers the stated share', 'directory updates survive a killed process (no power loss model)']
    VARIANTS = {'tif': {}, 'tif-ovv': dict(OUTPUT_OVV='TRUE'), 'envi': dict(OUTPUT_FORMAT='ENVI'), 'cog': dict(OUTPUT_FORMAT='COG'),
                'aux': dict(DO_ATMO='TRUE', DO_TOPO='TRUE', FILE_DEM='@W/l1/dem.tif', FILE_AOI='@W/l1/aoi.shp', DIR_AOD='@W/l1/aod', DIR_WVPLUT='@W/l1/wvp',
                            MULTI_SCATTERING='TRUE', OUTPUT_AOD='TRUE', OUTPUT_WVP='TRUE'), 's2': dict(FILE_DEM='@W/l1/dem.tif'),
                'flat': dict(DO_TILE='FALSE'), 'utm': dict(DO_REPROJ='FALSE', FILE_TILE='@W/l1/tiles.txt'), 'flat-utm': dict(DO_TILE='FALSE', DO_REPROJ='FALSE'),
                'glance': dict(PROJECTION='GLANCE7'), 'equi': dict(PROJECTION='EQUI7', RESOLUTION_LANDSAT='25')}
    SPECIAL = [('a', 'aux'), ('s2', 's2'), ('a', 'flat'), ('ae', 'utm'), ('ae', 'flat-utm'), ('a', 'glance'), ('a', 'equi')]      # the last two take seconds
    PAIRS = {'ab': (0, 1), 'ae': (0, 4), 'a': (None, 0), 's2': (None, 's2')}

    def pre(self):
        L2.pre(self)
        d = self.tpl + '/l1'
        if not os.path.isdir(d + '/aod'):
            wl.scene_s2(d, 400000, 5800000, 36, 7, offset=-1000)
            dem(d + '/dem.tif', 400000, 5800000, self.size)
            wl.polygon(d + '/aoi.shp', 400100, 5799850, 400000 + 29 * self.size, 5800000 - 28 * self.size)
            with open(d + '/tiles.txt', 'w') as g:                # three of the four tiles of the scenes are wanted, two of them named last
                g.writelines(['520\n', 'X0038_Y0082\n'] + ['X%04d_Y0090\n' % k for k in range(517)] + ['X0039_Y0082\n', 'X0038_Y0083\n'])
            sites = [('aod/AOD_%d' % n, '%.4f %.4f -2.%02d -1.2 -0.1') for n in (166, 167)] + [('wvp/WVP_2020-06-15', '%.4f %.4f 2.%02d TER'), ('wvp/WVP_0000-06-00', '%.4f %.4f 1.%02d 0.3 9')]
            for f, row in sites:
                os.makedirs(os.path.dirname(d + '/' + f), exist_ok=True)
                with open('%s/%s.txt' % (d, f), 'w') as g:        # the sites come nearer and nearer to the scene
                    g.writelines(row % (13.55 - .002 * k, 52.35 - .001 * k, k // 4) + '\n' for k in range(390))

    def calibration(self):
        return [dict(mode='ref', pair=p, variant=x) for p, x in [(p, x) for p in ('ab', 'ae', 'a') for x in ('cog', 'envi', 'tif', 'tif-ovv')] + self.SPECIAL]

    def needs_calibration(self, c, case):
        return c['pair'] == case['pair'] and c['variant'] == case['variant']

    def setup(self, W, case):
        L2.setup(self, W, dict(prm={k: x.replace('@W', W) for k, x in self.VARIANTS[case['variant']].items()}))

    def ref(self, case):
        return '%s/ref/%s-%s' % (self.base, case['pair'], case['variant'])

    def phases(self, W, case, results):
        a, b = self.PAIRS[case['pair']]
        if a is not None:
            yield self.common(W, procs=[self.job(W, a, name='first')])
        if case['mode'] == 'ref':
            shutil.rmtree(self.ref(case), ignore_errors=True)
            shutil.copytree(W + '/l2', self.ref(case) + '/before')
        yield dict(procs=[self.job(W, b, name='second')], faults=case.get('faults', ()), events=case['mode'] == 'ref')

    def calibrated(self, pairs):
        self.elig = {(c['pair'], c['variant']): r['results'][-1]['eligible'] for c, r in pairs}
        self.reads = {(c['pair'], c['variant']): json.load(open(self.ref(c) + '/reads')) for c, r in pairs}
        self.ops = {(c['pair'], c['variant']): json.load(open(self.ref(c) + '/ops')) for c, r in pairs}

    def gen(self, rng, i):
        pair = rng.choice(['ab', 'ae', 'ae', 'a'])
        variant = rng.choice(['tif', 'tif', 'tif', 'tif-ovv', 'envi', 'cog'])
        if rng.random() < .4:
            pair, variant = rng.choice(self.SPECIAL[:2] * 3 + self.SPECIAL[2:5] * 2 + self.SPECIAL[5:])
        kinds = ERRORS if rng.random() < .75 else ['kill', 'kill_mid']
        n = rng.choice([1, 1, 1, 2, 3])
        c = dict(mode='run', pair=pair, variant=variant, faults=[draw_fault(rng, self.elig[(pair, variant)], kinds) for _ in range(n)])
        if rng.random() < (.5 if variant in ('aux', 's2') else .2):
            f, n = draw_file(rng, self.reads[(pair, variant)])
            c['faults'] = [['eio_read', rng.choice([0, 0, 0, 1, 2, 5]), 2 + rng.randrange(n), f]]
        elif rng.random() < .35:
            c['faults'] = draw_at_file(rng, self.ops[(pair, variant)])
        return c

    def same(self, p, q):
        if p.endswith(('.tif', '.dat', '.bsq')):
            return wl.same_raster(p, q)
        if p.endswith(('.jpg', '.prj')):
            return open(p, 'rb').read() == open(q, 'rb').read()
        return True

    def judge(self, W, case, results):
        # a write error can send the TIFF library into an endless loop: the user has to kill such a job
        spin = results[-1]['end'] == 'spin' and results[-1]['fired']
        if any(r['end'] != 'done' for r in results) and not spin:
            yield v('no-completion', 'Level-2 job did not come to an end (%s)' % results[-1]['end'])
            return
        code = results[-1]['exits']['second']
        if case['mode'] == 'ref':
            shutil.copytree(W + '/l2', self.ref(case) + '/after')
            json.dump(pages_read(results[-1]['evfile'], W), open(self.ref(case) + '/reads', 'w'))
            json.dump(file_ops(results[-1]['evfile']), open(self.ref(case) + '/ops', 'w'))
            if code:
                yield v('serial-job-failed', 'a Level-2 job in a sound world exits with %d' % code)
            return
        before, after, got = (products(d) for d in (self.ref(case) + '/before', self.ref(case) + '/after', W + '/l2'))
        fired = results[-1]['fired']
        killed = spin or any(k.startswith('kill') for k in fired)
        out = wl.read_text(W + '/_sim/second.out') or ''
        what = '+'.join(sorted(fired)) or 'no fault'
        # GDAL forgets failed writes of its COG driver and reports success
        blind = case['variant'] == 'cog' and any(k in fired for k in ('enospc', 'eio_write', 'short_write', 'disk_full'))
        if code < 0 and not killed:
            yield v('crash', 'job dies of signal %d after %s: %s' % (-code, what, out[-200:]))
        if code == 0:
            for f in sorted(set(after) - set(got)):
                yield v('silent-missing', 'job reports success after %s but %s is missing' % (what, f))
            for f in sorted(set(after) & set(got)):
                if blind or f.endswith('.dat') and 'eio_read' in fired:
                    continue        # GDAL takes an unreadable part of a flat file for a hole and reports success
                if not self.same(got[f], after[f]):
                    yield v('silent-damage', 'job reports success after %s but %s is not what it should be' % (what, f))
        else:
            for f in sorted(got):
                if f.endswith(('.lock', '.tmp', '.aux.xml', '.hdr', '.jpg')):
                    continue
                if blind or any(f in x and self.same(got[f], x[f]) for x in (before, after)):
                    continue
                yield v('torn-product', 'after %s (exit %d) %s is neither what it was before nor complete' % (what, code, f))
            for f in sorted(set(before) - set(got)):
                if not f.endswith('.lock'):
                    yield v('product-destroyed', 'after %s (exit %d) existing %s is gone' % (what, code, f))
        if not killed:
            for f in got:
                if f.endswith('.lock') and not any(k in fired for k in ('eio_meta', 'eacces')):
                    yield v('lock-left', 'lock %s is left behind after %s' % (f, what))
                if f.endswith('.tmp') and not any(k in fired for k in ('eio_meta', 'eacces')):
                    yield v('temp-left', '%s is left behind after %s' % (f, what))

    def probes(self, case, r):
        if case['mode'] == 'run':
            x = r['results'][-1]
            yield 'exit-zero' if x['exits']['second'] == 0 else 'killed' if x['exits']['second'] < 0 else 'exit-nonzero'
            if x['fired'] and x['exits']['second'] == 0:
                yield 'fault-tolerated'


def prov_rows(d):
    """provenance files of a directory: [(file, (origins...), mode)]; None if a line is malformed or a header is missing/repeated"""
    rows = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith('.lock'):
            continue
        t = wl.read_text(d + '/' + f) or ''
        L = t.split('\n')
        if L[0] != 'file,origin,mode,creation' or L[-1] != '' or L.count('file,origin,mode,creation') != 1:
            return None, 'header or end of %s: %r ... %r' % (f, t[:40], t[-40:])
        for l in L[1:-1]:
            x = l.split(',')
            if len(x) != 4 or x[2] not in ('create', 'update') or not re.match(r'\d{4}-\d\d-\d\d', x[3]):
                return None, 'line of %s: %r' % (f, l[:200])
            rows.append((x[0], tuple(sorted(x[1].split(';'))), x[2]))
    return rows, None


class C04(L2):
    prop = 'C04'
    runs_quick, runs_thorough = 420, 9000
    rule = ('Each run starts two to four real Level-2 jobs that share products and the provenance directory, in an empty or an already used cube, around midnight or '
            'not, under a seeded schedule with stalls, clock jumps or I/O errors on the provenance file; the provenance must hold exactly one line per product and contributing job.')
    assumptions = ['no stall exceeds the lock timeout', 'a job that fails may miss lines; a job that succeeds may not']
    SETS = {'ab': (0, 1), 'ae': (0, 4), 'aef': (0, 4, 5), 'abef': (0, 1, 4, 5)}
    FAULTS = ['enospc', 'eio_write', 'short_write', 'eacces', 'eio_close', 'emfile']

    def calibration(self):
        return [dict(mode='ref', set=k) for k in sorted(self.SETS)]

    def needs_calibration(self, c, case):
        return c['set'] == case['set']

    def calibrated(self, pairs):
        self.elig = {c['set']: r['results'][0]['eligible'] for c, r in pairs}

    def phases(self, W, case, results):
        jobs = self.SETS[case['set']]
        if case['mode'] == 'ref':
            yield self.common(W, procs=[self.job(W, i) for i in jobs])
            return
        if case['before']:
            yield self.common(W, procs=[self.job(W, 2, name='old')], epoch=case['epoch'] - case['before'])
            self.old = {f: wl.read_text(p) for f, p in wl.listing(W + '/prov').items()}
        else:
            self.old = {}
        yield self.common(W, seed=case['seed'], sched=case['sched'], shuffle=1, faults=case['faults'], epoch=case['epoch'], maxvtime=10**6,
                          procs=[self.job(W, i, st) for i, st in zip(case['jobs'], case['start'])])

    def gen(self, rng, i):
        s = rng.choice(['ab', 'ae', 'ae', 'aef', 'abef'])
        jobs = list(self.SETS[s])
        rng.shuffle(jobs)
        spread = rng.choice([0, 0, 10**6, 10**7])
        faults = []
        kind = rng.choice(['none', 'stall', 'stall', 'clock', 'error'])
        for _ in range(rng.choice([1, 1, 2])):
            if kind == 'stall':
                faults.append(['stall', rng.randrange(self.elig[s]['stall']), rng.choice([5, 200, 600, 5000, 20000])])
            if kind == 'clock':
                faults.append(['clock_jump', rng.randrange(self.elig[s]['stall']), rng.choice([1000, 86400000, 3600000])])
            if kind == 'error':
                faults.append([rng.choice(self.FAULTS), rng.randrange(60), 50, '@prov'])
        return dict(mode='run', set=s, jobs=jobs, start=[0] + [rng.randint(0, spread) for _ in jobs[1:]], sched=swarm_sched(rng), faults=faults,
                    before=rng.choice([0, 0, 10, 86400]), epoch=rng.choice([1710000000, 1710028799]), seed=rng.getrandbits(48))

    def judge(self, W, case, results):
        r = results[-1]
        fired = r['fired']
        what = '+'.join(sorted(fired)) or 'no fault'
        if any(x['end'] != 'done' for x in results):
            yield v('no-completion', 'Level-2 jobs did not come to an end (%s)' % r['end'])
            return
        names = {n: wl.scene_name(SCENES[i][0]) for n, i in [('j%d' % i, i) for i in self.SETS[case['set']]] + ([('old', 2)] if case.get('before') else [])}
        exits = {}
        for x in results:
            exits.update(x['exits'])
        error = any(k in fired for k in self.FAULTS)
        for n, e in sorted(exits.items()):
            if e and not error:
                yield v('job-failed', 'job %s exits with %d after %s: %s' % (n, e, what, (wl.read_text('%s/_sim/%s.out' % (W, n)) or '')[-200:]))
        if any(exits.values()) and error:
            # a failing write may end in the middle of a line: what stood there before must still be there
            for f, t in self.old.items():
                if not (wl.read_text(W + '/prov/' + f) or '').startswith(t):
                    yield v('earlier-lines-lost', 'lines of an earlier run in %s are gone or changed after %s' % (f, what))
            return
        if any(exits.values()):
            return
        for f in os.listdir(W + '/prov'):
            if f.endswith('.lock') and not any(k in fired for k in ('eio_meta', 'eacces')):
                yield v('lock-left', 'lock %s is left behind after %s' % (f, what))
        rows, e = prov_rows(W + '/prov')
        if rows is None:
            yield v('malformed', 'provenance is damaged after %s: %s' % (what, e))
            return
        prods = [W + '/l2/' + f for f in products(W + '/l2') if f.endswith('.tif')]
        by = {}
        for f, o, m in rows:
            by.setdefault(f, []).append((o, m))
        for f in sorted(set(by) - set(prods)):
            yield v('unknown-file', 'provenance names %s, which does not exist' % f)
        for f in sorted(prods):
            n = sum(1 for _, m in by.get(f, []) if m == 'create')
            if n != 1:
                yield v('create-count', '%d lines say that %s was created (%s)' % (n, os.path.relpath(f, W), what))
        # which job contributes to which product follows from the reference run
        got = sorted((os.path.relpath(f, W), os.path.basename(o[0])) for f, x in by.items() for o, _ in x)
        if case['mode'] == 'ref':
            with open('%s/ref-c04-%s' % (self.base, case['set']), 'w') as fh:
                fh.write(repr(got))
            if {o for _, o in got} != set(names.values()):
                yield v('origins', 'provenance names %s as origins, the jobs were %s' % (sorted({o for _, o in got}), sorted(names.values())))
            return
        want = eval(wl.read_text('%s/ref-c04-%s' % (self.base, case['set'])))
        got = [x for x in got if x[1] != wl.scene_name(SCENES[2][0])]
        for x in sorted(set(want) - set(got)):
            yield v('line-lost', 'no line says that %s contributed to %s (%s)' % (x[1], x[0], what))
        for x in sorted(set(got) - set(want)):
            yield v('line-invented', 'a line says that %s contributed to %s' % (x[1], x[0]))
        for x in sorted(set(got)):
            if got.count(x) > 1:
                yield v('line-repeated', '%d lines say that %s contributed to %s' % (got.count(x), x[1], x[0]))
        for f, t in self.old.items():
            if not (wl.read_text(W + '/prov/' + f) or '').startswith(t):
                yield v('earlier-lines-lost', 'lines of an earlier run in %s are gone or changed' % f)

    def probes(self, case, r):
        if case['mode'] == 'run':
            x = r['results'][-1]
            if x['time_jumps']:
                yield 'lock-contention-wait'
            if case['epoch'] == 1710028799:
                yield 'around-midnight'
            if case['before']:
                yield 'earlier-lines'
            if any(x['exits'].values()):
                yield 'job-reports-error'


class C05(L2):
    prop = 'C05'
    runs_quick, runs_thorough = 700, 15000
    rule = ('Each run lets two to four programs (Level-2 jobs, cube initialisation, with equal or different grids) establish the same data cube while a reader looks at its '
            'definition over and over, under a seeded schedule with stalls, I/O errors or kills; then another job completes the work.')
    real = L2.real + ['force-cube-init']
    stub = L2.stub + ['reader of the definition: a small program that reads the file in pieces']
    assumptions = ['leftover locks of killed jobs are removed before the follow-up job, as the manual asks']
    FAULTS = ERRORS

    def pre(self):
        import engine
        L2.pre(self)
        self.observe = engine.tool('observe', 'observe.c')

    def setup(self, W, case):
        wl.copy_into(self.tpl, W)
        for d in ('l2', 'log', 'prov', 'temp'):
            os.makedirs(W + '/' + d)
        open(W + '/queue.txt', 'w').close()
        for k, p in (('same', {}), ('other', dict(ORIGIN_LON='12', TILE_SIZE='1800 1800'))):
            wl.prm(self.base + '/prm/LEVEL2.prm', '%s/%s.prm' % (W, k), **wl.l2_params(W, **p))
        if case['old']:
            shutil.copy(self.ref('same'), W + '/l2/datacube-definition.prj')

    def ref(self, k):
        return '%s/ref-c05-%s' % (self.base, k)

    def writer(self, W, kind, name, start=0):
        if kind == 'eu':
            return dict(name=name, start=start, argv=[self.bins['plain'] + '/force-cube-init', '-d', W + '/l2', 'GLANCE7-EU'])
        if kind.startswith('init'):
            o, t = ('13,53', '900,900') if kind == 'init-same' else ('12,53', '1800,1800')
            return dict(name=name, start=start, argv=[self.bins['plain'] + '/force-cube-init', '-d', W + '/l2', '-o', o, '-t', t, wl.wkt()])
        j = self.job(W, 0, start, name=name)
        j['argv'][2] = '%s/%s.prm' % (W, kind)
        return j

    KINDS = ('same', 'other', 'init-same', 'init-other', 'eu')

    def calibration(self):
        return [dict(mode='ref', old=False, kind=k) for k in self.KINDS]

    def calibrated(self, pairs):
        self.elig = {c['kind']: r['results'][0]['eligible'] for c, r in pairs}

    def definition(self, W, eu):
        return W + ('/l2/europe' if eu else '/l2') + '/datacube-definition.prj'

    def phases(self, W, case, results):
        if case['mode'] == 'ref':
            yield self.common(W, procs=[self.writer(W, case['kind'], 'w0')])
            return
        eu = case['writers'][0] == 'eu'
        procs = [self.writer(W, k, 'w%d' % i, st) for i, (k, st) in enumerate(zip(case['writers'], case['start']))]
        procs.append(dict(name='reader', start=0, argv=[self.observe, self.definition(W, eu), W + '/_sim/seen', str(case['reads'][0]), str(case['reads'][1]), str(case['reads'][2])]))
        yield self.common(W, seed=case['seed'], sched=case['sched'], shuffle=1, faults=case['faults'], procs=procs)
        killed = results[0]['end'] == 'spin' or any(k.startswith('kill') for k in results[0]['fired'])
        for f, p in wl.listing(W + '/l2').items():
            if f.endswith('.lock'):
                # only a killed job or a failing unlink may leave a lock
                self.left.append(f) if not killed and not any(k in results[0]['fired'] for k in ('eio_meta', 'eacces')) else None
                os.unlink(p)
        self.mid = wl.read_text(self.definition(W, eu))
        yield self.common(W, procs=[self.writer(W, 'eu' if eu else 'init-same', 'last')])

    def gen(self, rng, i):
        n = rng.choice([1, 2, 2, 3])
        if rng.random() < .2:
            writers = ['eu'] * n
        elif rng.random() < .5:
            writers = [rng.choice(['same', 'init-same', 'init-same']) for _ in range(n)]
        else:
            writers = [rng.choice(['same', 'other', 'init-same', 'init-other', 'init-other']) for _ in range(n)]
        faults = []
        kind = rng.choice(['none', 'none', 'stall', 'error', 'error', 'kill'])
        k = rng.choice(writers)
        e = self.elig[k]
        for _ in range(rng.choice([1, 1, 2])):
            if kind == 'stall':
                faults.append(['stall', rng.randrange(200), rng.choice([1, 5, 200, 5000, 20000])])
            if kind == 'error':
                faults.append([rng.choice(self.FAULTS), rng.randrange(8), rng.choice([1, 50, 99]), rng.choice(['datacube-def', 'datacube-def', '@l2'])])
            if kind == 'kill':
                faults.append([rng.choice(['kill', 'kill_mid']), rng.randrange(12), rng.choice([1, 50, 99]), rng.choice(['datacube-def', 'datacube-def', '@l2'])])
        return dict(mode='run', old=rng.random() < .15 and 'eu' not in writers, writers=writers, start=[0] + [rng.choice([0, 0, rng.randint(0, 5 * 10**6)]) for _ in writers[1:]],
                    reads=[rng.choice([20, 60, 200]), rng.choice([20, 100, 500]), rng.choice([100, 4096])], sched=swarm_sched(rng), faults=faults, seed=rng.getrandbits(48))

    def seen(self, W):
        with open(W + '/_sim/seen') as f:
            t = f.read()
        while t:
            n, t = t.split('\n', 1)
            n = int(n)
            yield None if n < 0 else t[:n]
            t = t[max(n, 0):]

    def run_start(self):
        self.left, self.mid = [], None

    def judge(self, W, case, results):
        if case['mode'] == 'ref':
            t = wl.read_text(self.definition(W, case['kind'] == 'eu'))
            if results[0]['end'] != 'done' or results[0]['exits']['w0'] or not t:
                yield v('writer-failed', '%s does not establish a cube in a sound world: %s' % (case['kind'], (wl.read_text(W + '/_sim/w0.out') or '')[-200:]))
            else:
                with open(self.ref(case['kind']), 'w') as f:
                    f.write(t)
            return
        r = results[0]
        what = '+'.join(sorted(r['fired'])) or 'no fault'
        if r['end'] not in ('done', 'spin') or results[-1]['end'] != 'done':
            yield v('no-completion', 'programs did not come to an end (%s) after %s' % (r['end'], what))
            return
        eu = case['writers'][0] == 'eu'
        kinds = set(case['writers']) | ({'same'} if case['old'] else set())
        good = {wl.read_text(self.ref(k)) for k in kinds}
        seen = list(self.seen(W))
        full = [t for t in seen if t is not None]
        for t in full:
            if t not in good:
                yield v('incomplete-definition-seen', 'a reader sees a definition of %d bytes that no program means to write (%s)' % (len(t), what))
                break
        if len(set(full)) > 1:
            yield v('definition-changed', 'a reader sees the definition change (%s)' % what)
        if full and seen[-1] is None:
            yield v('definition-vanished', 'the definition vanishes after a reader saw it (%s)' % what)
        if self.mid is not None:
            if self.mid not in good:
                yield v('incomplete-definition-left', 'a definition of %d bytes is left that no program means to write (%s)' % (len(self.mid), what))
            if full and self.mid != full[-1]:
                yield v('definition-changed', 'the definition differs from what a reader saw before (%s)' % what)
        end = wl.read_text(self.definition(W, eu))
        if results[-1]['exits']['last']:
            yield v('no-recovery', 'a job after %s fails with %d: %s' % (what, results[-1]['exits']['last'], (wl.read_text(W + '/_sim/last.out') or '')[-200:]))
        elif self.mid is not None and end != self.mid:
            yield v('definition-changed', 'a later job changes the definition (after %s)' % what)
        elif end not in good | {wl.read_text(self.ref('eu' if eu else 'init-same'))}:
            yield v('incomplete-definition-left', 'after a further job the definition has %s bytes that no program means to write (%s)' % (len(end or ''), what))
        if case['old'] and end != wl.read_text(self.ref('same')):
            yield v('definition-changed', 'an existing definition was replaced (%s)' % what)
        for n, e in sorted(r['exits'].items()):
            if e == 0 and n != 'reader' and self.mid is None:
                yield v('success-without-definition', 'a job reports success after %s but there is no definition' % what)
            if e and n != 'reader' and not r['fired'] and len(kinds) == 1:
                yield v('job-failed', 'a %s job exits with %d although nothing but concurrency happened: %s' % (case['writers'][int(n[1:])], e, (wl.read_text('%s/_sim/%s.out' % (W, n)) or '')[-200:]))
        for f in self.left:
            yield v('lock-left', 'lock %s is left behind after %s' % (f, what))

    def probes(self, case, r):
        if case['mode'] == 'run':
            x = r['results'][0]
            if x['time_jumps']:
                yield 'lock-contention-wait'
            if len(set(case['writers'])) > 1:
                yield 'different-grids-compete'
            if any(e > 0 for e in x['exits'].values()):
                yield 'job-reports-error'
            if any(e < 0 for e in x['exits'].values()):
                yield 'job-killed'


ATM = dict(DO_ATMO='TRUE', DO_TOPO='TRUE', DO_BRDF='TRUE', ADJACENCY_EFFECT='TRUE', MULTI_SCATTERING='TRUE', BUFFER_NODATA='TRUE', IMPULSE_NOISE='TRUE',
           OUTPUT_DST='TRUE', OUTPUT_AOD='TRUE', OUTPUT_WVP='TRUE', OUTPUT_HOT='TRUE', OUTPUT_VZN='TRUE')


def dem(path, ulx, uly, n):
    import numpy as np
    y, x = np.mgrid[0:n * 2, 0:n * 2]
    a = 300 + 30 * np.sin(x / 9.) + 25 * np.cos(y / 11.) + ((x > n) * (y > n * .95)) * 150 * np.sin(x / 6.)
    wl.tif(path, a.astype(np.int16)[None], ulx - 15 * n, uly + 15 * n, 30)


class C13(Scenario):
    prop = 'C13'
    kinds = ('fiber',)
    technique = 'seeded thread schedules over the real program'
    runs_quick, runs_thorough = 400, 6000
    rule = ('Each run corrects one synthetic scene (land, water, snow, cloud, shadow, relief) with a seeded number of threads under a seeded thread schedule; '
            'products must equal those of the single-threaded, unpreempted run.')
    real = L2.real + ['all OpenMP regions of the Level-2 processor, executed as fibers']
    stub = L2.stub + ['OpenMP runtime and thread scheduler: fsim']
    assumptions = ['threads inside GDAL and other libraries are switched off', 'code inside libraries is not preempted between two system calls']
    S2 = dict(RES_MERGE='IMPROPHE', OUTPUT_OVV='TRUE')
    VARIANTS = {'atm': (1, 40, ATM), 'atm2': (2, 33, dict(ATM, ADJACENCY_EFFECT='FALSE', RESAMPLING='BL', PARALLEL_READS='TRUE')),
                'toa': (3, 40, dict(PARALLEL_READS='TRUE', OUTPUT_OVV='TRUE', FILE_AOI='@W/l1/aoi.shp')),
                'cc': (4, 36, dict(ATM, DO_TOPO='FALSE', RESAMPLING='CC', DO_BRDF='FALSE', ERASE_CLOUDS='TRUE')),
                's2i': (5, 48, S2), 's2r': (6, 42, dict(S2, RES_MERGE='REGRESSION', PARALLEL_READS='TRUE')), 's2s': (7, 36, dict(S2, RES_MERGE='STARFM')),
                's2a': (8, 36, dict(ATM, RES_MERGE='NONE')), 'spots': (9, 54, dict(CLOUD_BUFFER='0', SHADOW_BUFFER='0', MAX_CLOUD_COVER_FRAME='100', MAX_CLOUD_COVER_TILE='100'))}
    TURN = ['atm', 'atm2', 'toa', 'cc', 'spots', 's2i', 's2r', 's2s'] * 3 + ['s2a']

    def pre(self):
        wl.skeletons(self.bins['fiber'], self.base + '/prm', ['LEVEL2'])
        self.tpl = self.base + '/tpl-l2t'
        if not os.path.isdir(self.tpl):
            for k, (s, n, _) in sorted(self.VARIANTS.items()):
                d = '%s/%s' % (self.tpl, k)
                if k.startswith('s2'):
                    wl.scene_s2(d, 400000, 5800000, n, s, offset=-1000 if s % 2 else 0, vzen=31.5)
                    dem(d + '/dem.tif', 400000, 5800000, n // 3 + 1)
                else:
                    wl.scene(d, 23, 400000, 5800000, n, n, s, rich=k != 'spots', spots=6 if k == 'spots' else 0)
                    dem(d + '/dem.tif', 400000, 5800000, n)
                wl.polygon(d + '/aoi.shp', 400100, 5799850, 400000 + 29 * n, 5800000 - 28 * n)

    def calibration(self):
        return [dict(mode='ref', variant=x) for x in sorted(self.VARIANTS)]

    def needs_calibration(self, c, case):
        return c['variant'] == case['variant']

    def setup(self, W, case):
        shutil.copytree('%s/%s' % (self.tpl, case['variant']), W + '/l1', copy_function=os.link)
        for d in ('l2', 'log', 'prov', 'temp'):
            os.makedirs(W + '/' + d)
        open(W + '/queue.txt', 'w').close()
        wl.prm(self.base + '/prm/LEVEL2.prm', W + '/l2.prm', **wl.l2_params(W, **dict(
            dict(FILE_DEM=W + '/l1/dem.tif', NTHREAD=str(case.get('threads', 1))), **{k: x.replace('@W', W) for k, x in self.VARIANTS[case['variant']][2].items()})))

    def phases(self, W, case, results):
        yield dict(exclude=[W + '/l1'], fsim=case.get('fsim', dict(seed=1)),
                   procs=[dict(name='j', argv=[self.bins['fiber'] + '/force-l2ps', W + '/l1/' + (wl.s2_name() if case['variant'].startswith('s2') else wl.scene_name(23)), W + '/l2.prm'])])

    def gen(self, rng, i):
        from s_hl import swarm_threads
        f = swarm_threads(rng)
        f['mean'] = rng.choice([0, 60, 300, 2000, 20000, 100000])
        return dict(mode='run', variant=self.TURN[i % len(self.TURN)], threads=rng.choice([2, 2, 3, 4, 7]), fsim=f)

    def judge(self, W, case, results):
        r = results[0]
        d = '%s/ref/c13-%s' % (self.base, case['variant'])
        out = wl.read_text(W + '/_sim/j.out') or ''
        if r['end'] != 'done' or r['exits'].get('j') != 0:
            yield v('run-failed', 'Level-2 job ends with %s, exit code %s: %s' % (r['end'], r['exits'].get('j'), out[-300:]))
        elif case['mode'] == 'ref':
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(W + '/l2', d)
            with open(d + '.out', 'w') as f:
                f.write(out.split('Processing time')[0])
        else:
            got, want = products(W + '/l2'), products(d)
            for f in sorted(set(want) ^ set(got)):
                yield v('file-set', '%s exists in one of: %d threads, one thread' % (f, case['threads']))
            for f in sorted(set(want) & set(got)):
                if f.endswith('.tif') and not wl.same_raster(got[f], want[f]):
                    yield v('differs-' + f.split('_')[-1][:3], '%s with %d threads: %s' % (f, case['threads'], wl.diff_raster(got[f], want[f])))
            if out.split('Processing time')[0] != wl.read_text(d + '.out'):
                yield v('report-differs', 'reported statistics with %d threads: %s; with one: %s' % (case['threads'], out[:200], wl.read_text(d + '.out')))
        shutil.rmtree(W + '/l1', ignore_errors=True)

    def probes(self, case, r):
        f = r['results'][0].get('fiber', {}).get('j', {})
        if f.get('max_alive', 0) >= 2:
            yield 'threads-alive'
        if f.get('preemptions', 0):
            yield 'preempted-between-accesses'
        yield 'variant-' + case['variant']
