"""Scenarios on the higher-level processor (force-higher-level)."""
import json, os, shutil
import workload as wl, hlw
from engine import Scenario, swarm_sched
from s_l2 import draw_at_file, draw_file, draw_fault, file_ops, pages_read, products, prov_rows


def v(key, msg):
    return dict(key=key, msg=msg)


def swarm_threads(rng):
    """per-run variation of the thread simulator"""
    return dict(seed=rng.getrandbits(48), mean=rng.choice([0, 40, 150, 600, 3000, 20000]), sync=rng.choice([0, 100, 400, 1000]),
                bias=rng.choice([-1, -1, -1, 0, 1, 2]), chunk=rng.choice([1, 2]))


def table_rows(d):
    """the three sample tables, row by row side by side; None if they do not fit together"""
    cols = [(wl.read_text(d + '/' + f) or '').splitlines() for f in ('coord.txt', 'features.txt', 'response.txt')]
    if len({len(c) for c in cols}) != 1:
        return None, [len(c) for c in cols]
    return sorted(zip(*cols)), len(cols[0])


def locks_left(*ds):
    return sorted(p for d in ds for p in wl.listing(d) if p.endswith('.lock'))


class HL(Scenario):
    real = ['force-higher-level (complete executable, GDAL I/O included)', 'file system below the scenario directory']
    stub = ['clock, sleep, random bytes, directory order, process scheduler: psim']
    modules = sorted(hlw.MODULES)

    def pre(self):
        wl.skeletons(self.bins['plain'] if 'plain' in self.bins else self.bins['fiber'], self.base + '/prm', hlw.SKELETONS + ['TRAIN'])
        self.I = self.base + '/hl-in'
        if not os.path.isdir(self.I):
            hlw.inputs(self.I, self.bins.get('plain') or self.bins['fiber'], self.base + '/prm')

    def setup(self, W, case):
        shutil.copytree(self.I, W + '/in', copy_function=os.link)
        for d in ('out', 'prov'):
            os.makedirs(W + '/' + d)

    def params(self, W, name, module, **kw):
        hlw.params(self.base + '/prm', '%s/%s.prm' % (W, name), W, W + '/in', module, **kw)

    def proc(self, W, name='h', kind='plain', start=0):
        return dict(name=name, start=start, argv=[self.bins[kind] + '/force-higher-level', '%s/%s.prm' % (W, name)])

    def tidy(self, W):
        """inputs are hard links to the template: keep them out of copies of the world"""
        shutil.rmtree(W + '/in', ignore_errors=True)

    def save_ref(self, W, name):
        d = self.base + '/ref/' + name
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(W + '/out', d + '/out')
        shutil.copytree(W + '/prov', d + '/prov')
        with open(d + '/W', 'w') as f:
            f.write(W)

    def compare(self, W, name, prov=True, mode=True):
        """does the output tree hold what the reference holds?"""
        d = self.base + '/ref/' + name
        RW = wl.read_text(d + '/W')
        got, want = products(W + '/out'), products(d + '/out')
        for f in sorted(set(want) - set(got)):
            yield v('output-missing', '%s is missing' % f)
        for f in sorted(f for f in set(got) - set(want) if not f.endswith('.lock')):
            yield v('output-extra', '%s should not be there' % f)
        for f in sorted(set(got) & set(want)):
            if f.endswith('.tif') and not wl.same_raster(got[f], want[f]):
                yield v('output-differs', '%s differs from the reference: %s' % (f, wl.diff_raster(got[f], want[f])))
            if f.endswith('.prj') and wl.read_text(got[f]) != wl.read_text(want[f]):
                yield v('cube-definition', '%s differs from the reference' % f)
        if 'coord.txt' in want:
            a, na = table_rows(W + '/out')
            b, nb = table_rows(d + '/out')
            if a is None:
                yield v('sample-tables-misaligned', 'the sample tables have %s rows' % (na,))
            elif a != b:
                yield v('sample-rows', 'sampled rows differ from the reference (%s rows, reference %s)' % (na, nb))
        if prov:
            p, e = prov_rows(W + '/prov')
            q, _ = prov_rows(d + '/prov')
            if p is None:
                yield v('provenance-malformed', 'provenance file is damaged: %s' % e)
            else:
                def norm(rows, w):
                    return sorted((r[0].replace(w, '@W'), tuple(x.replace(w, '@W') for x in r[1])) + ((r[2],) if mode else ()) for r in rows)
                p, q = norm(p, W), norm(q or [], RW)
                if p != q:
                    dd = [x for x in p if x not in q] + [x for x in q if x not in p]
                    yield v('provenance-differs', 'provenance lines differ from the reference (%d, reference %d): %s' % (len(p), len(q), str(dd or 'repeated')[:200]))


class C01(HL):
    prop = 'C01'
    kinds = ('fiber',)
    technique = 'seeded thread schedules over the real program'
    runs_quick, runs_thorough = 420, 8000
    rule = ('Each run executes one higher-level submodule with a seeded number of reading, computing and writing threads, with or without streaming, '
            'under a seeded thread schedule; outputs must equal the single-threaded, unpreempted run.')
    real = HL.real + ['all OpenMP regions of FORCE, executed as fibers']
    stub = HL.stub + ['OpenMP runtime and thread scheduler: fsim']
    assumptions = ['threads inside GDAL and other libraries are switched off (one thread)', 'code inside libraries is not preempted between two system calls']
    CHUNKS = {'q': '300 300', 'h': '600 300', 'f': '600 600'}

    def ref(self, m, ck):
        return 'c01-%s-%s' % (m, ck)

    def calibration(self):
        return [dict(mode='ref', module=m, chunk=ck) for m in self.modules for ck in sorted(self.CHUNKS)]

    def needs_calibration(self, c, case):
        return c['module'] == case['module'] and c['chunk'] == case['chunk']

    def gen(self, rng, i):
        th = [rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3])]
        return dict(mode='run', module=self.modules[i % len(self.modules)], chunk=rng.choice(['q', 'q', 'h', 'f']), th=th,
                    stream=rng.random() < .6, fsim=swarm_threads(rng))

    def setup(self, W, case):
        HL.setup(self, W, case)
        th = case.get('th', [1, 1, 1])
        self.params(W, 'h', case['module'], CHUNK_SIZE=self.CHUNKS[case['chunk']], NTHREAD_READ=str(th[0]), NTHREAD_COMPUTE=str(th[1]),
                    NTHREAD_WRITE=str(th[2]), STREAMING='TRUE' if case.get('stream') else 'FALSE')

    def phases(self, W, case, results):
        yield dict(exclude=[W + '/in'], procs=[self.proc(W, kind='fiber')], fsim=case.get('fsim', dict(seed=1)))

    def judge(self, W, case, results):
        r = results[0]
        if r['end'] != 'done' or r['exits'].get('h') != 0:
            yield v('run-failed', '%s ends with %s, exit code %s: %s' % (case['module'], r['end'], r['exits'].get('h'), (wl.read_text(W + '/_sim/h.out') or '')[-300:]))
        elif case['mode'] == 'ref':
            self.save_ref(W, self.ref(case['module'], case['chunk']))
        else:
            for x in self.compare(W, self.ref(case['module'], case['chunk'])):
                yield v(case['module'] + '-' + x['key'], '%s with threads %s, streaming %s: %s' % (case['module'], case['th'], case['stream'], x['msg']))
            for l in locks_left(W + '/out', W + '/prov'):
                yield v('lock-left', 'lock file %s is left behind' % l)
        self.tidy(W)

    def probes(self, case, r):
        f = r['results'][0].get('fiber', {}).get('h', {})
        if f.get('max_alive', 0) >= 3:
            yield 'three-threads-alive'
        if f.get('max_alive', 0) >= 6:
            yield 'six-threads-alive'
        if f.get('preemptions', 0):
            yield 'preempted-between-accesses'
        yield 'module-' + case['module']


class C07(HL):
    prop = 'C07'
    kinds = ('fiber',)
    technique = 'seeded I/O errors and thread schedules over the real program'
    runs_quick, runs_thorough = 900, 20000
    rule = ('Each run executes one higher-level submodule, single-threaded or with streaming threads under a seeded schedule, and injects one to three '
            'I/O errors into its reads or writes; success must mean that outputs equal those of the undisturbed run.')
    real = C01.real
    stub = C01.stub
    assumptions = C01.assumptions + ['a failing system call has no effect, a short write transfers the stated share']
    KINDS = ['enospc', 'eio_write', 'short_write', 'disk_full', 'eio_read', 'eio_read', 'emfile', 'eacces', 'eio_meta', 'eio_close']

    MASKED = ['STM+mask', 'TXT+mask', 'BAP+mask']

    def calibration(self):
        return [dict(mode='ref', module=m) for m in self.modules + self.MASKED]

    def needs_calibration(self, c, case):
        return c['module'] == case['module']

    def setup(self, W, case):
        HL.setup(self, W, case)
        th = case.get('th', [1, 1, 1])
        m, mask = (case['module'] + '+').split('+')[:2]
        kw = dict(DIR_MASK=W + '/in/mask', BASE_MASK='SOME.tif') if mask else {}
        self.params(W, 'h', m, CHUNK_SIZE='300 300', **kw, NTHREAD_READ=str(th[0]), NTHREAD_COMPUTE=str(th[1]),
                    NTHREAD_WRITE=str(th[2]), STREAMING='TRUE' if case.get('stream') else 'FALSE')

    def phases(self, W, case, results):
        yield dict(procs=[self.proc(W, kind='fiber')], fsim=case.get('fsim', dict(seed=1)), faults=case.get('faults', ()), events=case['mode'] == 'ref')

    def calibrated(self, pairs):
        self.elig = {c['module']: r['results'][-1]['eligible'] for c, r in pairs}
        self.reads = {c['module']: json.load(open(self.base + '/ref/c07-%s/reads' % c['module'])) for c, r in pairs}
        self.ops = {c['module']: json.load(open(self.base + '/ref/c07-%s/ops' % c['module'])) for c, r in pairs}

    def bad_page(self, rng, m, turn):
        """a page of a seeded input file stays unreadable"""
        f, n = draw_file(rng, self.reads[m], turn)
        return ['eio_read', rng.choice([0, 0, 0, 1, 2, 5]), 2 + rng.randrange(n), f]

    def gen(self, rng, i):
        turn, k = divmod(i, len(self.modules + self.MASKED))
        m = (self.modules + self.MASKED)[k]
        c = dict(mode='run', module=m, faults=[draw_fault(rng, self.elig[m], self.KINDS) for _ in range(rng.choice([1, 1, 1, 2, 3]))])
        if turn % 3 == 0:
            c['faults'] = [self.bad_page(rng, m, turn // 3)]
        elif turn % 3 == 1:
            c['faults'] = draw_at_file(rng, self.ops[m], turn // 3 if rng.random() < .7 else None)
        if rng.random() < .5:
            c.update(th=[rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([1, 2])], stream=rng.random() < .7, fsim=swarm_threads(rng))
        return c

    def judge(self, W, case, results):
        r = results[0]
        fired = r['fired']
        what = '+'.join(sorted(fired)) or 'no fault'
        code = r['exits'].get('h')
        out = wl.read_text(W + '/_sim/h.out') or ''
        m = case['module']
        # the TIFF library rewrites directories it could not read in a file opened for update, and dies of the result; a failed flush it comes upon while reading is forgotten
        torn = [h for h in r.get('hits', ()) if h[0] == 'eio_read' and h[1].startswith('/out/') and h[2] > 1]
        forgotten = [h[1][5:] for h in r.get('hits', ()) if h[0] in ('enospc', 'eio_write', 'short_write', 'disk_full') and h[2] > 1 and h[3] == 'read=']
        if case['mode'] == 'ref':
            if r['end'] != 'done' or code:
                yield v('run-failed', '%s in a sound world ends with %s, exit code %s: %s' % (m, r['end'], code, out[-300:]))
            else:
                self.save_ref(W, 'c07-' + m)
                json.dump(pages_read(r['evfile'], W), open(self.base + '/ref/c07-%s/reads' % m, 'w'))
                json.dump(file_ops(r['evfile']), open(self.base + '/ref/c07-%s/ops' % m, 'w'))
        elif r['end'] == 'spin' and fired:
            pass        # endless loop of the TIFF library after a write error: the user has to kill it
        elif r['end'] != 'done':
            yield v('no-completion', '%s does not come to an end (%s) after %s' % (m, r['end'], what))
        elif code == -11 and torn:
            pass
        elif code < 0 and not (code == -6 and 'terminate called' in out):     # an exception ends the program visibly
            yield v('crash', '%s dies of signal %d after %s: %s' % (m, -code, what, out[-200:]))
        elif code == 0 and '_tiffSeekProc' in out:
            pass        # the TIFF library prints a failed flush while it seeks in a file opened for update, then forgets it
        elif code == 0:
            for x in self.compare(W, 'c07-' + m):
                if not any(f in x['msg'] for f in forgotten):
                    yield v(m + '-silent-' + x['key'], '%s reports success after %s but: %s' % (m, what, x['msg']))
        if r['end'] == 'done' and code >= 0 and not any(k in fired for k in ('eio_meta', 'eacces')):
            for l in locks_left(W + '/out', W + '/prov'):
                yield v('lock-left', 'lock file %s is left behind after %s, exit code %d' % (l, what, code))
        bad = changed_inputs(self.I, W + '/in', self.stamp)
        if bad:
            yield v('input-changed', '%s changes its input %s' % (m, bad[0]))
        self.tidy(W)

    def pre(self):
        HL.pre(self)
        if not os.path.isdir(self.I + '/mask'):
            wl.masks(self.I + '/mask', hlw.TILES, name='SOME', n=hlw.N, ts=hlw.TS, frac=.5)
        self.stamp = {f: stamp(p) for f, p in wl.listing(self.I).items()}

    def probes(self, case, r):
        if case['mode'] == 'run':
            x = r['results'][-1]
            yield 'exit-zero' if x['exits']['h'] == 0 else 'exit-nonzero'
            if x['fired'] and x['exits']['h'] == 0:
                yield 'fault-tolerated'
            if x.get('fiber', {}).get('h', {}).get('max_alive', 0) >= 3:
                yield 'three-threads-alive'


def stamp(p):
    s = os.stat(p)
    return [s.st_size, s.st_mtime_ns]


def changed_inputs(I, d, st):
    got = wl.listing(d)
    return [f for f in sorted(st) if f not in got or stamp(got[f]) != st[f]] + sorted(set(got) - set(st))


class C02(HL):
    prop = 'C02'
    kinds = ('fiber',)
    technique = 'seeded process and thread schedules, work divisions and histories over the real program'
    runs_quick, runs_thorough = 400, 8000
    rule = ('Each run computes one submodule over the same cube with a seeded division of the work: block layout, several processes that share the '
            'output directory, leftovers of an earlier run, with or without a processing mask; outputs must equal the run in one process and one block per tile.')
    real = C01.real
    stub = C01.stub
    assumptions = C01.assumptions + ['patches (landscape metrics) principal components (continuous field prediction) and the convolution of reduced images are computed per block: these three keep one block layout; of the texture metrics only those with the reach of one kernel are compared; masks are not combined with the neighbourhood modules']
    CHUNKS = {'f': '600 600', 'q': '300 300', 'h': '600 300', 'v': '150 600', 's': '150 150'}
    NOMASK = ('TXT', 'LSM', 'SMP')
    BLOCKWISE = ('LSM', 'CFI', 'PSF')
    OVER = {'TXT': dict(TXT='DIL ERO')}

    def pre(self):
        HL.pre(self)
        d = self.I + '/mask'
        if not os.path.isdir(d):
            wl.cube_def(d, hlw.TS)
            wl.masks(d, hlw.TILES, name='SOME', n=hlw.N, ts=hlw.TS, frac=.5)
            wl.masks(d, hlw.TILES, name='CORNER', n=hlw.N, ts=hlw.TS, empty_chunks=[((0, 0), 0, 0), ((1, 0), 1, 0)], chunk=10, frac=.8)
            wl.masks(d, hlw.TILES, name='TILE', n=hlw.N, ts=hlw.TS, empty_chunks=[((0, 0), 0, 0)], chunk=20, frac=.9)

    def ref(self, m, mask):
        return 'c02-%s-%s' % (m, mask)

    def masks_of(self, m):
        return ['none'] if m in self.NOMASK else ['none', 'SOME', 'CORNER', 'TILE']

    def calibration(self):
        return [dict(mode='ref', module=m, mask=k) for m in self.modules for k in self.masks_of(m)]

    def needs_calibration(self, c, case):
        return c['module'] == case['module'] and c['mask'] == case['mask']

    def gen(self, rng, i):
        m = self.modules[i % len(self.modules)]
        if m in ('POL', 'SMP'):     # one tile only; sample tables of one run must not exist beforehand
            split = 1
        else:
            split = rng.choice([1, 1, 2])
        c = dict(mode='run', module=m, mask=rng.choice(self.masks_of(m)), split=split, chunk=['q' if m in self.BLOCKWISE else rng.choice('fqhvs') for _ in range(split)],
                 before=rng.choice([None, None, 'same', 'other']), seed=rng.getrandbits(48))
        if rng.random() < .4:
            c.update(th=[rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([1, 2])], stream=rng.random() < .7, fsim=swarm_threads(rng))
        if split > 1:
            c.update(sched=swarm_sched(rng), start=[0, rng.choice([0, 0, 10**5, 10**6, 5 * 10**6])])
        return c

    def prm_of(self, W, name, case, mask, chunk, **kw):
        th = case.get('th', [1, 1, 1])
        k = dict(self.OVER.get(case['module'], {}), CHUNK_SIZE=self.CHUNKS[chunk], NTHREAD_READ=str(th[0]), NTHREAD_COMPUTE=str(th[1]),
                 NTHREAD_WRITE=str(th[2]), STREAMING='TRUE' if case.get('stream') else 'FALSE')
        if mask != 'none':
            k.update(DIR_MASK=W + '/in/mask', BASE_MASK=mask + '.tif')
        k.update(kw)
        self.params(W, name, case['module'], **k)

    def phases(self, W, case, results):
        if case.get('before'):
            b = case['mask'] if case['before'] == 'same' or case['module'] in self.NOMASK else ('none' if case['mask'] != 'none' else 'CORNER')
            self.prm_of(W, 'old', case, b, case['chunk'][-1])
            yield dict(exclude=[W + '/in'], procs=[self.proc(W, 'old', kind='fiber')], fsim=dict(seed=1))
            for f in os.listdir(W + '/prov'):
                os.unlink(W + '/prov/' + f)
            if case['module'] == 'SMP':
                for f in ('coord.txt', 'features.txt', 'response.txt'):
                    os.unlink(W + '/out/' + f)
        if case.get('split', 1) == 1:
            self.prm_of(W, 'h', case, case['mask'], case['chunk'][0] if 'chunk' in case else 'q' if case['module'] in self.BLOCKWISE else 'f')
            yield dict(exclude=[W + '/in'], procs=[self.proc(W, 'h', kind='fiber')], fsim=case.get('fsim', dict(seed=1)))
        else:
            for k in range(2):
                self.prm_of(W, 'h%d' % k, case, case['mask'], case['chunk'][k], X_TILE_RANGE='%d %d' % (k, k))
            yield dict(exclude=[W + '/in'], procs=[self.proc(W, 'h%d' % k, kind='fiber', start=case['start'][k]) for k in range(2)],
                       fsim=case.get('fsim', dict(seed=1)), seed=case['seed'], sched=case['sched'], shuffle=1)

    def judge(self, W, case, results):
        for r in results:
            for n, e in sorted(r['exits'].items()):
                if r['end'] != 'done' or e:
                    yield v('run-failed', '%s (%s) ends with %s, exit code %s: %s' % (case['module'], n, r['end'], e, (wl.read_text('%s/_sim/%s.out' % (W, n)) or '')[-300:]))
                    self.tidy(W)
                    return
        if case['mode'] == 'ref':
            self.save_ref(W, self.ref(case['module'], case['mask']))
        else:
            how = 'split %d, blocks %s, mask %s, earlier outputs %s' % (case['split'], case['chunk'], case['mask'], case['before'])
            for x in self.compare(W, self.ref(case['module'], case['mask']), prov=True, mode=not case.get('before')):
                if x['key'] == 'output-extra' and case.get('before') == 'other' and case['mask'] == 'TILE':
                    continue    # the earlier run covered a tile this one has nothing for
                if 'OVV' in x['msg'] and case['mask'] != 'none':
                    continue    # previews show masked pixels in black and blocks without data in the no-data value
                yield v(case['module'] + '-' + x['key'], '%s (%s): %s' % (case['module'], how, x['msg']))
            for l in locks_left(W + '/out', W + '/prov'):
                yield v('lock-left', 'lock file %s is left behind' % l)
        self.tidy(W)

    def probes(self, case, r):
        if case['mode'] == 'run':
            yield 'split-%d' % case['split']
            yield 'mask-' + case['mask']
            if case['before']:
                yield 'earlier-outputs'
            if case['split'] > 1 and r['results'][-1]['time_jumps']:
                yield 'lock-contention-wait'
