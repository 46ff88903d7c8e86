"""Interruption at any moment, then the same work again."""
import os, shutil
import workload as wl, hlw
from engine import Scenario, swarm_sched
from s_l2 import v, draw_fault, products, prov_rows
from s_hl import HL, swarm_threads, locks_left

IMAGES = [(23, 400000, 5800000, 1, '2020-06-15'), (24, 400000, 5799700, 2, '2020-06-15'), (23, 400300, 5799700, 3, '2020-07-01'), (23, 399700, 5800300, 4, '2020-07-17')]
FORMATS = {'tif': {}, 'tif-ovv': dict(OUTPUT_OVV='TRUE'), 'envi': dict(OUTPUT_FORMAT='ENVI'), 'cog': dict(OUTPUT_FORMAT='COG')}
SETS = [(0,), (0, 2), (0, 3), (2, 3), (0, 2, 3), (1, 2, 3)]


class C14(HL):
    prop = 'C14'
    kinds = ('fiber',)
    technique = 'seeded kills over the real programs, followed by the same work again'
    runs_quick, runs_thorough = 420, 8000
    rule = ('Each run kills one of up to three concurrent Level-2 jobs, or one higher-level run, at a seeded system call, at times lets another program run into what was left, '
            'then removes lock files and runs everything that did not succeed again; all programs must come to an end, and the products must equal those of undisturbed work.')
    real = HL.real + ['force-l2ps', 'all OpenMP regions of FORCE, executed as fibers']
    stub = HL.stub + ['OpenMP runtime and thread scheduler: fsim']
    assumptions = ['directory updates survive a killed process (no power loss model)', 'the user removes lock files and incomplete sample tables before repeating interrupted work']

    def pre(self):
        HL.pre(self)
        wl.skeletons(self.bins['fiber'], self.base + '/prm', ['LEVEL2'])
        self.tpl = self.base + '/tpl-c14'
        if not os.path.isdir(self.tpl):
            for (row, x, y, s, d) in IMAGES:
                wl.scene(self.tpl + '/l1', row, x, y, 30, 30, s, date=d)

    # ---- cases
    def calibration(self):
        return [dict(mode='ref', what='l2', fmt=f, jobs=[k]) for f in sorted(FORMATS) for k in range(len(IMAGES))] + [dict(mode='ref', what='hl', module=m) for m in self.modules]

    def needs_calibration(self, c, case):
        return c['what'] == case['what'] and (c['fmt'] == case['fmt'] and c['jobs'][0] in case['jobs'] if c['what'] == 'l2' else c['module'] == case['module'])

    def calibrated(self, pairs):
        self.elig = {(c['fmt'], c['jobs'][0]) if c['what'] == 'l2' else c['module']: r['results'][0]['eligible'] for c, r in pairs}

    def gen(self, rng, i):
        if i % 2:
            m = self.modules[i // 2 % len(self.modules)]
            c = dict(mode='run', what='hl', module=m, faults=[self.kill(rng, self.elig[m], '', ['.lock', '/out/', 'prov', '.tif'])])
            if rng.random() < .6:
                c.update(th=[rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([1, 2])], stream=rng.random() < .7, fsim=swarm_threads(rng))
            if rng.random() < .3:
                c['stray'] = rng.getrandbits(30)
            return c
        jobs = list(rng.choice(SETS))
        rng.shuffle(jobs)
        fmt = rng.choice(['tif', 'tif', 'tif', 'tif-ovv', 'envi', 'cog'])
        k = rng.choice(jobs)
        c = dict(mode='run', what='l2', fmt=fmt, jobs=jobs, start=[0] + [rng.choice([0, 10**6, 10**7]) for _ in jobs[1:]], seed=rng.getrandbits(48), sched=swarm_sched(rng),
                 faults=[self.kill(rng, self.elig[(fmt, k)], '@j%d' % k, ['.lock', '/l2/', 'prov', 'datacube', '.tmp'])])
        if rng.random() < .35:
            c['then'] = rng.choice([2, 3] if 1 in jobs else [0, 2, 3])
        if rng.random() < .2:
            c['again'] = self.kill(rng, self.elig[(fmt, k)], '@j%d' % k, ['.lock', '/l2/', 'prov'])
        return c

    def kill(self, rng, elig, who, where):
        x = rng.random()
        if x < .5:
            k = rng.choice(['kill', 'kill', 'kill_mid'])
            return [k, rng.randrange(elig[k]), rng.choice([1, 50, 99]) if k == 'kill_mid' else 0] + ([who] if who else [])
        if x < .9:
            k = rng.choice(['kill', 'kill', 'kill_mid'])
            p = rng.choice(where)
            return [k, rng.randrange(40 if k == 'kill' else 12), rng.choice([1, 50, 99]) if k == 'kill_mid' else 0, who + ':' + p if who else p]
        return ['kill_all', rng.randrange(elig['kill_all']), 0]

    # ---- world
    def setup(self, W, case):
        if case['what'] == 'hl':
            HL.setup(self, W, case)
            th = case.get('th', [1, 1, 1])
            self.params(W, 'h', case['module'], CHUNK_SIZE='300 300', NTHREAD_READ=str(th[0]), NTHREAD_COMPUTE=str(th[1]),
                        NTHREAD_WRITE=str(th[2]), STREAMING='TRUE' if case.get('stream') else 'FALSE')
            if 'stray' in case:
                self.stray(W + '/in/l2', case['stray'])
            return
        wl.copy_into(self.tpl, W)
        for d in ('l2', 'log', 'prov', 'temp'):
            os.makedirs(W + '/' + d)
        open(W + '/queue.txt', 'w').close()
        wl.prm(self.base + '/prm/LEVEL2.prm', W + '/l2.prm', **wl.l2_params(W, **FORMATS[case['fmt']]))

    def stray(self, d, seed):
        """what interrupted Level-2 jobs leave in a cube"""
        fs = sorted(f for f in wl.listing(d) if f.endswith('.tif'))
        for k in range(3):
            f = fs[(seed >> 5 * k) % len(fs)]
            p = d + '/' + f.replace('LND08', 'LND09' if seed >> k & 1 else 'LND08')
            open(p + '.lock', 'w').close()
            with open(d + '/' + f, 'rb') as a, open(p[:-4] + '.tmp', 'wb') as b:
                b.write(a.read()[:(seed >> 8) % 3000])

    def job(self, W, k, start=0):
        row, _, _, _, d = IMAGES[k]
        return dict(name='j%d' % k, start=start, argv=[self.bins['fiber'] + '/force-l2ps', W + '/l1/' + wl.scene_name(row, d.replace('-', '')), W + '/l2.prm'])

    def clean(self, W):
        for d in ('l2', 'prov', 'out', '.'):
            if os.path.isdir(W + '/' + d):
                for f, p in (wl.listing(W + '/' + d) if d != '.' else {f: W + '/' + f for f in os.listdir(W)}).items():
                    if f.endswith('.lock'):
                        os.unlink(p)

    def phases(self, W, case, results):
        if case['what'] == 'hl':
            yield dict(procs=[self.proc(W, kind='fiber')], exclude=[W + '/in'], fsim=case.get('fsim', dict(seed=1)), faults=case.get('faults', ()))
            if case['mode'] == 'run' and results[0]['exits'].get('h') != 0:
                self.clean(W)
                for f in ('coord.txt', 'features.txt', 'response.txt'):
                    if os.path.exists(W + '/out/' + f):
                        os.unlink(W + '/out/' + f)
                yield dict(procs=[self.proc(W, kind='fiber')], exclude=[W + '/in'], fsim=case.get('fsim', dict(seed=1)))
            return
        base = dict(exclude=[W + '/l1'], maxvtime=4 * 3600)
        yield dict(base, procs=[self.job(W, k, st) for k, st in zip(case['jobs'], case.get('start', [0] * 9))], fsim=dict(seed=1), seed=case.get('seed', 1),
                   sched=case.get('sched', (0, 0, 0)), shuffle=1 if case['mode'] == 'run' else 0, faults=case.get('faults', ()))
        if case['mode'] == 'ref':
            return
        done = {n for n, e in results[0]['exits'].items() if e == 0}
        if 'then' in case:
            yield dict(base, procs=[self.job(W, case['then'])], fsim=dict(seed=1))
            done |= {n for n, e in results[-1]['exits'].items() if e == 0}
        for again in ([case['again']] if 'again' in case else []) + [None]:
            left = [k for k in sorted(set(case['jobs']) | ({case['then']} if 'then' in case else set())) if 'j%d' % k not in done]
            self.clean(W)
            if not left:
                return
            yield dict(base, procs=[self.job(W, k) for k in left], fsim=dict(seed=1), faults=[again] if again else [])
            done |= {n for n, e in results[-1]['exits'].items() if e == 0}

    # ---- judgement
    def refdir(self, case, k):
        return '%s/ref/c14-%s-%d' % (self.base, case['fmt'], k)

    def same(self, p, q):
        if p.endswith(('.tif', '.dat', '.bsq')):
            return wl.same_raster(p, q)
        if p.endswith('.jpg'):      # lossy, and merged with the image of the interrupted run
            a, b = wl.read_raster(p), wl.read_raster(q)
            return a is not None and a[0].shape == b[0].shape
        return not p.endswith('.prj') or open(p, 'rb').read() == open(q, 'rb').read()

    def judge(self, W, case, results):
        out = '\n'.join((wl.read_text(W + '/_sim/' + f) or '')[-300:] for f in sorted(os.listdir(W + '/_sim')) if f.endswith('.out'))
        fired = [k for r in results for k in r['fired']]
        what = '+'.join(sorted(set(fired))) or 'no fault'
        who = case['module'] if case['what'] == 'hl' else 'Level-2 (%s)' % case['fmt']
        if any(r['end'] != 'done' for r in results):
            yield v('no-completion', '%s does not come to an end (%s) after %s' % (who, [r['end'] for r in results], what))
        elif case['mode'] == 'ref':
            if any(e for e in results[0]['exits'].values()):
                yield v('run-failed', '%s in a sound world fails: %s' % (who, out[-300:]))
            elif case['what'] == 'hl':
                self.save_ref(W, 'c14-' + case['module'])
            else:
                d = self.refdir(case, case['jobs'][0])
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(W + '/l2', d)
        else:
            for n, e in sorted(results[-1]['exits'].items()):
                if e:
                    yield v('rerun-failed', '%s fails with %d when it is repeated after %s: %s' % (who, e, what, (wl.read_text(W + '/_sim/%s.out' % n) or '')[-300:]))
            if not any(e for r in results for e in results[-1]['exits'].values()):
                yield from self.same_as_undisturbed(W, case, what, who)
        if case['what'] == 'hl':
            self.tidy(W)

    def same_as_undisturbed(self, W, case, what, who):
        if case['what'] == 'hl':
            for x in self.compare(W, 'c14-' + case['module'], prov=False):
                yield v(case['module'] + '-' + x['key'], '%s repeated after %s: %s' % (who, what, x['msg']))
            want = {f for f in products(self.base + '/ref/c14-%s/out' % case['module']) if f.endswith('.tif')}
            got = {r[0] for r in prov_rows(W + '/prov')[0] or []}
        else:
            ref = {}
            for k in sorted(set(case['jobs']) | ({case['then']} if 'then' in case else set())):
                ref.update(products(self.refdir(case, k)))
            have = products(W + '/l2')
            for f in sorted(set(ref) - set(have)):
                yield v('output-missing', '%s: %s is missing after %s and another run' % (who, f, what))
            for f in sorted(set(have) - set(ref)):
                yield v('output-extra', '%s: %s is there after %s and another run' % (who, f, what))
            for f in sorted(set(have) & set(ref)):
                if not self.same(have[f], ref[f]):
                    yield v('output-differs', '%s: %s differs from undisturbed work after %s and another run (%s)' % (who, f, what, wl.diff_raster(have[f], ref[f]) if f.endswith('.tif') else ''))
            want = {f for f in ref if f.endswith(('.tif', '.dat'))}
            got = {r[0] for r in prov_rows(W + '/prov')[0] or []}
        names = {os.path.basename(g) for g in got}
        miss = sorted(f for f in want if os.path.basename(f) not in names)
        if miss and 'kill_mid' not in what:     # a torn line takes the next one with it
            yield v('provenance-missing', '%s: no provenance line for %s after %s and another run' % (who, miss[0], what))

    def probes(self, case, r):
        if case['mode'] == 'run':
            yield case['what'] + ('-killed' if any(k.startswith('kill') for x in r['results'] for k in x['fired']) else '-undisturbed')
            if 'then' in case and any(e > 0 for e in r['results'][1]['exits'].values()):
                yield 'stopped-by-stale-lock'
            if len(r['results']) > 2:
                yield 'two-or-more-repetitions'
            if 'stray' in case:
                yield 'leftovers-in-input'
