"""Scenarios on the shell tools that share the Level-2 queue."""
import gzip, io, os, shutil, tarfile, zipfile
import engine
import workload as wl
from engine import Scenario, swarm_sched
from s_l2 import v, draw_fault

TILES = ['T32UNA', 'T32UNB', 'T33UUU']


def scene_id(tile, k):
    return 'S2A_MSIL1C_201806%02dT103021_N0206_R108_%s_201806%02dT123456.SAFE' % (k + 1, tile, k + 1)


class Queue(Scenario):
    kinds = ('plain',)
    real = ['force-level2, force-level1-csd (complete scripts)', 'bash, sed, awk, tar, unzip, dos2unix, lockfile-create, GNU parallel', 'file system below the scenario directory']
    stub = ['force-l2ps: program that sleeps and exits with a prescribed code', 'gsutil: program that copies prescribed files', 'clock, sleep, random bytes, directory order, process scheduler: psim']

    def pre(self):
        wl.skeletons(self.bins['plain'], self.base + '/prm', ['LEVEL2'])
        self.l2stub = engine.tool('l2stub', 'l2stub.c')
        self.gsstub = engine.tool('gsstub', 'gsstub.c')

    def setup(self, W, case):
        for d in ('l2', 'log', 'prov', 'temp', 'bin', 'l1', 'pool', 'meta', 'remote', '.parallel'):
            os.makedirs(W + '/' + d)
        for f in ('.parallel/will-cite', '.boto'):
            open(W + '/' + f, 'w').close()
        for s in ('force-level2', 'force-level1-csd'):
            shutil.copy(self.bins['plain'] + '/' + s, W + '/bin/')
        shutil.copytree(self.bins['plain'] + '/force-misc', W + '/bin/force-misc', ignore=shutil.ignore_patterns('runtime-data'))
        shutil.copy(self.l2stub, W + '/bin/force-l2ps')
        shutil.copy(self.gsstub, W + '/bin/gsutil')
        wl.prm(self.base + '/prm/LEVEL2.prm', W + '/l2.prm', **wl.l2_params(W, NPROC=str(case.get('nproc', 2)), DELAY=str(case.get('delay', 0))))
        with open(W + '/queue.txt', 'w') as q:
            for i, im in enumerate(case.get('images', ())):
                if 'like' not in im:
                    image(W, i, im)
                q.write('%s%s %s\n' % (image_path(W, case['images'], i), '\t' if im.get('tab') else '', im['status']))
        rows = []
        for i, s in enumerate(case.get('scenes', ())):
            sid = scene_id(TILES[s['tile']], i)
            d = W + '/remote/' + sid
            os.makedirs(d)
            for k in range(s['files']):
                with open('%s/f%d' % (d, k), 'w') as f:
                    f.write('file %d of %s\n' % (k, sid) * 3)
            if 'work' in s:
                with open(d + '/work', 'w') as f:
                    f.write('%d 0\n' % s['work'])
            with open(d + '.how', 'w') as f:
                f.write('%d %d %d\n' % (s['ms'], s.get('failat', -1), s.get('leave', 0)))
            rows.append('L1C_%s_A%06d,%s,S,%s,2018-06-%02dT10:30:21.000000Z,%d,%s,T,2018-06-%02dT12:34:56.000000Z,1,1,1,1,gs://gcp-public-data-sentinel-2/tiles/%s'
                        % (TILES[s['tile']], i, 'S2A_' + sid, TILES[s['tile']][1:], i + 1, 50000000, '10', i + 1, sid))
        with open(W + '/meta/metadata_sentinel2.csv', 'w') as f:
            f.write('GRANULE_ID,X\n' + ''.join(r + '\n' for r in rows))

    def level2(self, W, start=0, name='level2'):
        return dict(name=name, start=start, argv=['/bin/bash', W + '/bin/force-level2', W + '/l2.prm'], env=self.env(W))

    def csd(self, W, tiles, start=0, name='csd', opt=()):
        return dict(name=name, start=start, argv=['/bin/bash', W + '/bin/force-level1-csd', '-s', 'S2A', *opt, W + '/meta', W + '/pool', W + '/queue.txt',
                                                  ','.join(TILES[t] for t in tiles)], env=self.env(W))

    def env(self, W):
        return dict(GS_REMOTE=W + '/remote', TERM='xterm', PATH=W + '/bin:' + engine.CLEAN_PATH)

    def phase(self, W, procs, case, **kw):
        ph = dict(procs=procs, exclude=[W + '/bin', W + '/.parallel', W + '/remote', W + '/log'], maxevents=400000)
        ph.update(kw)
        return ph


def image(W, i, im):
    """one image of the queue: a directory or archive whose processing takes ms and ends with code rc"""
    d = '%s/l1/img%d' % (W, i)
    os.makedirs(d)
    with open(d + '/work', 'w') as f:
        f.write('%d %d\n' % (im['ms'], im['rc']))
    k = im['kind']
    if k == 'dir':
        return
    a = d + SUFFIX[k]
    work = open(d + '/work', 'rb').read()
    if k == 'zip':
        with zipfile.ZipFile(a, 'w') as z:
            z.writestr(zipfile.ZipInfo(os.path.basename(d) + '.SAFE/work', (2018, 6, 1, 0, 0, 0)), work)
    else:
        t = tarfile.TarInfo('work')
        t.size = len(work)
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode='w') as f:
            f.addfile(t, io.BytesIO(work))
        with open(a, 'wb') as f:
            f.write(gzip.compress(b.getvalue(), mtime=0) if k == 'tgz' else b.getvalue())
    shutil.rmtree(d)
    if im.get('corrupt'):
        n = os.path.getsize(a)
        with open(a, 'r+b') as f:
            f.truncate(700 if k == 'tar' else n // 3)


SUFFIX = {'dir': '', 'tar': '.tar', 'tgz': '.tar.gz', 'zip': '.zip'}


def image_path(W, images, i):
    im = images[i]
    if im.get('like') == 'mount':       # the same path below another mount point
        return W + '/mnt' + image_path(W, images, im['of'])
    if im.get('like') == 'name':        # a name that differs in punctuation only
        p = image_path(W, images, im['of'])
        return os.path.dirname(p) + '/' + os.path.basename(p).replace('.', '_') + ('' if '.' in os.path.basename(p) else '_2')
    return '%s/l1/img%d%s' % (W, i, SUFFIX[im['kind']])


def entries(path):
    """queue entries, None if there is no queue"""
    t = wl.read_text(path)
    if t is None:
        return None
    return [tuple(l.split()) for l in t.split('\n') if l.strip()]


def killed(results):
    return any(k in r['fired'] for r in results for k in ('kill', 'kill_mid', 'kill_all'))


class C09(Queue):
    prop = 'C09'
    runs_quick, runs_thorough = 600, 8000
    rule = ('Each run processes a seeded queue (directories, archives, corrupt archives, entries already done) with real force-level2 and GNU parallel while zero to two real '
            'downloads append to the queue, under a seeded schedule with stalls or a kill followed by a second force-level2; afterwards every entry must have the status of its processing.')
    assumptions = ['a stall is shorter than the time lockfile-create waits', 'after a kill the user removes the stale lock of the queue']
    ELIG = dict(stall=0)

    def calibration(self):
        I = [dict(kind=k, ms=20, rc=0, status='QUEUED') for k in ('dir', 'tar', 'tgz', 'zip')] + [dict(kind='dir', ms=0, rc=1, status='QUEUED'), dict(kind='dir', ms=0, rc=0, status='DONE')]
        return [dict(mode='ref', images=I, scenes=[dict(tile=0, files=2, ms=10)], csd=[[0]])]

    def calibrated(self, pairs):
        r = pairs[0][1]['results'][0]
        self.elig = r['eligible']
        self.vt = r['vtime_ns']

    def gen(self, rng, i):
        images = []
        for _ in range(rng.choice([1, 2, 3, 3, 4, 5])):
            k = rng.choice(['dir', 'dir', 'dir', 'tar', 'tgz', 'zip'])
            im = dict(kind=k, ms=rng.choice([0, 0, 5, 30, 200, 3000]), rc=rng.choice([0, 0, 1]), status='QUEUED')
            if k != 'dir' and rng.random() < .2:
                im['corrupt'] = 1
            if rng.random() < .15:
                im['tab'] = 1
            images.append(im)
        for _ in range(rng.choice([0, 1, 2])):
            images.append(dict(kind='dir', ms=0, rc=0, status=rng.choice(['DONE', 'FAIL'])))
        rng.shuffle(images)
        if rng.random() < .3:       # entries of earlier results whose paths resemble a queued one
            images.append(dict(kind='dir', ms=0, rc=0, status=rng.choice(['DONE', 'FAIL']), like=rng.choice(['mount', 'name']), of=rng.randrange(len(images))))
        case = dict(mode='run', images=images, nproc=rng.choice([1, 2, 2, 3, 5]), delay=rng.choice([0, 0, 0, 1]), seed=rng.getrandbits(48), sched=swarm_sched(rng), scenes=[], csd=[])
        case['lstart'] = rng.choice([0, 0, 10**6, 3 * 10**6])
        n = rng.choice([0, 1, 1, 2])
        for k in range(n):
            for _ in range(rng.choice([1, 1, 2])):
                case['scenes'].append(dict(tile=k, files=rng.choice([1, 2]), ms=rng.choice([0, 0, 1, 5, 40])))
            case['csd'].append([k])
        case['cstart'] = [rng.choice([0, 0, 10**5, 10**6, 5 * 10**6, 2 * 10**7]) for _ in case['csd']]
        case['faults'] = []
        x = rng.random()
        if x < .3:
            for _ in range(rng.choice([1, 2])):
                case['faults'].append(['stall', rng.randrange(self.elig['stall']), rng.choice([5, 200, 3000, 20000])] + rng.choice([[], ['queue']])[:1])
                if len(case['faults'][-1]) > 3:
                    case['faults'][-1][1] = rng.randrange(60)
        elif x < .6:
            case['faults'].append(['kill', rng.randrange(self.elig['kill']), 0, '@level2'] if rng.random() < .4 else ['kill', rng.randrange(50), 0, '@level2:queue'])
            case['rerun'] = 1
        elif x < .75:
            k = rng.choice(['enospc', 'eio_write', 'eio_read', 'eio_meta', 'short_write', 'emfile', 'eacces'])
            case['faults'].append([k, rng.randrange(20), 50 if k == 'short_write' else 0, 'queue'])
        return case

    def phases(self, W, case, results):
        procs = [self.level2(W, case.get('lstart', 0))] + [self.csd(W, t, st, 'csd%d' % k) for k, (t, st) in enumerate(zip(case.get('csd', ()), case.get('cstart', [0] * 9)))]
        self.first = None
        yield self.phase(W, procs, case, seed=case.get('seed', 1), sched=case.get('sched', (0, 0, 0)), faults=case.get('faults', ()), shuffle=1, events=case.get('events'))
        if case.get('rerun'):
            for l in ('queue.txt.lock',):
                if os.path.exists(W + '/' + l):
                    os.unlink(W + '/' + l)
            shutil.copy(W + '/queue.txt', W + '/queue.after') if os.path.exists(W + '/queue.txt') else None
            yield self.phase(W, [self.level2(W)], case)

    def judge(self, W, case, results):
        r = results[-1]
        code = results[0]['exits'].get('level2')
        errs = [k for k in results[0]['fired'] if k not in ('stall', 'kill')]
        what = '+'.join(sorted(results[0]['fired'])) or 'no fault'
        if any(x['end'] != 'done' for x in results):
            yield v('no-completion', 'the tools do not come to an end (%s) after %s' % ([x['end'] for x in results], what))
            return
        want = {}
        for i, im in enumerate(case['images']):
            p = image_path(W, case['images'], i)
            ok = 'FAIL' if im['rc'] or im.get('corrupt') else 'DONE'
            want[p] = (im['status'], ok)
        added = ['%s/pool/%s/%s' % (W, TILES[s['tile']], scene_id(TILES[s['tile']], i)) for i, s in enumerate(case['scenes'])]
        stages = [(W + '/queue.txt', len(results) > 1 or not killed(results))]
        if case.get('rerun'):
            stages.insert(0, (W + '/queue.after', False))
        for path, final in stages:
            q = entries(path)
            when = '' if final else ' (looked at right after the kill)'
            if q is None:
                yield v('queue-lost', 'the queue file is gone after %s%s' % (what, when))
                continue
            seen = {}
            for e in q:
                if len(e) != 2:
                    yield v('queue-damaged', 'the queue holds the line %r after %s%s' % (' '.join(e).replace(W, ''), what, when))
                elif e[0] in seen:
                    yield v('entry-repeated', '%s is listed twice after %s' % (e[0].replace(W, ''), what))
                else:
                    seen[e[0]] = e[1]
            for p, (st, ok) in sorted(want.items()):
                n = p.replace(W, '')
                if p not in seen:
                    yield v('entry-lost', 'the entry of %s is gone after %s%s' % (n, what, when))
                elif st != 'QUEUED':
                    if seen[p] != st:
                        yield v('entry-changed', '%s was %s before and is %s now, though it was not queued' % (n, st, seen[p]))
                elif seen[p] == 'QUEUED':
                    if final and not errs:
                        yield v('status-missing', '%s is still queued although force-level2 ended, %s' % (n, what))
                elif seen[p] != ok:
                    yield v('status-wrong', '%s is marked %s, its processing ended with %s, %s' % (n, seen[p], ok, what))
            if not errs:
                for p, n in zip(added, range(9)):
                    c = results[0]['exits'].get('csd%d' % case['scenes'][n]['tile'])
                    if c == 0 and p not in seen:
                        yield v('addition-lost', 'the download of %s succeeded, its queue entry is gone%s' % (p.replace(W, ''), when))
            for p in sorted(set(seen) - set(want) - set(added)):
                yield v('entry-invented', 'the queue lists %s, which nobody added' % p.replace(W, ''))
        if not results[0]['fired'] and code != 0:
            yield v('level2-failed', 'force-level2 exits with %s: %s' % (code, (wl.read_text(W + '/_sim/level2.out') or '')[-300:]))
        if not errs and not killed(results):
            left = [f for f in os.listdir(W + '/temp') if not f.startswith('cpu-')]
            if left:
                yield v('temp-left', 'unpacked images are left in the temporary directory: %s' % left)
        if not errs and os.path.exists(W + '/queue.txt.lock'):
            yield v('lock-left', 'the queue is still locked after %s' % what)

    def probes(self, case, r):
        if case['mode'] == 'run':
            yield 'images-%d' % min(len(case['images']), 4)
            if case['csd']:
                yield 'downloads-append'
            if r['results'][0]['max_runnable'] > 2:
                yield 'three-or-more-runnable'
            if len(r['results']) > 1:
                yield 'rerun-after-kill'


class C10(Queue):
    prop = 'C10'
    runs_quick, runs_thorough = 500, 8000
    rule = ('Each run lets one to three real downloads fill one pool and one queue, at times while a real force-level2 works on that queue, under a seeded schedule with prescribed transfer '
            'failures, stalls, kills or I/O errors; then the trouble ends and the same downloads run again. The queue and the pool are looked at after both rounds.')
    assumptions = ['gsutil: files of a scene appear one after another under a temporary name, a failed transfer ends with a non-zero code', 'the user removes the stale lock of the queue before running again after a kill or an I/O error',
                   'two downloads never fetch the same scene at the same time']

    def calibration(self):
        return [dict(mode='ref', scenes=[dict(tile=0, files=2, ms=10, by=0, work=0), dict(tile=1, files=2, ms=10, by=1, work=0)], csd=2, level2=1, images=[dict(kind='dir', ms=20, rc=0, status='QUEUED')])]

    def calibrated(self, pairs):
        self.elig = pairs[0][1]['results'][0]['eligible']

    def gen(self, rng, i):
        n = rng.choice([1, 1, 2, 2, 3])
        one = rng.random() < .3         # all downloads work in the same tile, at different dates
        case = dict(mode='run', csd=n, same=int(one), scenes=[], images=[], seed=rng.getrandbits(48), sched=swarm_sched(rng), faults=[], nproc=rng.choice([1, 2, 3]))
        for k in range(n):
            for _ in range(rng.choice([1, 2, 2, 3])):
                s = dict(tile=0 if one else k, files=rng.choice([1, 2, 3]), ms=rng.choice([0, 0, 1, 10, 100]), by=k, work=rng.choice([0, 5]))
                x = rng.random()
                if x < .1:
                    s['had'] = rng.choice(['QUEUED', 'DONE', 'FAIL'])
                elif x < .2:
                    s['partial'] = rng.randrange(s['files'] + 1)
                if x > .1 and rng.random() < .15:
                    s['failat'] = rng.randrange(s['files'] + 1)
                    s['leave'] = rng.choice([0, 1])
                case['scenes'].append(s)
        case['cstart'] = [rng.choice([0, 0, 10**5, 10**6, 10**7]) for _ in range(n)]
        if rng.random() < .3:
            case['level2'] = 1
            case['lstart'] = rng.choice([0, 10**6, 10**7, 4 * 10**7, 10**8])
            case['images'] = [dict(kind='dir', ms=rng.choice([0, 30]), rc=0, status='QUEUED') for _ in range(rng.choice([1, 2]))]
        x = rng.random()
        if x < .15:
            case['faults'].append(['stall', rng.randrange(self.elig['stall']), rng.choice([5, 200, 3000, 20000])])
        elif x < .5:
            k = rng.randrange(n)
            y = rng.random()
            if y < .4:
                case['faults'].append(['kill', rng.randrange(self.elig['kill'] // 3 * 2), 0, '@csd%d' % k])
            elif y < .8:
                case['faults'].append(['kill', rng.randrange(40), 0, '@csd%d:%s' % (k, rng.choice(['queue', 'pool', 'pool', '.SAFE']))])
            else:
                case['faults'].append(['kill_all', rng.randrange(self.elig['kill_all']), 0])
        elif x < .75:
            k = rng.choice(['enospc', 'eio_write', 'eio_meta', 'emfile', 'eacces', 'short_write', 'disk_full'])
            case['faults'].append([k, rng.randrange(12), 50 if k == 'short_write' else 0, '@csd%d:%s' % (rng.randrange(n), rng.choice(['queue', 'pool', 'SAFE']))])
        return case

    def paths(self, W, case):
        return ['%s/pool/%s/%s' % (W, TILES[s['tile']], scene_id(TILES[s['tile']], i)) for i, s in enumerate(case['scenes'])]

    def downloads(self, W, case):
        ps = []
        for k in range(case['csd']):
            mine = [i for i, s in enumerate(case['scenes']) if s['by'] == k]
            if not mine:
                continue
            opt = ['-d', '201806%02d,201806%02d' % (mine[0] + 1, mine[-1] + 1)] if case.get('same') else []
            ps.append(self.csd(W, sorted({case['scenes'][i]['tile'] for i in mine}), case.get('cstart', [0] * 9)[k], 'csd%d' % k, opt))
        return ps

    def phases(self, W, case, results):
        for i, (s, p) in enumerate(zip(case['scenes'], self.paths(W, case))):
            r = W + '/remote/' + os.path.basename(p)
            if 'had' in s:
                shutil.copytree(r, p)
                with open(W + '/queue.txt', 'a') as f:
                    f.write('%s %s\n' % (p, s['had']))
            elif 'partial' in s:        # what a download that was interrupted left
                os.makedirs(p)
                names = sorted(os.listdir(r))
                for n in names[:s['partial']]:
                    shutil.copy(r + '/' + n, p)
                with open('%s/%s_.gstmp' % (p, names[s['partial']]), 'w') as f:
                    f.write('fi')
        procs = self.downloads(W, case)
        if case.get('level2'):
            procs.append(self.level2(W, case.get('lstart', 0)))
        yield self.phase(W, procs, case, seed=case.get('seed', 1), sched=case.get('sched', (0, 0, 0)), faults=case.get('faults', ()), shuffle=1, events=case.get('events'))
        self.mid = self.look(W, case)
        if case['mode'] == 'ref':
            return
        for p in self.paths(W, case):
            with open('%s/remote/%s.how' % (W, os.path.basename(p)), 'w') as f:
                f.write('1 -1 0\n')
        if os.path.exists(W + '/queue.txt.lock') and set(results[0]['fired']) - {'stall'}:
            os.unlink(W + '/queue.txt.lock')
        yield self.phase(W, self.downloads(W, dict(case, cstart=[0] * 9)), case, seed=case.get('seed', 1) + 1)

    def look(self, W, case):
        """queue entries and for every scene whether it is in the pool: None, False (incomplete) or True"""
        have = []
        for p in self.paths(W, case):
            r = W + '/remote/' + os.path.basename(p)
            have.append(None if not os.path.isdir(p) else sorted(os.listdir(p)) == sorted(os.listdir(r)) and all(wl.read_text(p + '/' + n) == wl.read_text(r + '/' + n) for n in os.listdir(r)))
        return entries(W + '/queue.txt'), have

    def judge(self, W, case, results):
        fired = results[0]['fired']
        what = '+'.join(sorted(fired)) or 'no fault'
        if any(x['end'] != 'done' for x in results):
            yield v('no-completion', 'the tools do not come to an end (%s) after %s' % ([x['end'] for x in results], what))
            return
        if case['mode'] == 'ref':
            return
        harm = [k for k in fired if k != 'stall']
        paths = self.paths(W, case)
        images = [image_path(W, case['images'], i) for i in range(len(case['images']))]
        for rnd, (q, have), r in ((1, self.mid, results[0]), (2, self.look(W, case), results[1])):
            when = 'after %s' % what if rnd == 1 else 'after %s and another run' % what
            if q is None:
                yield v('queue-lost', 'the queue is gone %s' % when)
                continue
            listed = {}
            for e in q:
                if len(e) != 2 or e[0] not in paths + images:
                    yield v('queue-damaged', 'the queue holds the line %r %s' % (' '.join(e).replace(W, ''), when))
                else:
                    listed.setdefault(e[0], []).append(e[1])
            for p, st in sorted(listed.items()):
                if len(st) > 1:
                    yield v('listed-twice', '%s is listed %d times %s' % (os.path.basename(p), len(st), when))
            for i, (s, p) in enumerate(zip(case['scenes'], paths)):
                n = 'scene %d' % i
                code = r['exits'].get('csd%d' % s['by'])
                st = listed.get(p, [])
                if have[i] is False and 'QUEUED' in st and 'partial' not in s:
                    yield v('queued-incomplete', '%s is queued, what is in the pool is not complete %s' % (n, when))
                if have[i] is None and 'QUEUED' in st and not (rnd == 1 and harm):
                    yield v('queued-missing', '%s is queued, but not in the pool %s' % (n, when))
                if 'FAIL' in st and s.get('had') != 'FAIL' and not harm:
                    yield v('processed-incomplete', '%s was processed before it was complete %s' % (n, when))
                if 'had' in s and s['had'] not in st and not (s['had'] == 'QUEUED' and st == ['DONE'] and case.get('level2')):
                    yield v('entry-changed', '%s was listed as %s, now it is %s %s' % (n, s['had'], st, when))
                if code == 0 and not (have[i] and st):
                    yield v('success-untrue', 'the download of %s ended with success; in the pool: %s, listed: %s, %s' % (n, have[i], st, when))
                if code == 0 and rnd == 1 and 'failat' in s and not killed(results):
                    yield v('failure-hidden', 'the transfer of %s failed, the download ended with success' % n)
                if code not in (0, None) and rnd == 1 and not harm and not any('failat' in t for t in case['scenes'] if t['by'] == s['by']):
                    yield v('download-failed', 'csd%d exits with %s: %s' % (s['by'], code, (wl.read_text(W + '/_sim/csd%d.out' % s['by']) or '')[-300:]))
                if rnd == 2 and code != 0:
                    yield v('rerun-failed', 'running the download of %s again after %s exits with %s: %s' % (n, what, code, (wl.read_text(W + '/_sim/csd%d.out' % s['by']) or '')[-300:]))
        if not harm and os.path.exists(W + '/queue.txt.lock'):
            yield v('lock-left', 'the queue is still locked %s' % what)

    def probes(self, case, r):
        if case['mode'] == 'run':
            yield 'downloads-%d' % case['csd']
            for s in case['scenes']:
                for k in ('failat', 'partial', 'had'):
                    if k in s:
                        yield 'scene-' + k
            if case.get('level2'):
                yield 'with-level2'
