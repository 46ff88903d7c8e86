"""Search engine shared by all checks: builds the code under test from /repo's working
tree, runs simulated executions (psim, fsim), gates, minimises and reports violations,
writes the evidence file."""
import atexit, fcntl, hashlib, json, os, random, re, shutil, signal, subprocess, sys, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
SIM = os.path.join(VERIF, 'sim')
OPT = os.environ.get('VERIF_OPT', '-O0')
CLEAN_PATH = '/usr/bin:/bin:/usr/sbin:/sbin'


class CheckError(Exception):
    pass


# ----------------------------------------------------------------------------- builds
def _tree_files():
    for top in ('Makefile', 'src', 'build', 'bash', 'misc', 'python', 'rstats', 'check-required.sh'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            yield p
        for d, dn, fn in os.walk(p):
            dn.sort()
            for f in sorted(fn):
                yield os.path.join(d, f)


def tree_hash(extra=()):
    h = hashlib.sha256()
    for f in list(_tree_files()) + list(extra):
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        try:
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:20]


def _prune(prefix, keep=3):
    ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith(prefix) and os.path.isdir(os.path.join(CACHE, d))]
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def tool(name, src, flags=('-O2',), obj=False):
    """compile one of our own simulator sources (cached by content)"""
    os.makedirs(CACHE, exist_ok=True)
    p = os.path.join(SIM, src)
    key = hashlib.sha256(open(p, 'rb').read() + repr(flags).encode()).hexdigest()[:16]
    out = os.path.join(CACHE, '%s-%s%s' % (name, key, '.o' if obj else ''))
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run(['gcc'] + list(flags) + (['-c'] if obj else []) + ['-o', tmp, p], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('cannot compile %s: %s' % (src, r.stderr[-2000:]))
        os.rename(tmp, out)
    return out


def build(kind):
    """kind 'plain': FORCE as the Makefile builds it; 'fiber': instrumented, linked with the
    thread simulator.  Built from a copy of the working tree; /repo is not written to."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rt = tool('fsim', 'fsim.c', ('-O2', '-fno-omit-frame-pointer'), obj=True)
        key = OPT[1:] + tree_hash([os.path.join(SIM, 'simcc')] + ([os.path.join(SIM, 'fsim.c')] if kind == 'fiber' else []))
        dst = os.path.join(CACHE, 'build-%s-%s' % (kind, key))
        if os.path.exists(os.path.join(dst, 'ok')):
            os.utime(dst)
            return os.path.join(dst, 'bin')
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        for top in ('Makefile', 'check-required.sh'):
            if os.path.exists(os.path.join(REPO, top)):
                shutil.copy2(os.path.join(REPO, top), dst)
        for top in ('src', 'build', 'bash', 'misc', 'python', 'rstats'):
            if os.path.isdir(os.path.join(REPO, top)):
                shutil.copytree(os.path.join(REPO, top), os.path.join(dst, top), symlinks=True)
        env = dict(os.environ, PATH=CLEAN_PATH, FSIM_RT=rt)
        nj = '-j%d' % max(2, len(os.sched_getaffinity(0)))
        cmd = ['make', nj, '-o', 'check-tools']
        if kind == 'fiber':
            cc = os.path.join(SIM, 'simcc')
            cmd += ['GCC=%s gcc %s -fopenmp' % (cc, OPT), 'G11=%s g++ -std=c++11 %s -fopenmp' % (cc, OPT)]
        r = subprocess.run(cmd + ['prepare', 'exe'], cwd=dst, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            r = subprocess.run(['make', '-o', 'check-tools', 'bash', 'rstats', 'python', 'misc'], cwd=dst, env=env, capture_output=True, text=True)
        if r.returncode:
            tail = (r.stdout + r.stderr)[-3000:]
            shutil.rmtree(dst, ignore_errors=True)
            raise CheckError('build (%s) failed:\n%s' % (kind, tail))
        shutil.rmtree(os.path.join(dst, 'obj'), ignore_errors=True)
        open(os.path.join(dst, 'ok'), 'w').close()
        _prune('build-%s-' % kind)
        return os.path.join(dst, 'bin')


# ----------------------------------------------------------------------------- scratch
_base = None


def _remove_unused(d):
    try:
        if time.time() - os.stat(d).st_mtime < 60 and not os.path.exists(d + '/.inuse'):
            return
        fd = os.open(d + '/.inuse', os.O_RDWR | os.O_CREAT)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            return
        finally:
            os.close(fd)
        shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def _lock(path, wait):
    while True:
        fd = os.open(path, os.O_RDWR | os.O_CREAT)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX | (0 if wait else fcntl.LOCK_NB))
            if os.stat(path).st_ino == os.fstat(fd).st_ino:
                return fd
        except FileNotFoundError:
            pass
        except OSError:
            os.close(fd)
            return None
        os.close(fd)


def _remove_worlds(cand):
    for o in os.listdir(cand):
        if len(o) == 14 and o.startswith('vw') and o.endswith('.lock'):
            fd = _lock(os.path.join(cand, o), False)
            if fd is not None:
                _leave(os.path.join(cand, o[:-5]), fd)


def _enter(scn, case):
    """directory of a run.  It has the same name whenever and wherever the run is repeated: programs that read memory
    they should not read find paths in there"""
    h = hashlib.sha256((scn.prop + json.dumps(case, sort_keys=True)).encode()).hexdigest()
    d = '%s/vw%07d' % (os.path.dirname(scratch_base()), int(h[:12], 16) % 10**7)
    fd = _lock(d + '.lock', True)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/w')
    return d, fd


def _leave(d, fd):
    shutil.rmtree(d, ignore_errors=True)
    try:
        os.unlink(d + '.lock')
    except OSError:
        pass
    os.close(fd)


def scratch_base():
    global _base
    if _base is None:
        for cand in (os.environ.get('VERIF_SCRATCH', '/dev/shm'), CACHE):
            try:
                os.makedirs(cand, exist_ok=True)
                st = os.statvfs(cand)
                if os.access(cand, os.W_OK) and st.f_bavail * st.f_frsize > 2 << 30:
                    for o in os.listdir(cand):  # left over from a check that was killed
                        if len(o) == 9 and o.startswith('vs') and o[2:].isdigit():
                            _remove_unused(os.path.join(cand, o))
                    _remove_worlds(cand)
                    while True:
                        b = '%s/vs%07d' % (cand, int.from_bytes(os.urandom(4), 'little') % 10**7)
                        try:
                            os.mkdir(b)
                            break
                        except FileExistsError:
                            pass
                    fcntl.flock(os.open(b + '/.inuse', os.O_RDWR | os.O_CREAT), fcntl.LOCK_EX)     # held as long as this process or a worker lives
                    _base = b
                    break
            except OSError:
                continue
        if _base is None:
            raise CheckError('no scratch space')
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and (shutil.rmtree(_base, ignore_errors=True), _remove_worlds(os.path.dirname(_base))))
    return _base


# ----------------------------------------------------------------------------- one simulated run
PSIM = None


def run_phase(W, ph, decisions, work, tag):
    """one psim execution.  returns (result, function that loads the decision lines)"""
    cfg, res, trc, evf = (os.path.join(work, tag + s) for s in ('.cfg', '.res', '.trc', '.ev'))
    L = ['seed %d' % ph.get('seed', 1), 'world ' + W, 'exclude %s/_sim' % W, 'result ' + res, 'trace ' + trc]
    for x in ph.get('exclude', ()):
        L.append('exclude ' + x)
    for x in ph.get('quiet', ()):
        L.append('quiet ' + x)
    if ph.get('events'):
        L.append('events ' + evf)
    L.append('epoch %d' % ph.get('epoch', 1710000000))
    L.append('tick %d' % ph.get('tick', 20000))
    L.append('maxvtime %d' % ph.get('maxvtime', 7200))
    L.append('maxevents %d' % ph.get('maxevents', 200000))
    L.append('sched %d %d %d' % tuple(ph.get('sched', (0, 0, 0))[:3]))
    if len(ph.get('sched', ())) > 3:
        L.append('hot %d' % ph['sched'][3])
    L.append('shuffle %d' % ph.get('shuffle', 0))
    fs = ph.get('fsim')
    tfiles = {}
    if decisions is not None:
        rp = os.path.join(work, tag + '.rep')
        with open(rp, 'w') as f:
            f.write(''.join(d + '\n' for d in decisions if d[0] in 'SF'))
        L.append('replay ' + rp)
        if any(' enomem ' in d for d in decisions if d[0] == 'F'):
            L.append('heap 1')
    else:
        for f in ph.get('faults', ()):
            L.append('fault %s %d %d %s' % (f[0], f[1], f[2], f[3] if len(f) > 3 else ''))
    env = dict(PATH=CLEAN_PATH, HOME=W, TZ='UTC', LC_ALL='C', LANG='C', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               GDAL_NUM_THREADS='1', PERL_HASH_SEED='0', TMPDIR=W + '/_sim', GDAL_PAM_ENABLED='YES')
    env.update(ph.get('env', {}))
    os.makedirs(W + '/_sim', exist_ok=True)
    for p in ph['procs']:
        e = dict(env)
        e.update(p.get('env', {}))
        if fs:
            tf = os.path.join(work, '%s.%s.ft' % (tag, p['name']))
            rf = os.path.join(work, '%s.%s.fr' % (tag, p['name']))
            for x in (tf, rf):
                if os.path.exists(x):
                    os.unlink(x)
            tfiles[p['name']] = (tf, rf)
            e.update(FSIM_SEED=str(fs.get('seed', 1)), FSIM_MEAN=str(fs.get('mean', 0)), FSIM_SYNC=str(fs.get('sync', 0)),
                     FSIM_BIAS=str(fs.get('bias', -1)), FSIM_CHUNK=str(fs.get('chunk', 1)), FSIM_TRACE=tf, FSIM_RESULT=rf)
            if fs.get('limit'):
                e['OMP_THREAD_LIMIT'] = str(fs['limit'])
            if decisions is not None:
                fp = os.path.join(work, '%s.%s.frep' % (tag, p['name']))
                pre = '@%s ' % p['name']
                with open(fp, 'w') as f:
                    f.write(''.join(d[len(pre):] + '\n' for d in decisions if d.startswith(pre)))
                e['FSIM_REPLAY'] = fp
        L += ['env %s=%s' % (k, v) for k, v in sorted(e.items())]
        L.append('proc %s %s %d %d' % (p['name'], p.get('cwd', W), p.get('start', 0), len(p['argv'])))
        L += list(p['argv'])
    # psim copies the environment known when it reads a proc line, later settings override earlier ones
    with open(cfg, 'w') as f:
        f.write('\n'.join(_dedup_env(L)) + '\n')
    for x in (res, trc):
        if os.path.exists(x):
            os.unlink(x)
    r = subprocess.run([PSIM, cfg], capture_output=True, text=True)
    try:
        out = json.load(open(res))
    except Exception:
        return dict(end='error', error='psim gave no result (rc %d): %s' % (r.returncode, r.stderr[-500:]), exits={}, fired={}, eligible={}, events=0,
                    switches=0, vtime_ns=0, hash='', sched='', injected={}), lambda: []
    fh = hashlib.sha256(out['hash'].encode())
    sh = hashlib.sha256(out['sched'].encode())
    out['fiber'] = {}
    for n, (tf, rf) in sorted(tfiles.items()):
        try:
            fr = json.load(open(rf))
        except Exception:
            fr = {}
        out['fiber'][n] = fr
        fh.update(str(fr.get('sched')).encode())
        sh.update(str(fr.get('sched')).encode())
    out['hash'] = fh.hexdigest()[:16]
    out['sched'] = sh.hexdigest()[:16]
    if ph.get('events'):
        out['evfile'] = evf

    def load():
        dec = [l.rstrip('\n') for l in open(trc)] if os.path.exists(trc) else []
        for n, (tf, rf) in sorted(tfiles.items()):
            if os.path.exists(tf):
                dec += ['@%s %s' % (n, l) for l in _trace_lines(tf)]
        return dec
    return out, load


def _trace_lines(path):
    """lines of a thread trace; a process that crashed leaves the unused rest of the file as zeros"""
    buf = b''
    with open(path, 'rb') as f:
        while True:
            b = f.read(1 << 16)
            z = b.find(b'\0')
            buf += b if z < 0 else b[:z]
            if not b or z >= 0:
                break
    return buf.decode('latin1').splitlines()


def _dedup_env(lines):
    """env lines apply to following procs only; psim accumulates, so emit each proc's set once"""
    out, seen = [], {}
    for l in lines:
        if l.startswith('env '):
            k, v = l[4:].split('=', 1)
            seen[k] = v
            continue
        if l.startswith('proc '):
            out.append('envclear')
            out += ['env %s=%s' % kv for kv in sorted(seen.items())]
            seen = {}
        out.append(l)
    return out


def state_hash(W, skip=()):
    """content of the world, with the world's own path left out"""
    h = hashlib.sha256()
    wb = W.encode()
    for d, dn, fn in os.walk(W):
        dn.sort()
        rel = os.path.relpath(d, W)
        if rel == '_sim' or rel.startswith('_sim/'):
            continue
        for f in sorted(fn):
            p = os.path.join(d, f)
            h.update((rel + '/' + re.sub(r'^\.lk\d.*', '.lk', f)).encode())      # lockfile-create: process number and host
            try:
                h.update(hashlib.sha256(open(p, 'rb').read().replace(wb, b'@W')).digest())
            except OSError:
                pass
    return h.hexdigest()[:16]


class Outcome:
    pass


def run_case(scn, case, decisions=None, keep=None):
    """run all phases of a case in a fresh world and judge it"""
    wk, lock = _enter(scn, case)
    W = os.path.join(wk, 'w')
    o = Outcome()
    o.results, o.decisions, o.viol, o.error = [], [], [], None
    t0 = time.time()
    try:
        scn.run_start()
        scn.setup(W, case)
        gen = scn.phases(W, case, o.results)
        for i, ph in enumerate(gen):
            r, d = run_phase(W, ph, None if decisions is None else (decisions[i] if i < len(decisions) else []), wk, 'p%d' % i)
            o.results.append(r)
            o.decisions.append(d)
            if r['end'] == 'error':
                o.error = r['error']
                break
        if not o.error:
            o.viol = list(scn.judge(W, case, o.results))
        o.decisions = [d() for d in o.decisions] if o.viol else []
        o.state = state_hash(W)
        h = hashlib.sha256()
        for r in o.results:
            h.update(r['hash'].encode())
        h.update(o.state.encode())
        h.update(json.dumps([v['key'] for v in o.viol]).encode())
        o.hash = h.hexdigest()[:16]
    except Exception:
        o.error = traceback.format_exc()
        o.hash = ''
        o.state = ''
    o.secs = time.time() - t0
    if keep:
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(W, keep, symlinks=True)
    _leave(wk, lock)
    return o


# ----------------------------------------------------------------------------- workers
_wid = None
_scn = None


def _winit(cpus, counter, base, psim, scn):
    global _wid, _base, PSIM, _scn
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with counter.get_lock():
        _wid = counter.value
        counter.value += 1
    _base, PSIM, _scn = base, psim, scn
    try:
        os.sched_setaffinity(0, {cpus[_wid % len(cpus)]})
    except OSError:
        pass


def _slim(o):
    return dict(viol=o.viol, error=o.error, hash=o.hash, state=o.state, secs=o.secs, decisions=o.decisions if o.viol else None,
                results=[{k: v for k, v in r.items()} for r in o.results])


def _wrun(a):
    case, dec = a
    o = run_case(_scn, case, dec)
    if o.error and 's of real time' in str(o.error):
        o = run_case(_scn, case, dec)
    return _slim(o)


def _wmut(a):
    """run with decisions, return (violation keys, hash)"""
    case, dec = a
    o = run_case(_scn, case, dec)
    return ([v['key'] for v in o.viol], o.hash, o.error, o.viol)


def make_pool(scn, n=None):
    cpus = sorted(os.sched_getaffinity(0))
    n = n or len(cpus)
    ctx = mp.get_context('fork')
    counter = ctx.Value('i', 0)
    return ctx.Pool(n, _winit, (cpus, counter, scratch_base(), PSIM, scn))


# ----------------------------------------------------------------------------- minimiser
def _flat(dec):
    return [(i, l) for i, ls in enumerate(dec) for l in ls]


def _unflat(items, n):
    d = [[] for _ in range(n)]
    for i, l in items:
        d[i].append(l)
    return d


def minimise(pool, case, dec, key, budget=400, tmax=120):
    n = len(dec)
    items = _flat(dec)
    t0 = time.time()
    runs = 0

    def test(cands):
        nonlocal runs
        runs += len(cands)
        rs = pool.map(_wmut, [(case, _unflat(c, n)) for c in cands], 1)
        for c, r in zip(cands, rs):
            if r[2] is None and key in r[0]:
                return c
        return None

    # coarse attempts: nothing, faults only, process schedule only, thread schedule only
    cl = [[], [x for x in items if x[1][0] == 'F'], [x for x in items if x[1][0] in 'SF'], [x for x in items if x[1][0] == '@']]
    cl = [c for c in cl if len(c) < len(items)]
    got = test(cl) if cl else None
    if got is not None:
        items = got
    # thread schedules: only one of the parallel regions usually matters
    def region(l):
        m = re.match(r'@\S+ T . 0(?:@(\d+)|/(\d+))', l)
        return (m.group(1) or m.group(2)) if m else None
    regs = sorted({(x[0], region(x[1])) for x in items if region(x[1])})
    if 1 < len(regs):
        got = test([[x for x in items if not region(x[1]) or (x[0], region(x[1])) == g] for g in regs][:64])
        if got is not None:
            items = got
    # long schedules: seeded random thinning, most scheduling decisions do not matter
    rng = random.Random(len(items))
    share = 64
    while len(items) > 24 and share >= 2 and runs < budget and time.time() - t0 < tmax:
        cands = [[x for x in items if x[1][0] == 'F' or rng.random() < 1. / share] for _ in range(16)]
        # ... or everything up to / from some place
        cands += [items[:len(items) * k // 8] for k in (1, 3, 5, 7)] + [items[len(items) * k // 8:] for k in (7, 5, 3, 1)]
        got = test([c for c in cands if len(c) < len(items)])
        if got is not None:
            items = got
        else:
            share //= 2
    # halves by position: a prefix is often enough
    gran = 2
    while len(items) >= 1 and runs < budget and time.time() - t0 < tmax:
        size = max(1, len(items) // gran)
        parts = [items[i:i + size] for i in range(0, len(items), size)]
        cands = []
        if gran == 2:
            cands += parts
        cands += [[x for j, p in enumerate(parts) if j != i for x in p] for i in range(len(parts))]
        cands = [c for c in cands if len(c) < len(items)]
        got = None
        for b in range(0, len(cands), 16):
            got = test(cands[b:b + 16])
            if got is not None or time.time() - t0 > tmax:
                break
        if got is not None:
            items = got
            gran = max(2, gran - 1)
        else:
            if size == 1:
                break
            gran = min(len(items), gran * 2)
    return _unflat(items, n), runs


# ----------------------------------------------------------------------------- known findings
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def is_known(known, v):
    for k in known:
        if k['key'] == v['key']:
            return k
    return None


# ----------------------------------------------------------------------------- the check
def tier():
    return os.environ.get('VERIF_TIER', 'quick')


def check(scn, argv):
    """run the search for one property"""
    global PSIM
    t0 = time.time()
    prop = scn.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    thorough = tier() == 'thorough'
    PSIM = tool('psim', 'psim.c', ('-O2', '-Wall'))
    try:
        subprocess.run(['true'])
        scn.bins = {k: build(k) for k in scn.kinds}
        t_build = time.time() - t0
        scn.base = scratch_base()
        scn.pre()
        pool = make_pool(scn)
        try:
            return _search(scn, prop, seed, thorough, pool, t0, t_build)
        finally:
            pool.terminate()
            pool.join()
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        return 3


def _search(scn, prop, seed, thorough, pool, t0, t_build):
    calib_cases = list(scn.calibration())
    ncal = 0
    calib_viol = []
    if calib_cases:
        rs = pool.map(_wrun, [(c, None) for c in calib_cases], 1)
        for c, r in zip(calib_cases, rs):
            if r['error']:
                raise CheckError('calibration run failed: %s\n%s' % (json.dumps(c)[:300], r['error']))
            ncal += 1
            if r['viol']:
                calib_viol.append((c, r))
        scn.calibrated(list(zip(calib_cases, rs)))
        # workers were forked before calibration: restart them with what has been learnt
        pool.terminate()
        pool.join()
        pool2 = make_pool(scn)
    else:
        pool2 = make_pool(scn)
    try:
        return _search2(scn, prop, seed, thorough, pool2, t0, t_build, ncal, calib_viol)
    finally:
        pool2.terminate()
        pool2.join()


def _search2(scn, prop, seed, thorough, pool, t0, t_build, ncal, calib_viol):
    n = scn.runs_thorough if thorough else scn.runs_quick
    cap = (scn.cap_thorough if thorough else scn.cap_quick)
    cases = []
    for i in range(n):
        rng = random.Random('%s:%d:%d' % (prop, seed, i))
        cases.append(scn.gen(rng, i))
    ts = time.time()
    out = []
    errors = []
    vio = list(calib_viol)
    known = known_findings(prop)
    hits = {}
    capped = False
    nvk = 0
    it = pool.imap(_wrun, [(c, None) for c in cases], 1)
    for i in range(n):
        try:
            left = cap - (time.time() - ts)
            r = it.next(timeout=max(0.1, left))
        except mp.TimeoutError:
            capped = True
            break
        out.append((cases[i], r))
        if r['error']:
            errors.append((cases[i], r['error']))
            if len(errors) > 5:
                break
        new = []
        for v in r['viol']:
            k = is_known(known, v)
            if k:
                hits[k['key']] = hits.get(k['key'], 0) + 1
            else:
                new.append(v)
        if new:
            vio.append((cases[i], r))
            nvk += 1
            if nvk >= 12:
                break
    search_s = time.time() - ts
    if capped or nvk >= 12 or len(errors) > 5:
        # drop queued work
        pool.terminate()
        pool.join()
        pool = make_pool(scn)
    # determinism gate: the same seeds again
    gate_n = min(len(out), 40 if thorough else 10)
    gate_bad = []
    step = max(1, len(out) // max(1, gate_n))
    sample = [out[i] for i in range(0, len(out), step)][:gate_n]
    sample = [x for x in sample if not x[1]['error']]
    rs = pool.map(_wrun, [(c, None) for c, _ in sample], 1)
    for (c, r), r2 in zip(sample, rs):
        if r['hash'] != r2['hash']:
            gate_bad.append((c, r['hash'], r2['hash']))
    # a disturbance from outside (memory, disk) does not come back, nondeterminism of the simulation does
    once = scn.gate_once = []
    for x in list(gate_bad):
        if all(y['hash'] == x[2] for y in pool.map(_wrun, [(x[0], None)] * 24, 1)):
            gate_bad.remove(x)
            once.append(x)
            print('NOTE property=%s one run differed from 25 repetitions of it: %s' % (prop, json.dumps(x)[:400]))
    code = 0
    reported = []
    seen = set()
    minruns = 0
    if errors and not vio:
        print('CHECK-ERROR property=%s %d simulated runs could not be carried out; first: %s\n%s' % (prop, len(errors), json.dumps(errors[0][0])[:400], errors[0][1]))
        code = 3
    if gate_bad and not vio:
        print('CHECK-ERROR property=%s not deterministic: %d of %d repeated seeds differ; first: %s' % (prop, len(gate_bad), len(sample), json.dumps(gate_bad[0])[:600]))
        code = 3
    # unknown violations
    gate_err, tried = None, {}
    vio.sort(key=lambda x: sum(len(d) for d in (x[1]['decisions'] or [])))
    for c, r in vio:
        for v in r['viol']:
            if is_known(known, v) or v['key'] in seen or len(reported) >= 3 or tried.get(v['key'], 0) > 4:
                continue
            if time.time() - t0 > 600 and reported:
                break
            tried[v['key']] = tried.get(v['key'], 0) + 1
            rep, err, mr = _report(scn, prop, seed, pool, c, r, v)
            minruns += mr
            if err:
                gate_err = gate_err or err
                continue
            seen.add(v['key'])
            reported.append((v, rep))
    if reported:
        code = 1
    elif gate_err:
        print('CHECK-ERROR property=%s a violation did not pass the gates: %s' % (prop, gate_err))
        code = 3
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    evidence(scn, prop, seed, thorough, out, ncal, sample, gate_bad, reported, hits, search_s, t0, t_build, capped, minruns)
    for v, rep in reported:
        print('violated: %s' % v['msg'])
        print('VIOLATION property=%s replay=%s' % (prop, rep))
    if code == 0:
        print('held: property=%s %d simulated runs, %.0f s' % (prop, len(out), time.time() - t0))
    return code


def _report(scn, prop, seed, pool, case, r, v):
    """gate and minimise one violation, write the replay file"""
    key = v['key']
    a = pool.map(_wrun, [(case, None)] * 2, 1)
    for x in a:
        if x['hash'] != r['hash']:
            return None, 'seed does not repeat itself (%s): %s' % (key, json.dumps(case)[:300]), 0
    full = r['decisions']
    b = pool.map(_wmut, [(case, full)], 1)[0]
    if b[2] or key not in b[0]:
        return None, 'recorded schedule does not reproduce %s (%s): %s' % (key, b[2], json.dumps(case)[:300]), 0
    mini, nr = minimise(pool, case, full, key)
    b = pool.map(_wmut, [(case, mini)] * 2, 1)
    if b[0][1] != b[1][1] or key not in b[0][0]:
        return None, 'minimised schedule does not reproduce %s' % key, nr
    vv = [x for x in b[0][3] if x['key'] == key][0]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    name = '%s-%s.json' % (prop, hashlib.sha256((key + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:12])
    path = os.path.join(VERIF, 'replays', name)
    json.dump(dict(property=prop, seed=seed, case=case, violation=vv, decisions=mini, hash=b[0][1],
                   decisions_recorded=sum(len(d) for d in full), decisions_minimal=sum(len(d) for d in mini),
                   tree=tree_hash()), open(path, 'w'), indent=1)
    # fresh process
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path], capture_output=True, text=True)
    if p.returncode != 1 or ('hash=%s' % b[0][1]) not in p.stdout:
        return None, 'replay in a fresh process differs for %s: rc %d %s %s' % (key, p.returncode, p.stdout[-600:], p.stderr[-600:]), nr
    print('found %s; schedule/fault trace minimised from %d to %d decisions in %d runs' % (
        key, sum(len(d) for d in full), sum(len(d) for d in mini), nr))
    return path, None, nr


def replay(scn, path):
    global PSIM, _wid
    d = json.load(open(path))
    PSIM = tool('psim', 'psim.c', ('-O2', '-Wall'))
    scn.bins = {k: build(k) for k in scn.kinds}
    scn.base = scratch_base()
    scn.pre()
    cpus = sorted(os.sched_getaffinity(0))
    os.sched_setaffinity(0, {cpus[0]})
    _wid = 0
    cc = [c for c in scn.calibration() if scn.needs_calibration(c, d['case'])]
    res = []
    for c in cc:
        o = run_case(scn, c)
        if o.error:
            print('CHECK-ERROR calibration: %s' % o.error)
            return 3
        res.append((c, _slim(o)))
    scn.calibrated(res)
    keep = os.environ.get('VERIF_KEEP')
    o = run_case(scn, d['case'], d['decisions'], keep=keep)
    if o.error:
        print('CHECK-ERROR %s' % o.error)
        return 3
    print('replayed: hash=%s expected=%s' % (o.hash, d['hash']))
    for v in o.viol:
        print('violated: [%s] %s' % (v['key'], v['msg']))
    if d['violation']['key'] in [v['key'] for v in o.viol]:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('not reproduced')
    return 0


def evidence(scn, prop, seed, thorough, out, ncal, sample, gate_bad, reported, hits, search_s, t0, t_build, capped, minruns):
    fired, planned, ends, probes = {}, {}, {}, {}
    scheds, states, hashes = set(), set(), set()
    vt = ev = sw = acc = fsw = 0
    nontriv = set()
    for c, r in out:
        if r['error']:
            continue
        for x in r['results']:
            for k, v in x['fired'].items():
                fired[k] = fired.get(k, 0) + v
            ends[x['end']] = ends.get(x['end'], 0) + 1
            vt += x['vtime_ns']
            ev += x['events']
            sw += x['switches']
            for f in x.get('fiber', {}).values():
                acc += f.get('accesses', 0)
                fsw += f.get('switches', 0)
        for p in scn.planned(c):
            planned[p] = planned.get(p, 0) + 1
        for p in scn.probes(c, r):
            probes[p] = probes.get(p, 0) + 1
        sc = '|'.join(x['sched'] for x in r['results'])
        scheds.add(sc)
        states.add(r['state'])
        hashes.add(r['hash'])
        if any(x['switches'] > len(x['exits']) or x['fired'] or any(f.get('switches', 0) for f in x.get('fiber', {}).values()) for x in r['results']):
            nontriv.add(r['hash'])
    samples = []
    for c, r in out[:3]:
        samples.append(dict(case=c, exits=[x['exits'] for x in r['results']], events=[x['events'] for x in r['results']],
                            switches=[x['switches'] for x in r['results']], fired=[x['fired'] for x in r['results']], hash=r['hash']))
    hrs = max(search_s, 1e-9) / 3600
    cov = dict(
        evaluations=len(out), distinct_nontrivial=len(nontriv),
        rule=scn.rule + ' A run is non-trivial when at least one process/thread switch beyond start-up happened or at least one fault fired; distinct means a different hash over the complete event stream, thread schedule and final state.',
        samples=samples,
        simulated_runs=len(out), runs_per_hour=round(len(out) / hrs), seeds_per_hour=round(len(out) / hrs),
        calibration_runs=ncal, simulated_seconds=round(vt / 1e9, 3), system_call_events=ev, process_switches=sw,
        instrumented_accesses=acc, thread_switches=fsw,
        fault_kinds_planned=planned, fault_kinds_fired=fired,
        distinct_interleavings=len(scheds), distinct_final_states=len(states),
        interleaving_measure='hash over the sequence of (process, switch) and (thread, access count) scheduling decisions',
        run_endings=ends, reach_probes=probes,
        determinism_gate=dict(seeds_repeated=len(sample), mismatches=len(gate_bad), differed_once=len(scn.gate_once)),
        minimisation_runs=minruns, known_finding_hits=hits, time_capped=capped,
        components_real=scn.real, components_stub=scn.stub)
    d = dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level='exploration', coverage=cov,
             assumptions=scn.assumptions, wall_s=round(time.time() - t0, 1), violations=len(reported))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp')
    json.dump(d, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))


# ----------------------------------------------------------------------------- scenario base
class Scenario:
    prop = None
    technique = 'seeded schedules and faults over real processes'
    level_note = 'Samples schedules and fault placements with a seeded PRNG; a clean batch is evidence within the stated bounds, not proof.'
    kinds = ('plain',)
    runs_quick, runs_thorough = 400, 6000
    cap_quick, cap_thorough = 240, 3000
    rule = ''
    real = []
    stub = []
    assumptions = []
    bins = {}
    base = None

    def pre(self):
        pass

    def calibration(self):
        return []

    def needs_calibration(self, calcase, case):
        return True

    def calibrated(self, pairs):
        pass

    def gen(self, rng, i):
        raise NotImplementedError

    def run_start(self):
        pass

    def setup(self, W, case):
        pass

    def phases(self, W, case, results):
        raise NotImplementedError

    def judge(self, W, case, results):
        return []

    def planned(self, case):
        return [f[0] for ph in case.get('ph', []) for f in ph.get('faults', [])] + [f[0] for f in case.get('faults', [])]

    def probes(self, case, r):
        return []


def swarm_sched(rng):
    """per-run variation of the process scheduler: (meta, io, fork) preemption rates per 10000"""
    m = rng.choice([0, 30, 100, 300, 1000, 3000])
    i = rng.choice([0, 0, 20, 100, 500])
    f = rng.choice([0, 1000, 5000])
    h = rng.choice([0, 200, 1000, 3000, 6000])
    if m == 0 and i == 0 and h == 0:
        h = 1000
    return [m, i, f, h]
