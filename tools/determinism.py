"""determinism.py n: n cases of every check, in two orders, with different worker counts; compare hashes"""
import sys,random,os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib')); sys.dont_write_bytecode=True
import engine, registry
n=int(sys.argv[1]); tot=bad=0
for prop in sorted(registry.SCENARIOS):
    scn=registry.SCENARIOS[prop](); engine.PSIM=engine.tool('psim','psim.c',('-O2','-Wall'))
    scn.bins={k:engine.build(k) for k in scn.kinds}; scn.base=engine.scratch_base(); scn.pre()
    pool=engine.make_pool(scn); cc=scn.calibration(); rs=pool.map(engine._wrun,[(c,None) for c in cc],1); pool.terminate()
    scn.calibrated(list(zip(cc,rs)))
    cases=[scn.gen(random.Random('%s:%d:%d'%(prop,77,i)),i) for i in range(n)]
    H=[]
    for cpus,rev in ((8,0),(3,1)):
        os.sched_setaffinity(0,set(range(cpus))); pool=engine.make_pool(scn)
        c=cases[::-1] if rev else cases
        r=[o['hash'] for o in pool.imap(engine._wrun,[(x,None) for x in c],1)]; pool.terminate()
        H.append(r[::-1] if rev else r)
    os.sched_setaffinity(0,set(range(8)))
    d=[i for i in range(n) if H[0][i]!=H[1][i]]; tot+=n; bad+=len(d); print(prop,n,'differ:',d,'distinct',len(set(H[0])),flush=True)
print(tot,bad)
