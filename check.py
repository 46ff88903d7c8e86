#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE  re-execute a recorded violation
   check.py --setup        build simulators and code under test"""
import json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
if os.path.exists('/usr/bin/python3') and os.path.realpath(sys.executable) != os.path.realpath('/usr/bin/python3') and not os.environ.get('VERIF_PY'):
    os.environ['VERIF_PY'] = '1'
    os.execv('/usr/bin/python3', ['/usr/bin/python3'] + sys.argv)
import engine


def scenario(prop):
    import registry
    if prop not in registry.SCENARIOS:
        print('CHECK-ERROR no such property %s' % prop)
        sys.exit(3)
    return registry.SCENARIOS[prop]()


def main():
    os.environ.pop('OMP_NUM_THREADS', None)
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == '--setup':
            engine.tool('psim', 'psim.c', ('-O2', '-Wall'))
            for k in ('plain', 'fiber'):
                print(engine.build(k))
            return 0
        if a[0] == '--replay':
            return engine.replay(scenario(json.load(open(a[1]))['property']), a[1])
        return engine.check(scenario(a[0]), a[1:])
    except engine.CheckError as e:
        print('CHECK-ERROR %s' % e)
        return 3
    except Exception:
        print('CHECK-ERROR %s' % traceback.format_exc())
        return 3


if __name__ == '__main__':
    sys.exit(main())
