#!/usr/bin/env python3
"""rewrite MANIFEST.json from the registered scenarios and tools/not_applicable.json"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import registry
na = json.load(open(V + '/tools/not_applicable.json'))
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='none', enable='no source hooks: the checks compile a copy of the unchanged working tree and simulate at the system-call boundary (psim) and at the compiler/OpenMP-runtime boundary (fsim)', source_commits=[]),
         checks=[dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s' % p,
                      technique='deterministic simulation with fault injection: ' + c.technique, level='exploration', level_note=c.level_note,
                      evidence_file='evidence/%s.json' % p) for p, c in sorted(registry.SCENARIOS.items())],
         not_applicable=na, notes='See DESIGN.md. Replay a reported violation with: python3 check.py --replay FILE')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
