#!/usr/bin/env python3
"""rewrite DESIGN.md from tools/design/ and the registered scenarios"""
import json, os, re, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import registry
D = V + '/tools/design/'
txt = dict(re.findall(r'### (\w+)\n(.*?)(?=\n### |\Z)', open(D + 'props.md').read(), re.S))
props = {p['id']: p for p in map(json.loads, open(V + '/properties.jsonl'))}
o = []
for i, p in sorted(props.items()):
    if i not in registry.SCENARIOS:
        continue
    c = registry.SCENARIOS[i]
    o.append('### %s %s\n\n%s\n\n%s\n\n- Runs: %d quick, %d thorough.\n- Real: %s.\n- Stub: %s.\n- Assumptions: %s.\n' % (
        i, p['title'], c.rule, txt[i].strip(), c.runs_quick, c.runs_thorough, '; '.join(c.real), '; '.join(c.stub), '; '.join(c.assumptions) or 'none beyond the method\'s'))
na = json.load(open(V + '/tools/not_applicable.json'))
fixed = json.load(open(V + '/known_findings.json'))
kf = ['- ' + f[7:] for f in fixed['fixed']] + ['- KNOWN, not repaired: property=%s %s (%s)' % (f['property'], f['what'], f.get('why', '')) for f in fixed['findings']]
res = json.load(open(D + 'seeded.json')) if os.path.exists(D + 'seeded.json') else {}
sd = ['| bug | property | needs | caught |', '|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    sd.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), res.get(s, 'not yet run')))
t = open(D + 'DESIGN.in').read()
for k, x in dict(PROPS='\n'.join(o), NA='\n'.join('- **%s** %s: %s' % (n['property'], props[n['property']]['title'], n['reason']) for n in na) or '- none', FIXED='\n'.join(kf),
                 SEEDED='\n'.join(sd), DET=open(D + 'determinism.md').read(), FALSE=open(D + 'false.md').read() if os.path.exists(D + 'false.md') else '').items():
    t = t.replace('@@%s@@' % k, x.rstrip())
open(V + '/DESIGN.md', 'w').write(t)
