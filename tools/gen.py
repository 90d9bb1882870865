#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks/*.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P, HOOKS, NOTES
props, checks, na = [], [], []
os.makedirs(os.path.join(root, 'checks'), exist_ok=True)
for p in P:
    assert len(p['title']) <= 80, p['id']
    props.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}})
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    hs = p['harnesses']
    with open(os.path.join(root, 'checks', p['id'] + '.json'), 'w') as f:
        json.dump({'id': p['id'], 'title': p['title'], 'harnesses': hs, 'assumptions': p.get('assume', [])}, f, indent=1)
        f.write('\n')
    checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
        'technique': 'symbolic execution of Go SSA + SMT (z3)', 'level': 'other',
        'level_note': p.get('note') or 'Bounded: every feasible path of the real functions within the bounds is decided by the solver. Bounds: ' + '; '.join(h['func'] + ': ' + h['bounds'] for h in hs)})
ids = {p['id'] for p in P}
for f in os.listdir(os.path.join(root, 'checks')):
    if f[:-5] not in {c['property'] for c in checks}:
        os.remove(os.path.join(root, 'checks', f))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
if HOOKS:
    m['hooks'] = HOOKS
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props: jsonschema.validate(p, ps)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schema ok', len(checks), 'claimed', len(na), 'not applicable')
except ImportError:
    print('no jsonschema')
# DESIGN.md
caught = {}
cf = os.path.join(here, 'caught.json')
if os.path.exists(cf):
    caught = json.load(open(cf))
d = open(os.path.join(here, 'design_head.md')).read() + '\n## 2. Properties\n'
for p in P:
    d += '\n### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if 'na' in p:
        d += 'Not applicable: %s\n' % p['na']
        continue
    d += 'Quantified over: %s. Tests cannot settle it: %s.\n\n' % (p['q'], p['why'])
    d += 'Code: ' + ', '.join('`%s` (%s)' % (w, n) for n, w in p['mech']) + '.\n\n'
    for h in p['harnesses']:
        d += '* `%s` (`%s`): symbolic execution within: %s. Time limit %d s quick, %d s thorough.\n' % (h['func'], h['files'][-1], h['bounds'], h['quick_s'], h['thorough_s'])
    if p.get('assume'):
        d += '\nAssumed: ' + ' '.join(a if a.endswith('.') else a + '.' for a in p['assume']) + '\n'
d += open(os.path.join(here, 'design_tail.md')).read()
d += '\n## 4. Planted bugs\n\n| id | property | needs | breaks | result |\n|---|---|---|---|---|\n'
sd = os.path.join(root, 'seeded')
for s in sorted(os.listdir(sd)):
    mj = json.load(open(os.path.join(sd, s, 'meta.json')))
    d += '| %s | %s | %s | %s | %s |\n' % (s, mj['property'], mj['needs'], mj['what_it_breaks'], caught.get(s, '?'))
open(os.path.join(root, 'DESIGN.md'), 'w').write(d)
