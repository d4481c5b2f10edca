#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = sorted(props.P, key=lambda x: x['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in ps:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': [p['observe']], 'hook_needed': None}}) + '\n')
na = {n for n, _ in props.NA}
m = {'version': 1, 'setup_cmd': 'python3 vlib/build.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'bin/check ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': p['technique'] or props.TECH, 'level': p['level'], 'level_note': p['note']} for p in ps if p['id'] not in na],
     'not_applicable': [{'property': a, 'reason': b} for a, b in props.NA],
     'notes': 'TLA+ with TLC; the code is built out of tree from /repo with AddressSanitizer and driven through its public API. No hooks in /repo were needed.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')

# DESIGN.md
res = {}
rp = os.path.join(ROOT, 'tools', 'plant_results.json')
if os.path.exists(rp):
    res = json.load(open(rp))
t = []
for p in ps:
    t.append('### %s %s\n' % (p['id'], p['title']))
    if p['id'] in na:
        t.append('Not applicable: %s\n' % dict(props.NA)[p['id']])
        continue
    t.append('*Decided by*: %s. %s\n' % (p['technique'] or props.TECH, p['note'] or ''))
    t.append((props.DESIGN[p['id']].strip()) + '\n')
    t.append('*Beyond the tests*: %s\n' % p['why'])
b = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))) if os.path.isdir(os.path.join(ROOT, 'seeded')) else []:
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    r = res.get(d, {})
    b.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), r.get('result', 'not run')))
doc = open(os.path.join(ROOT, 'tools', 'DESIGN.in.md')).read().replace('@@TABLE@@', '\n'.join(t)).replace('@@BUGS@@', '\n'.join(b))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(doc)
