"""Writes DESIGN.md from its two texts, the property list, the check modules and tools/caught.txt."""
import importlib
import json
import os
import sys
import types
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + '/properties.jsonl', encoding='utf-8')]
man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
out = [open(V + '/tools/design_head.md', encoding='utf-8').read().rstrip(), '', '## The properties', '']
for p in sorted(props, key=lambda p: p['id']):
    m = importlib.import_module('mkmon.checks.' + p['id'].lower())
    c = man[p['id']]
    out += ['### {} {}'.format(p['id'], p['title']), '', p['statement'], '',
            '* *Decided by*: {}. {}'.format(c['technique'], c['level_note']),
            '* *Workload and oracle*: ' + m.RULE,
            '* *Bounds*: {} cases quick, {} thorough. {}'.format(m.QUICK_N, m.THOROUGH_N, ' '.join(m.ASSUMPTIONS)),
            '* *Must have been seen*: ' + ', '.join(m.REQUIRED) + '.',
            '* *Beyond the tests*: ' + p['why_tests_cant'], '']
out += [open(V + '/tools/design_tail.md', encoding='utf-8').read().rstrip(), '', '## Planted bugs and the checks that catch them', '']
caught = {}
if os.path.exists(V + '/tools/caught.txt'):
    for l in open(V + '/tools/caught.txt', encoding='utf-8'):
        a = l.split(' ', 2)
        if len(a) == 3 and a[0] in ('CAUGHT', 'MISSED'):
            caught[a[1]] = (a[0].lower(), a[2].strip())
out += ['| bug | property | needs | result |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('{}/seeded/{}/meta.json'.format(V, i)))
    out.append('| {} | {} | {} | {} |'.format(i, m['property'], m['needs'].replace('|', '/'), caught.get(i, ('not run',))[0]))
open(V + '/DESIGN.md', 'w', encoding='utf-8').write('\n'.join(out) + '\n')
print(len(out), 'lines')
