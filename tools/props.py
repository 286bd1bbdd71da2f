"""The list of properties: writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
MON = 'runtime monitoring: '


def P(id, title, statement, over, text, why, files, mech, technique, note, level='exploration', state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=['metaknowledge/' + f for f in files],
                      mech=mech, technique=MON + technique, note=note, level=level, state=state, observe=observe))


exec(open(os.path.join(V, 'tools', 'props_list.py'), encoding='utf-8').read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': 'metaknowledge/' + w} for n, w in p['mech']]}}
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            d['anchors']['hook_needed'] = None
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    checks = []
    for p in PROPS:
        if not os.path.exists(os.path.join(V, 'mkmon', 'checks', p['id'].lower() + '.py')):
            print('no check for', p['id'])
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py {} --tier quick'.format(p['id']),
                       'thorough_cmd': 'python3 check.py {} --tier thorough'.format(p['id']),
                       'evidence_file': 'evidence/{}.json'.format(p['id']), 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': [],
         'notes': 'Every check copies the package out of /repo, imports the copy in 8 forked workers and lets its monitors judge generated workloads. '
                  'No hooks in /repo are needed. known_findings.txt lists the genuine defects that were recorded or fixed.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
    print(len(PROPS), 'properties,', len(checks), 'checks')


main()
