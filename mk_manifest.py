#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (both are committed; rerun after editing)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
M = 'lib/mpslib/mps.py'; F = 'lib/mpslib/mpsfunctions.py'; H = 'lib/mpslib/Hamiltonians.py'; E = 'lib/mpslib/engines.py'
L = 'lib/Lanczos/LanczosEngine.py'; X = 'lib/mpslib/sexpmv.py'; N = 'lib/ncon/ncon.py'; U = 'lib/utils/utilities.py'; B = 'lib/utils/binaryoperations.py'

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, note=note, technique=technique, state=state))


exec(open(os.path.join(HERE, 'props_table.py')).read())

# properties without a working check yet; filled by props_table.py
NA = globals().get('NOT_APPLICABLE', [])
claimed = [p for p in P if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py'))]
for p in P:
    if p not in claimed and p['id'] not in [n['property'] for n in NA]:
        NA.append({'property': p['id'], 'reason': 'no check has been built for it yet'})

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                         'observe_at': p['observe'], 'hook_needed': None}}
        if p['state']:
            d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
        fh.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt run.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in claimed],
     'not_applicable': NA,
     'notes': 'Hypothesis (CPython) generates and shrinks JSON cases; a PyPy worker executes each against /repo and an explicit '
              'oracle. Replay: python3-vt run.py <ID> --replay <file>. No hooks in /repo are needed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(claimed), 'claimed')
