"""Writes properties.jsonl and MANIFEST.json from lib/spec.py and the checks present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from spec import P
with open(V + '/properties.jsonl', 'w') as f:
    for p in P.values():
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['tests'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in P.values():
    i = p['id']
    if os.path.exists(f'{V}/checks/{i}.py'):
        checks.append({'property': i, 'quick_cmd': f'python3-vt run.py {i} quick', 'thorough_cmd': f'python3-vt run.py {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': p['technique'], 'level': 'exploration',
                       'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': 'python3-vt setup.py',
     'hooks': {'guard': 'VERIF_HOOKS', 'enable': 'no hooks were needed: the guard is not used anywhere in the sources; the checks compile the sources '
               'of the working tree as they are, with sanitizers and the existing VS_FRAME_GUARD option', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'The commits in /repo are all repairs of genuine defects (fix:), listed in known-findings.txt and DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
