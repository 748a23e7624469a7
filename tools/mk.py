#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/table.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from table import PROPS, NA

TECH = ('contract-based deductive verification: pre/postconditions and callee contracts executed on the real source by '
        'a symbolic verifier (loops over unbounded lists summarised for a generic element, obligations discharged by z3 on '
        'every run); the same contracts run concretely on the real code to replay counterexamples')
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
na = dict(NA)
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest',
       'checks': [{'property': p['id'], 'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'],
                   'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
                   'technique': p.get('technique', TECH), 'level': p.get('level', 'proof'),
                   'level_note': p['note']} for p in PROPS if p['id'] not in na],
       'not_applicable': [{'property': k, 'reason': v} for k, v in NA]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
