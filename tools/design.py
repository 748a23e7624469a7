#!/opt/venv/bin/python
"""Writes the "Properties" part of DESIGN.md from tools/table.py, tools/notes.py and the evidence of the last runs."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from table import PROPS, NA
from notes import NOTES, TAIL
known = json.load(open(os.path.join(HERE, 'known_findings.json')))
seeds = {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    seeds.setdefault(m['property'], []).append(d)
out = []
for p in sorted(PROPS, key=lambda p: p['id']):
    i = p['id']
    c = json.load(open(os.path.join(HERE, 'evidence', i + '.json')))['coverage']
    out.append('### %s %s\n' % (i, p['title']))
    out.append('%s *Quantifier:* %s. *Why not tests:* %s.\n' % (NOTES[i], p['forall'], p['why']))
    out.append('* Proved (%d obligations): %s.' % (c['discharged'], '; '.join(c['contracts_proved']) or 'nothing'))
    b = c['contracts_bounded_or_undecided']
    if b:
        out.append('* Bounded, never counted as proved: %s.' % '; '.join('%s (%s)' % (k, v.replace('bounded: ', '')) for k, v in b.items()))
    for k in known:
        if k['property'] == i:
            out.append('* %s' % (k['what'][0].upper() + k['what'][1:] if k['status'] == 'fixed' else 'KNOWN FINDING (open): ' + k['what']) + '.')
    if i in seeds:
        out.append('* Planted bugs: %s.' % ', '.join(seeds[i]))
    out.append('')
s = open(os.path.join(HERE, 'DESIGN.md')).read()
s = s[:s.index('## Properties')] + '## Properties\n\n(written by `tools/design.py`)\n\n' + '\n'.join(out) + '\n' + TAIL
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)
