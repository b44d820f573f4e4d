#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdata.py (kept in one place so that they agree)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
from propdata import DATA, NOT_APPLICABLE, NOTES
from props import PROPS
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in DATA:
        p = {k: d[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks = []
for d in DATA:
    if d['id'] in PROPS:
        checks.append({'property': d['id'], 'quick_cmd': 'python3 bin/check.py %s --tier quick' % d['id'],
                       'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % d['id'],
                       'technique': d['technique'], 'level': 'exploration', 'level_note': d['note']})
na = [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()]
for d in DATA:
    assert d['id'] in PROPS or d['id'] in NOT_APPLICABLE, d['id']
json.dump({'version': 1, 'setup_cmd': 'python3 bin/check.py --build', 'checks': checks, 'not_applicable': na, 'notes': NOTES},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(DATA), 'properties', len(checks), 'checks')
from designdata import DESIGN
def rd(n): return open(os.path.join(HERE, 'doc', n)).read()
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write(rd('head.md') + '## Properties\n\n')
    for d in DATA:
        f.write('### %s %s\n\n%s\n\n' % (d['id'], d['title'], d['statement']))
        f.write('*For:* %s.  *Why tests cannot settle it:* %s\n\n' % (d['quantifier']['text'].rstrip('.'), d['why_tests_cant']))
        f.write('*Code:* ' + '; '.join('%s (%s)' % (m['name'], m['where']) for m in d['anchors']['mechanism']) + '\n\n')
        if d['id'] in NOT_APPLICABLE: f.write('Not applicable: %s\n\n' % NOT_APPLICABLE[d['id']]); continue
        assert d['id'] in DESIGN, d['id']
        f.write('*Technique:* %s.  %s\n\n' % (d['technique'], DESIGN[d['id']]))
        p = PROPS[d['id']]
        f.write('*Run:* ' + '; '.join('`%s` (%s)%s %s quick / %s thorough cases' % (r['harness'], r['flavour'], ' ' + ' '.join([r.get('mode', '')] + r.get('args', [])).strip() if r.get('mode') or r.get('args') else '', *r['count']) for r in p['runs']) + '.  ')
        f.write('*At least observed in a quick run:* ' + ', '.join('%s %d' % (a.replace('_', ' '), b) for a, b in p['need'].items()) + '.\n\n')
    f.write(rd('tail.md') + rd('bugs.md'))
