#!/usr/bin/env python3
"""Fill the tables of DESIGN.md (properties, findings) from props/, known_findings.json and the last evidence."""
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.executable != '/opt/venv/bin/python':
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
from props import meta, registry  # noqa: E402


def fill(text, name, body):
    a, b = '<!-- %s -->' % name, '<!-- end %s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n' + body + '\n' + text[j:]


rows = []
for k in sorted(meta.META):
    if k in meta.NA:
        continue
    s = registry.PROPERTIES[k]
    m = meta.META[k]
    h = sorted({c['harness'] for c in s['configs']})
    q = sum('quick' in c['tiers'] for c in s['configs'])
    t = sum('thorough' in c['tiers'] for c in s['configs'])
    p = os.path.join(HERE, 'evidence', k + '.json')
    cost = ''
    if os.path.exists(p):
        e = json.load(open(p))
        c = e['coverage']
        if e['tier'] == 'quick':
            cost = '%d paths, %d obligations, %d queries, %.0f s' % (c['states'], c['obligations'], c['queries'], e['wall_s'])
    rows.append('### %s %s\n\n' % (k, m['title']) +
                '* decided by: harnesses %s (%d configurations quick, %d thorough) over %s\n' % (
                    ', '.join('`%s`' % x for x in h), q, t, ', '.join('`%s`' % w['where'].split('/')[-1]
                                                                      for w in m['anchors']['mechanism'])) +
                '* bounds: %s\n' % s['bounds'] + '* tests cannot: %s\n' % m['why_tests_cant'] +
                ('* further assumptions: %s\n' % '; '.join(s['assumptions'][3:]) if s['assumptions'][3:] else '') +
                ('* quick tier: %s\n' % cost if cost else ''))
f = os.path.join(HERE, 'DESIGN.md')
s = open(f).read()
s = fill(s, 'properties', '\n'.join(rows))
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
s = fill(s, 'known', '\n'.join('* %s: %s.' % (x['property'], x['what']) for x in kf if x['status'] == 'open'))
s = fill(s, 'fixed', '\n'.join('* fixed: property=%s %s %s' % (x['property'], x['commit'], x['what']) for x in kf
                               if x['status'] == 'fixed'))
open(f, 'w').write(s)
