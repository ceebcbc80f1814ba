#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py and lib/checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/lib')
from props import P
from checks import CHECKS
with open(HERE + '/properties.jsonl', 'w') as f:
    for k in sorted(P):
        p = P[k]
        assert len(p['title']) <= 80, (k, len(p['title']))
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        f.write(json.dumps(dict(id=k, title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='mkdir -p build evidence replays && python3 -c "import sys; sys.path.insert(0, \'lib\'); import build, checks"',
         checks=[], not_applicable=[],
         notes='run.py builds the code under test from /repo (unity translation units, flatc headers) into /verif/build and runs the explorer of one property; no hooks in /repo are needed.')
for k in sorted(P):
    p = P[k]
    if p['na'] or k not in CHECKS:
        m['not_applicable'].append(dict(property=k, reason=p['na'] or 'its check is not built yet'))
        continue
    m['checks'].append(dict(property=k, quick_cmd='python3 run.py ' + k, thorough_cmd='python3 run.py ' + k + ' --tier thorough',
                            evidence_file='evidence/%s.json' % k, technique=p['technique'], level='model_checking', level_note=p['note']))
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'claimed')
