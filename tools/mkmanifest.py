#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
T = ('TLA+ specification checked with TLC: traces recorded from the real code are validated step by step against the specification (%s)%s%s')
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PLAN:
        na.append(dict(property=i, reason='check under construction'))
        continue
    pl = PLAN[i]
    mods = sorted({j(k.replace(r'\d', '2'))['module'] if callable(j) else j['module'] for k, j in pl['trace'].items()})
    gen = ', scenarios enumerated by TLC (%s)' % ', '.join(sorted({g['module'] for g in pl['gen']})) if pl.get('gen') else ''
    mc = ', design model checked exhaustively (%s)' % ', '.join(sorted({g['module'] for g in pl['mc']})) if pl.get('mc') else ''
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=T % (', '.join(mods), gen, mc), level='model_checking',
                       level_note=pl.get('note', 'bounded: the recorded scenarios are sampled or enumerated up to the bounds in DESIGN.md; every recorded step is decided by TLC')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
