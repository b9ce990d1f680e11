#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
import props
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks = []
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    checks.append(dict(property=pid, quick_cmd='python3 tools/run.py %s quick' % pid,
                       thorough_cmd='python3 tools/run.py %s thorough' % pid,
                       technique=c['technique'], level=c['level'], level_note=c['note'],
                       evidence_file='evidence/%s.json' % pid))
na = []
for d in props.P:
    if d['id'] not in CHECKS:
        na.append(dict(property=d['id'], reason=NA.get(d['id'], 'check not built yet')))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='Checks build from /repo into /verif/_build; see DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
