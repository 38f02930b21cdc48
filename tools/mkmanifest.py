#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py (claimed checks) and properties.jsonl (all properties)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import props
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        c = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                           technique='Verus contracts on the functions extracted from /repo; failing obligations searched for inputs on the real crates',
                           level='proof', level_note=c.get('note', '')))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks: /repo carries only fix commits. See DESIGN.md for what is proved, assumed and bounded.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
