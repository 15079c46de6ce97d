#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/config.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
from config import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks = []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        continue
    checks.append(dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                       technique=c.get('technique', 'TLA+ specification checked with TLC; recorded and specification-generated executions of the real code validated against it by TLC'),
                       level='model_checking', level_note=c.get('note', 'Exhaustive on the specification within small constants; every recorded execution of the code (seeded inputs and behaviours generated from the specification) must be a behaviour of the specification. Trusts TLC, the drivers\' recording and the compiler.')))
na = [dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'check not built yet')) for p in props if p['id'] not in CHECKS]
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: drivers in /verif/drivers use the public interface. TLA+ with TLC; see DESIGN.md.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
