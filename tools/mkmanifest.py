#!/usr/bin/env python3
"""MANIFEST.json from bin/config.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/bin')
import config
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 bin/check.py {i}', thorough_cmd=f'python3 bin/check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
            technique='deterministic simulation with fault injection (seeded search over ' + c.get('search', 'inputs, histories and faults') + ')', level='exploration', level_note=c.get('note', c['rule'])))
    else: na.append(dict(property=i, reason=config.NA.get(i, 'not claimed yet: its engine is under construction')))
json.dump(dict(version=1, setup_cmd='python3 bin/check.py setup', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
