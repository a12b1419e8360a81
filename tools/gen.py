#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools'); sys.dont_write_bytecode = True
import props
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P: assert len(p['j']['title']) <= 80, p['j']['title']; f.write(json.dumps(p['j']) + '\n')
ch = []; na = []
for p in props.P:
    i = p['j']['id']
    if os.path.exists(f'{V}/checks/{i}.py'):
        ch.append(dict(property=i, quick_cmd=f'./check.py {i}', thorough_cmd=f'./check.py {i} --thorough', evidence_file=f'evidence/{i}.json', technique=p['technique'], level=p['level'], level_note=p['note'] or 'Exhaustive within the stated bounds; bounds, assumptions, functions encoded and queries are in the evidence file.'))
    else: na.append(dict(property=i, reason=getattr(props, 'NA', {}).get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=ch, not_applicable=na, notes='See DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
