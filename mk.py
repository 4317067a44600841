#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py."""
import json, os, spec
V = spec.V
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in spec.PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['over_text']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None}}
        if p['state']: d['anchors']['state'] = p['state']
        f.write(json.dumps(d) + '\n')
TECH = 'symbolic execution of the LLVM IR of the real code, SMT (z3) over all values within bounds'
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': f"python3 check.py {p['id']} quick", 'thorough_cmd': f"python3 check.py {p['id']} thorough", 'evidence_file': f"evidence/{p['id']}.json",
                 'technique': TECH, 'level': 'model_checking', 'level_note': 'Bounded: ' + p['bounds'] + '. Outside: ' + p['outside'] + '.'} for p in spec.PROPS],
     'not_applicable': [], 'notes': 'See DESIGN.md. Harnesses in harness/, engine in symx/, properties and bounds in spec.py.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(f'{V}/properties.jsonl'): jsonschema.validate(json.loads(l), s)
for p in spec.PROPS:
    n = p['statement'].count('. ') + 1
    assert n <= 3, (p['id'], n)
print(len(spec.PROPS), 'properties')
