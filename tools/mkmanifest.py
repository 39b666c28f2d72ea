#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties in properties.jsonl that have a driver in harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('TLC enumerates the specification at small constants and checks its invariants; executions of the real code, chosen from behaviours the '
        'specification generates and from seeded random inputs, are validated event by event against the same specification (result and projected state). '
        'Holds for what was explored; trusts TLC, the projection in harness/{}.py, and the libraries resqpy uses (h5py, lxml, numpy).')
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': f'VERIF_TIER=quick ./check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.py {i}',
                       'technique': 'TLA+ specification checked by TLC; trace validation of the real code against it',
                       'level': 'model_checking', 'level_note': NOTE.format(i.lower())})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the public interface of the library exposes the abstract state. check.py ID --replay FILE re-executes a reported case.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent = 1)
print(len(checks), 'checks', len(na), 'not built')
