#!/usr/bin/env python3
"""addfixed.py PROPERTY COMMIT TEXT...: records a repaired defect."""
import json, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(f))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} ' + ' '.join(sys.argv[3:]))
json.dump(d, open(f, 'w'), indent = 1)
