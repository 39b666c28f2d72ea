#!/usr/bin/env python3
"""mkseed.py: reads a python file defining SEEDS = [dict(id, property, file, old, new, needs, breaks, demo)] and writes seeded/<id>/."""
import sys, os, json, subprocess, tempfile, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok = True)
    w = tempfile.mkdtemp(prefix = 'mkseed_')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check = True)
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'], stdout = subprocess.PIPE, text = True, check = True).stdout
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cd "$d" || exit 3
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH=/repo /opt/venv/bin/python "$here/demo.py"
''')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent = 1)
    print('made', s['id'])
