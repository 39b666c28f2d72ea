#!/usr/bin/env python3
"""seed.py [--no-tests] ID...: tries planted changes in private copies of /repo (bind mounted over /repo in a namespace).

For each: the patch applies, the tree builds, the stable tests pass, the demonstration passes without and fails with it,
and whether the check of its property reports it.  Development aid only; no check uses it."""
import sys, os, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def ns(copy, cmd, env = None, timeout = 1200):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {copy} /repo && cd /repo && {cmd}'], stdout = subprocess.PIPE,
                           stderr = subprocess.STDOUT, text = True, errors = 'replace', env = e, timeout = timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -9, 'TIMEOUT'


def one(sid, tests = True, check = True):
    d = os.path.join(V, 'seeded', sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    base = tempfile.mkdtemp(prefix = 'seed_')
    copy = os.path.join(base, 'repo')
    res = {'id': sid, 'property': meta['property']}
    try:
        subprocess.run(['cp', '-a', '/repo', copy], check = True)
        demo = os.path.join(base, 'demo')
        shutil.copytree(d, demo, ignore = shutil.ignore_patterns('*.diff', 'meta.json'))
        rc, out = ns(copy, f'bash {demo}/demo.sh', timeout = 300)
        res['demo_clean'] = rc
        if rc != 0:
            res['demo_clean_out'] = out[-800:]
        p = subprocess.run(['git', '-C', copy, 'apply', os.path.join(d, 'patch.diff')], stdout = subprocess.PIPE, stderr = subprocess.STDOUT, text = True)
        res['applies'] = p.returncode == 0
        if p.returncode:
            res['apply_out'] = p.stdout
            return res
        rc, out = ns(copy, 'bash /opt/vp/build.sh')
        res['build'] = rc
        rc, out = ns(copy, f'bash {demo}/demo.sh', timeout = 300)
        res['demo_patched'] = rc
        if tests:
            o = os.path.join(base, 'o.json')
            ns(copy, f'bash /opt/vp/test.sh {o}')
            ps = set(json.load(open(o))['passed']) if os.path.exists(o) else set()
            res['broken_tests'] = sorted(STABLE - ps)[:5]
        if check:
            rc, out = ns(copy, f'cd {V} && ./check.py {meta["property"]}', env = {'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'VERIF_OUT_DIR': base + '/ev'})
            res['check_rc'] = rc
            res['caught'] = rc == 1 and f'VIOLATION property={meta["property"]} ' in out
            res['check_out'] = out[-700:] if not res['caught'] else [x for x in out.splitlines() if x.startswith('    ')][:4]
    finally:
        shutil.rmtree(base, ignore_errors = True)
    return res


if __name__ == '__main__':
    a = sys.argv[1:]
    tests = '--no-tests' not in a
    ids = [x for x in a if not x.startswith('--')]
    if not ids:
        ids = sorted(os.listdir(os.path.join(V, 'seeded')))
    with ThreadPoolExecutor(1) as ex:
        for r in ex.map(lambda s: one(s, tests), ids):
            ok = r.get('applies') and r.get('build') == 0 and r['demo_clean'] == 0 and r.get('demo_patched') not in (0, None) and not r.get('broken_tests')
            print(('VALID ' if ok else 'INVALID ') + ('CAUGHT ' if r.get('caught') else 'MISSED ') + json.dumps(r), flush = True)
