"""Shared machinery: running TLC, executing drivers on the real code, validating traces, evidence, verdicts."""

import os, sys, re, json, time, random, shutil, signal, subprocess, tempfile, traceback, copy
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
OUT = os.environ.get('VERIF_OUT_DIR') or os.path.join(VERIF, 'out')
EVID = os.environ.get('VERIF_OUT_DIR') or os.path.join(VERIF, 'evidence')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


class MachineryError(Exception):
    pass


class Timeout(Exception):
    pass


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def tier():
    return 'thorough' if os.environ.get('VERIF_TIER', 'quick') == 'thorough' else 'quick'


# --------------------------------------------------------------------------------------------- TLC


def tlc(module, cfg, env = None, workers = 'auto', timeout = 600, extra = (), heap = '6g'):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; returns (return code, output text)."""
    meta = tempfile.mkdtemp(prefix = 'verif_tlc_')
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update({k: str(x) for k, x in env.items()})
    cmd = [
        'java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-DTLA-Library=' + SPEC, '-cp', JAVA_CP, 'tlc2.TLC',
        '-metadir', meta, '-workers',
        str(workers), '-noGenerateSpecTE', '-config',
        os.path.join(SPEC, cfg)
    ] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, stdout = subprocess.PIPE, stderr = subprocess.STDOUT, env = e, cwd = SPEC,
                           timeout = timeout, text = True, errors = 'replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or ''
        if isinstance(o, bytes):
            o = o.decode('utf8', 'replace')
        return -1, o + '\nTLC TIMEOUT'
    finally:
        shutil.rmtree(meta, ignore_errors = True)


def tlc_counts(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m.group(1)), int(m.group(2))
    return 0, 0


def model_check(module, cfg, timeout = 600, workers = 'auto', env = None, coverage = False):
    """Exhaustive check of the specification's own invariants; an error here is an error of the machinery."""
    t0 = time.time()
    rc, out = tlc(module, cfg, timeout = timeout, workers = workers, env = env,
                  extra = ['-deadlock'] + (['-coverage', '9999'] if coverage else []))
    gen, dist = tlc_counts(out)
    if rc != 0:
        raise MachineryError(f'model checking {module} with {cfg} failed (rc {rc}):\n' + out[-4000:])
    # vacuity (only with coverage, which is slow): actions of the specification that were never taken
    dead = []
    for m in re.finditer(r'^<(\w+) line (\d+), col \d+ to line \d+, col \d+ of module (\w+)[^>]*>: (\d+):(\d+)', out, re.M):
        if m.group(1) not in ('Init',) and int(m.group(5)) == 0:
            dead.append(m.group(1))
    r = {'module': module, 'cfg': cfg, 'transitions': gen, 'states': dist, 'wall_s': round(time.time() - t0, 2)}
    if coverage:
        r['actions_never_taken'] = sorted(set(dead))
    return r


def simulate(module, cfg, num, depth, sd, timeout = 300, env = None):
    """Behaviours generated from the specification: each behaviour printed by the spec as a GEN line (a JSON list)."""
    rc, out = tlc(module, cfg, timeout = timeout, workers = 1, env = env,
                  extra = ['-deadlock', '-simulate', f'num={num}', '-depth', str(depth), '-seed', str(sd)])
    # an invariant prints every candidate last step; keep one, chosen at random, per behaviour
    groups = {}
    for line in out.splitlines():
        if line.startswith('"GEN '):
            h = json.loads(json.loads(line)[4:])
            groups.setdefault(json.dumps(h[:-1]), []).append(h)
    rnd = random.Random(sd)
    res = [rnd.choice(g) for g in groups.values()]
    if rc != 0 or not res:
        raise MachineryError(f'simulation of {module} with {cfg} gave no behaviours (rc {rc}):\n' + out[-4000:])
    return res


def _no_null(x):
    if isinstance(x, dict):
        return {k: _no_null(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_no_null(v) for v in x]
    return 'null' if x is None else x


def validate(module, cfg, traces, timeout = 800, workers = 'auto', heap = '8g', left = None):
    """Trace validation.  Returns list parallel to traces: ('done', n) or ('bad', index, [clauses])."""
    if not traces:
        return [], 0, 0
    left = [3] if left is None else left   # how many malformed traces to look for, one by one
    d = tempfile.mkdtemp(prefix = 'verif_trc_')
    try:
        f = os.path.join(d, 'traces.json')
        with open(f, 'w') as fp:
            json.dump(_no_null(traces), fp)
        rc, out = tlc(module, cfg, env = {'VERIF_TRACES': f}, timeout = timeout, workers = workers, heap = heap,
                      extra = ['-deadlock'])
    finally:
        shutil.rmtree(d, ignore_errors = True)
    verdict = [None] * len(traces)
    # PrintT may wrap long values over several lines
    for m in re.finditer(r'<<\s*"VDONE",\s*(\d+),\s*(\d+)\s*>>', out):
        verdict[int(m.group(1)) - 1] = ('done', int(m.group(2)))
    for m in re.finditer(r'<<\s*"VBAD",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.S):
        cl = re.findall(r'"([^"]*)"', m.group(3))
        verdict[int(m.group(1)) - 1] = ('bad', int(m.group(2)), cl)
    gen, dist = tlc_counts(out)
    if any(x is None for x in verdict):
        if 'OutOfMemory' in out or 'TLC TIMEOUT' in out:
            raise MachineryError('trace validation did not finish:\n' + out[-3000:])
        missing = [i for i, x in enumerate(verdict) if x is None]
        if len(traces) == 1:
            # the evaluator could not even compare what was recorded with what the specification allows
            left[0] -= 1
            return [('bad', 0, ['unexplainable: ' + _tlc_error(out)])], gen, dist
        if len(missing) == len(traces) and rc in (150, 151, 152):
            raise MachineryError('trace specification does not parse:\n' + out[-3000:])
        todo = missing
        # isolate: halves, so that one malformed trace costs little
        half = max(1, len(todo) // 2)
        for grp in (todo[:half], todo[half:]):
            if not grp:
                continue
            if left[0] <= 0:
                for i in grp:
                    verdict[i] = ('skipped', 0)
                continue
            vs, g2, d2 = validate(module, cfg, [traces[i] for i in grp], timeout = timeout, workers = workers, left = left)
            gen += g2
            dist += d2
            for i, x in zip(grp, vs):
                verdict[i] = x
    return verdict, gen, dist


def _tlc_error(out):
    m = re.search(r'Error: (.*?)\n\n', out, re.S)
    return re.sub(r'\s+', ' ', (m.group(1) if m else out[-500:]))[:400].replace('"', "'")


# ------------------------------------------------------------------------------- driving the code


def _alarm(signum, frame):
    raise Timeout('time limit for one trace exceeded')


_DRV = None


def _work(item):
    i, params, limit = item
    d = tempfile.mkdtemp(prefix = 'verif_drv_')
    here = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    tr = {'init': {}, 'events': []}
    try:
        os.chdir(d)
        signal.alarm(limit)
        random.seed(12345)
        _DRV(params, tr)
    except BaseException as e:
        tr['events'].append({
            'op': 'crash',
            'res': {
                'k': 'exc',
                'what': type(e).__name__ + ': ' + str(e)[:300],
                'tb': traceback.format_exc()[-1500:]
            }
        })
    finally:
        signal.alarm(0)
        os.chdir(here)
        shutil.rmtree(d, ignore_errors = True)
    return i, tr


def drive(fn, params, limit = 120, procs = None):
    """Runs fn(params, trace) for every element, in worker processes with a scratch directory each."""
    global _DRV
    _DRV = fn
    n = min(procs or NPROC, max(1, len(params)))
    items = [(i, p, limit) for i, p in enumerate(params)]
    res = [None] * len(params)
    if n == 1:
        for it in items:
            i, tr = _work(it)
            res[i] = tr
        return res
    ctx = mp.get_context('fork')
    with ctx.Pool(n, maxtasksperchild = None) as pool:
        cs = max(1, len(items) // (n * 8))
        for i, tr in pool.imap_unordered(_work, items, chunksize = cs):
            res[i] = tr
    return res


def call(fn, *a, **k):
    """Outcome of one call of the code under test: ('ok', value) or ('exc', exception class name)."""
    try:
        return 'ok', fn(*a, **k)
    except Timeout:
        raise
    except Exception as e:
        return 'exc', type(e).__name__


# ------------------------------------------------------------------------------------- the verdict


def known_findings():
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fp:
        return json.load(fp)['findings']


def _leaves(x, path = ()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _leaves(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from _leaves(y, path + (i,))
    else:
        yield path, x


def corrupt(trace, rnd, roots = ('res', 'obs')):
    """A copy of the trace with one recorded (not chosen) value altered, and the index of the event."""
    tr = copy.deepcopy(trace)
    cand = []
    for i, e in enumerate(tr['events']):
        for r in roots:
            if r in e:
                for p, x in _leaves(e[r]):
                    if x is not None and p[-1:] not in (('what',), ('tb',)):
                        cand.append((i, (r,) + p, x))
    if not cand:
        return None
    i, p, x = rnd.choice(cand)
    y = tr['events'][i]
    for k in p[:-1]:
        y = y[k]
    if isinstance(x, bool):
        y[p[-1]] = not x
    elif isinstance(x, int):
        y[p[-1]] = x + 1
    else:
        y[p[-1]] = str(x) + '~'
    return tr, i, p, x


class Check:

    def __init__(self, pid, level = 'model_checking'):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.mc = []
        self.traces = 0
        self.events = 0
        self.tstates = 0
        self.ttrans = 0
        self.samples = []
        self.bad = []
        self.canaries = 0
        self.notes = {}
        self.opcount = {}
        self.assumptions = []

    # -- parts of a check

    def model(self, module, cfg, **k):
        self.mc.append(model_check(module, cfg, **k))

    def conform(self, name, driver, params, module, cfg = None, limit = 120, canaries = 12, procs = None, group = None):
        """Drive the code over params and validate every recorded trace against the specification."""
        cfg = cfg or module + '.cfg'
        if not params:
            raise MachineryError(f'{self.pid}/{name}: nothing to run')
        t1 = time.time()
        trs = drive(driver, params, limit = limit, procs = procs)
        t2 = time.time()
        for tr in trs:
            for e in tr['events']:
                k = name + '.' + str(e.get('op'))
                self.opcount[k] = self.opcount.get(k, 0) + 1
        rnd = random.Random(seed() * 7919 + 13)
        cans = []
        good = [t for t in trs if t['events'] and t['events'][-1].get('op') != 'crash']
        for _ in range(canaries):
            if not good:
                break
            c = corrupt(rnd.choice(good), rnd)
            if c:
                cans.append(c)
        vs, gen, dist = validate(module, cfg, trs + [c[0] for c in cans])
        t3 = time.time()
        self.notes[name] = {
            'traces': len(trs),
            'events': sum(len(t['events']) for t in trs),
            'drive_s': round(t2 - t1, 1),
            'validate_s': round(t3 - t2, 1)
        }
        self.ttrans += gen
        self.tstates += dist
        self.traces += sum(1 for x in vs[:len(trs)] if x[0] == 'done')
        self.events += sum(len(t['events']) for t in trs)
        anybad = any(x[0] == 'bad' for x in vs[:len(trs)])
        accepted = 0
        for (c, i, cp, cx), x in zip(cans, vs[len(trs):]):
            if x[0] != 'bad' and not anybad:
                accepted += 1
                if os.environ.get('VERIF_STRICT') is None:
                    continue
                p = os.path.join(OUT, f'{self.pid}-accepted-corruption.json')
                os.makedirs(OUT, exist_ok = True)
                with open(p, 'w') as fp:
                    json.dump(c, fp)
                raise MachineryError(f'{self.pid}/{name}: a corrupted trace was accepted (event {i}, {cp} was {cx}); see {p}')
            self.canaries += 1
        self.notes[name]['corruptions_rejected'] = f'{len(cans) - accepted} of {len(cans)}'
        if cans and accepted == len(cans):
            raise MachineryError(f'{self.pid}/{name}: no corrupted trace was rejected')
        for p, tr, x in zip(params, trs, vs):
            if x[0] == 'bad':
                self.bad.append({'part': name, 'params': p, 'trace': tr, 'at': x[1], 'clauses': x[2]})
        if trs and len(self.samples) < 6:
            j = rnd.randrange(len(trs))
            s = json.dumps({'part': name, 'params': params[j], 'first_events': trs[j]['events'][:3]})
            self.samples.append(s[:1500])

    # -- the end

    def finish(self):
        kf = [f for f in known_findings() if f.get('property') == self.pid and f.get('status') == 'open']
        new = []
        seen_known = {}
        for b in self.bad:
            hit = None
            for f in kf:
                if _finding_matches(f, b):
                    hit = f
                    break
            if hit is None:
                new.append(b)
            else:
                seen_known.setdefault(hit['id'], (hit, b))
        for f in kf:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}" +
                  ('' if f['id'] in seen_known else ' (not exercised by this run)'))
        os.makedirs(EVID, exist_ok = True)
        cov = {
            'states': sum(m['states'] for m in self.mc) + self.tstates,
            'transitions': sum(m['transitions'] for m in self.mc) + self.ttrans,
            'traces_validated_against_impl': self.traces,
            'trace_events': self.events,
            'model_checking_runs': self.mc,
            'trace_validation_states': self.tstates,
            'corrupted_traces_rejected': self.canaries,
            'parts': self.notes,
            'events_by_kind': self.opcount,
            'samples': self.samples
        }
        ev = {
            'property': self.pid,
            'tier': tier(),
            'seed': seed(),
            'level': self.level,
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new)
        }
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent = 1)
        if new:
            os.makedirs(OUT, exist_ok = True)
            # shortest trace first; report a few
            new.sort(key = lambda b: (b['at'], len(json.dumps(b['params']))))
            for n, b in enumerate(new[:3]):
                p = os.path.join(OUT, f'{self.pid}-{n}.json')
                at = b['at']
                b2 = dict(b)
                b2['property'] = self.pid
                b2['event'] = b['trace']['events'][at - 1] if 1 <= at <= len(b['trace']['events']) else None
                with open(p, 'w') as fp:
                    json.dump(b2, fp, indent = 1)
                print(f"  broken at event {at} of part {b['part']}: clauses {b['clauses']} " +
                      json.dumps(b2['event'])[:600])
                print(f'VIOLATION property={self.pid} replay={p}')
            hist = {}
            for b in new:
                at = b['at']
                op = b['trace']['events'][at - 1].get('op') if 1 <= at <= len(b['trace']['events']) else '?'
                k = (b['part'], op, ','.join(sorted(b['clauses']))[:300])
                hist[k] = hist.get(k, 0) + 1
            for k, n in sorted(hist.items(), key = lambda x: -x[1])[:12]:
                print(f'    {n} x {k}')
            print(f'{self.pid}: {len(new)} trace(s) rejected')
            return 1
        print(f"{self.pid}: held; {self.traces} traces ({self.events} events) validated, "
              f"{cov['states']} states, {round(time.time() - self.t0, 1)} s")
        return 0


def _finding_matches(f, b):
    m = f.get('match', {})
    if 'part' in m and m['part'] != b['part']:
        return False
    if 'clauses' in m and not set(b['clauses']) <= set(m['clauses']):
        return False
    at = b['at']
    ev = b['trace']['events'][at - 1] if 1 <= at <= len(b['trace']['events']) else {}
    for k, x in m.get('event', {}).items():
        if ev.get(k) != x:
            return False
    return True


def replay(mod, b):
    drv, tm = mod.PARTS[b['part']][:2]
    tr = drive(drv, [b['params']], procs = 1)[0]
    vs, _, _ = validate(tm, tm + '.cfg', [tr])
    print(json.dumps(tr['events'][max(0, vs[0][1] - 1):vs[0][1]], indent = 1)[:4000])
    print(vs[0])
    if vs[0][0] == 'bad':
        print(f"VIOLATION property={b['property']} replay=(this file)")
        return 1
    return 0
