"""C05: arrays in hdf5 files."""
import vlib, os, random, math
import numpy as np, h5py
from rqutil import *
import resqpy.olio.write_hdf5 as rwh5

FLOATS = ('float32', 'float64')
INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16')
TYPES = FLOATS + INTS + ('bool',)
TAILS = ['a', 'b', 'g/c', 'long name']
CHUNKS = ['', 'auto', 'all', 'slice', 'none']
COMPS = ['', 'gzip', 'lzf', 'none']


def dec1(t, x):
    if t in FLOATS:
        if x == 999999:
            return float('nan')
        if x >= 810000:
            return float(np.float32(x - 810000 + 0.1))
        if x >= 800000:
            return x - 800000 + 0.1
        return x / 4
    if t == 'int64' and x >= 1000000000:
        return 2**40 + x - 1000000000
    return bool(x) if t == 'bool' else x


def enc1(t, x):
    if t in FLOATS:
        x = float(x)
        if math.isnan(x):
            return 999999
        if x * 4 == round(x * 4):
            return int(round(x * 4))
        k = math.floor(x)
        if x == k + 0.1:
            return 800000 + k
        if x == float(np.float32(k + 0.1)):
            return 810000 + k
        return 888888
    x = int(x)
    if x >= 2**40:
        return 1000000000 + x - 2**40
    return x if abs(x) < 2**31 else -777777


def arr(t, shape, v):
    return np.array([dec1(t, x) for x in v], dtype = t).reshape(shape)


def enc(a):
    a = np.asarray(a)
    return [enc1(str(a.dtype), x) for x in a.flatten().tolist()]


def vals(r, t, n, safe = None):
    """Values of type t that are also good for type safe."""
    big = t == 'int64' and safe in (None, 'int64')
    out = []
    for _ in range(n):
        if t == 'bool':
            out.append(r.randrange(2))
        elif t in FLOATS:
            x = r.randint(0, 100) * (4 if safe in INTS else 1)
            if safe in INTS + ('bool',):
                out.append(x + (r.randint(0, 3) if r.random() < 0.5 else 0))
            elif r.random() < 0.15:
                out.append(999999)
            elif t == 'float64' and r.random() < 0.3:
                out.append(800000 + r.randrange(50))
            else:
                out.append(r.randint(-400, 400))
        elif big and r.random() < 0.2:
            out.append(1000000000 + r.randrange(1000))
        else:
            out.append(r.randint(0, 100) if (t.startswith('u') or (safe or '').startswith('u')) else r.randint(-100, 100))
    return out


def rshape(r):
    nd = r.choice([1, 1, 2, 2, 3, 4])
    sh = [r.choice([1, 2, 2, 3, 4]) for _ in range(nd)]
    if r.random() < 0.4:
        sh[-1] = r.choice([5, 7, 8, 9, 16, 17])
    if r.random() < 0.04:
        sh[0] = 0
    return sh


def rsel(r, sh, slices = True):
    s = []
    for n in sh[:r.randint(0 if slices else 1, len(sh)) if r.random() < 0.3 else len(sh)]:
        if n == 0:
            s.append([0, 0, 1])
        elif not slices or r.random() < 0.4:
            s.append([r.randrange(n)])
        else:
            a = r.randint(0, n)
            s.append([a, r.randint(a, n), r.choice([1, 1, 2, 3])])
    if not slices and any(len(x) != 1 for x in s):
        return []
    return s


class Shadow:
    """What the generator knows, so that it can choose meaningful operations."""

    def __init__(self):
        self.f = {1: {}, 2: {}, 3: {}}


def gen(seed):
    r = random.Random(seed)
    sh = {1: {}, 2: {}, 3: {}}
    steps = []
    cache = {}
    copyish = r.random() < 0.35       # short histories that mostly move arrays between files

    def item():
        t = r.choice(TYPES)
        dt = '' if r.random() < 0.5 else r.choice(TYPES + (('pack',) * 4 if t == 'bool' else ()))
        shape = rshape(r)
        n = int(np.prod(shape))
        int32_possible = (dt == '')
        conv = dt not in ('', t)
        return {'p': [r.randint(1, 2 if copyish else 4), r.choice(TAILS)], 'shape': shape, 't': t, 'dt': dt,
                'v': vals(r, t, n, dt if dt not in ('', 'pack') else ('int32' if t == 'int64' else None)),
                'copy': r.random() < 0.4, 'mut': r.random() < 0.5, 'chunks': r.choice(CHUNKS) if r.random() < 0.5 else '',
                'comp': r.choice(COMPS) if r.random() < 0.5 else '', 'lead': r.random() < 0.2}

    for _ in range(r.randint(4, 11)):
        x = r.random()
        f = r.choice([1, 1, 1, 2, 3])
        have = [(g, p) for g in (1, 2) for p in sh[g]]
        if copyish and x > 0.4 and r.random() < 0.6:
            x = r.uniform(0.86, 0.95)
        if x < 0.33 or not have:
            items = [item() for _ in range(r.choice([1, 1, 2, 3]))]
            i32 = r.choice([None, None, True, False])
            if i32 is False:
                for it in items:
                    if it['t'] == 'int64' and it['dt'] == '':
                        it['v'] = vals(r, 'int64', len(it['v']))
            mode = 'w' if r.random() < 0.15 else 'a'
            e = {'op': 'write', 'f': f if f < 3 else r.choice([1, 2, 3]), 'mode': mode, 'items': items, 'i32': str(i32), 'int32': i32 is not False,
                 'defc': r.choice(CHUNKS) if r.random() < 0.3 else '', 'defz': r.choice(COMPS) if r.random() < 0.3 else '', 'glob': r.random() < 0.3,
                 'rel': r.random() < 0.6, 'by': r.choice(['path', 'handle', 'none'])}
            if e['by'] == 'none' and e['f'] != 1 or (e['f'] == 3):
                e['by'] = 'path'
            steps.append(e)
            if mode == 'w':
                sh[e['f']] = {}
            for it in items:
                p = tuple(it['p'])
                if p in sh[e['f']]:
                    break
                s2 = list(it['shape'])
                t2 = it['dt'] or it['t']
                if t2 == 'pack':
                    s2[-1] = (s2[-1] + 7) // 8
                if t2 == 'int64' and it['dt'] == '' and e['int32']:
                    t2 = 'int32'
                sh[e['f']][p] = (s2, 'uint8' if t2 in ('bool', 'pack') else t2, it['shape'], t2)
            continue
        g, p = r.choice(have)
        s2, t2, orig, ot = sh[g][p]
        if r.random() < 0.04:
            p = (r.randint(1, 4), r.choice(TAILS + ['zz']))
        base = {'f': g, 'p': list(p)}
        if x < 0.4:
            steps.append(dict(base, op = 'shape'))
        elif x < 0.5:
            steps.append(dict(base, op = 'slice', sel = rsel(r, s2)))
        elif x < 0.74:
            dt = r.choice(['float', 'int', 'bool', '', 'float32', 'float64', 'int32', 'pack']) if ot != 'pack' else r.choice(['bool', 'pack', 'uint8'])
            if t2 in FLOATS and dt not in ('', 'float', 'float32', 'float64'):
                dt = 'float'
            if t2 == 'int64' and dt != '':
                dt = r.choice(['int', 'int64'])
            if t2 in ('float64',) and dt == 'float32':
                dt = 'float'
            req = []
            y = r.random()
            if ot == 'pack':
                req = orig if y < 0.95 else []
            elif y < 0.2:
                req = list(s2)
            elif y < 0.35:
                req = [int(np.prod(s2))] if len(s2) > 1 else [1, s2[0]]
            elif y < 0.45 and len(s2) > 1:
                req = s2[:-2] + [s2[-2] * s2[-1]]
            elif y < 0.5:
                req = list(s2) + [1]
            elif y < 0.57:
                req = [s2[0] + 100] + s2[1:]
            shape = req or s2
            if x < 0.62 and ot != 'pack':
                steps.append(dict(base, op = 'elem', dt = dt, req = req, sel = rsel(r, shape, False), how = r.choice(['tuple', 'list']), qual = r.choice(['tuple', 'tuple', 'list', 'array'])))
            else:
                at = r.randint(1, 3)
                cs = cache.setdefault(at, shape)
                steps.append(dict(base, op = 'cache', attr = at, dt = dt or 'float', req = req, none = r.random() < 0.3, sel = rsel(r, cs if r.random() < 0.8 else shape, False),
                                  how = 'tuple', qual = r.choice(['tuple', 'tuple', 'list', 'array'])))
        elif x < 0.8:
            t = r.choice([t2, t2] + [y for y in TYPES if y != 'bool'])
            steps.append(dict(base, op = 'overwrite', t = t, v = vals(r, t, int(np.prod(s2)), t2)))
            steps[-1]['sh'] = s2
        elif x < 0.86:
            sel = rsel(r, s2)
            full = [s if len(s) == 3 else [s[0], s[0] + 1, 1] for s in sel] + [[0, n, 1] for n in s2[len(sel):]]
            lens = [len(range(*s)) for s in full]
            n = int(np.prod(lens))
            t = r.choice([t2, t2] + [y for y in TYPES if y != 'bool'])
            steps.append(dict(base, op = 'overwrite_slice', sel = sel, t = t, v = vals(r, t, n, t2), sh = [l for l, s in zip(lens, sel + [[0, 0, 0]] * 9) if len(s) == 3]))
        elif x < 0.9:
            src = r.choice([i for i in (1, 2, 3) if sh[i]])
            dst = r.choice([i for i in (1, 2, 3) if i != src])
            inc, exc = [-1], [-1]
            if r.random() < 0.4:
                inc = [i for i in range(1, 5) if r.random() < 0.5]
            elif r.random() < 0.6:
                exc = [i for i in range(1, 5) if r.random() < 0.4]
            mode = r.choice(['w', 'a', 'a'])
            steps.append({'op': 'copy_h5', 'src': src, 'dst': dst, 'inc': inc, 'exc': exc, 'mode': mode})
            d = {} if mode == 'w' else sh[dst]
            there = {p[0] for p in d}
            for q in sh[src]:
                if (inc == [-1] or q[0] in inc) and (exc == [-1] or q[0] not in exc) and q[0] not in there:
                    d[q] = sh[src][q]
            sh[dst] = d
        elif x < 0.95:
            src = r.choice([i for i in (1, 2, 3) if sh[i]])
            dst = r.choice([i for i in (1, 2, 3) if i != src])
            ps = r.sample(sorted(sh[src]), r.randint(1, min(3, len(sh[src]))))
            mode = r.choice(['w', 'a', 'a'])
            steps.append({'op': 'copy_paths', 'src': src, 'dst': dst, 'ps': [list(q) for q in ps], 'mode': mode, 'chunks': r.choice(['', '', 'auto', 'all', 'slice']),
                          'comp': r.choice(['', '', 'gzip', 'lzf'])})
            d = {} if mode == 'w' else sh[dst]
            for q in ps:
                d.setdefault(q, sh[src][q])
            sh[dst] = d
        elif x < 0.98:
            us = {q[0] for q in sh[g]}
            free = [i for i in range(1, 6) if i not in us]
            old = r.choice(sorted(us))
            if free:
                new = r.choice(free)
                steps.append({'op': 'change_uuid', 'f': g, 'old': old, 'new': new, 'open': r.random() < 0.5})
                sh[g] = {((new, q[1]) if q[0] == old else q): d for q, d in sh[g].items()}
        else:
            steps.append({'op': 'release', 'clear': r.random() < 0.5})
    return steps


class W:

    def __init__(self):
        self.m = m = rq.new_model('m.epc')
        m.create_hdf5_ext(file_name = 'n.h5')
        d = os.path.dirname(os.path.abspath('m.epc'))
        exts = {os.path.basename(m.h5_dict[u.bytes]): u for u in [m.uuid_for_part(p) for p in m.external_parts_list()]}
        self.name = {1: m.h5_file_name(), 2: os.path.join(d, 'n.h5'), 3: os.path.join(d, 'o.h5')}
        self.ext = {1: m.h5_uuid(), 2: exts['n.h5']}
        self.u = {i: bu.new_uuid() for i in range(1, 6)}
        self.by = {str(u): i for i, u in self.u.items()}
        self.obj = type('Obj', (), {})()
        with h5py.File(self.name[2], 'a'):
            pass

    def pair(self, e):
        return (self.ext[e['f']], f"/RESQML/{self.u[e['p'][0]]}/{e['p'][1]}")

    def dump(self):
        out = []
        for f, name in self.name.items():
            if not os.path.exists(name):
                continue
            cur = self.m.h5_currently_open_root
            opened = cur is not None and os.path.samefile(name, self.m.h5_currently_open_path)
            fp = cur if opened else h5py.File(name, 'r')

            def visit(path, d):
                if isinstance(d, h5py.Dataset):
                    a = d[()]
                    parts = path.split('/')
                    out.append({'f': f, 'p': [self.by.get(parts[1], -1) if parts[0] == 'RESQML' else -1, '/'.join(parts[2:])], 'shape': list(d.shape), 'type': str(d.dtype), 'v': enc(a),
                                'chunk': list(d.chunks or ()), 'comp': d.compression or ''})

            fp.visititems(visit)
            if not opened:
                fp.close()
        return out


def index(sel, how = 'tuple'):
    t = tuple(s[0] if len(s) == 1 else slice(*s) for s in sel)
    return list(t) if how == 'list' else t


def shaped(e):
    return None if not e['req'] else {'tuple': tuple, 'list': list, 'array': np.array}[e['qual']](e['req'])


def result(x):
    return {'shape': list(np.shape(x)), 'v': enc(x)}


def step(w, e):
    m, op = w.m, e['op']
    if op == 'write':
        kw = dict(default_chunks = e['defc'] or None, default_compression = e['defz'] or None)
        if e['glob']:
            rwh5.set_global_default_chunks_and_compression(**{k[8:]: v for k, v in kw.items()})
            kw = {}
        try:
            h = rwh5.H5Register(m, **kw)
            arrays = []
            for it in e['items']:
                a = arr(it['t'], it['shape'], it['v'])
                h.register_dataset(w.u[it['p'][0]], '/' + it['p'][1] + '/' if it['lead'] else it['p'][1], a, dtype = it['dt'] or None, copy = it['copy'], chunks = it['chunks'] or None,
                                   compression = it['comp'] or None)
                if it['mut'] and (it['copy'] or it['dt'] not in ('', it['t'])) and a.size:
                    a[...] = arr(it['t'], it['shape'], [0 if x else 1 for x in it['v']])
            if e['mode'] == 'w':
                m.h5_release()
            ref = {'path': w.name[e['f']], 'none': None, 'handle': None}[e['by']]
            if e['by'] == 'handle':
                ref = m.h5_access(w.ext[e['f']], mode = e['mode'])
            h.write(ref, mode = e['mode'], release_after = e['rel'], use_int32 = {'None': None, 'True': True, 'False': False}[e['i32']])
        finally:
            rwh5.set_global_default_chunks_and_compression(None, None)
        return {}
    if op == 'shape':
        s, t = m.h5_array_shape_and_type(w.pair(e))
        return {'shape': list(s), 'type': str(t)}
    if op == 'slice':
        return result(m.h5_array_slice(w.pair(e), index(e['sel'])))
    if op == 'elem':
        return result(m.h5_array_element(w.pair(e), index = index(e['sel'], e['how']), dtype = e['dt'] or None, required_shape = shaped(e)))
    if op == 'cache':
        x = m.h5_array_element(w.pair(e), index = None if e['none'] else index(e['sel']), cache_array = True, object = w.obj, array_attribute = f"at{e['attr']}", dtype = e['dt'],
                               required_shape = shaped(e))
        if e['none']:
            a = getattr(w.obj, f"at{e['attr']}")
            try:
                x = a[index(e['sel'])]
            except IndexError:
                x = []
        return result(x)
    if op == 'overwrite':
        m.h5_overwrite_array(w.pair(e), arr(e['t'], e['sh'], e['v']))
        return {}
    if op == 'overwrite_slice':
        m.h5_overwrite_array_slice(w.pair(e), index(e['sel']), arr(e['t'], e['sh'], e['v']))
        return {}
    if op == 'release':
        if e['clear']:
            m.h5_clear_filename_cache()
            m.h5_dict[w.ext[2].bytes] = w.name[2]
        else:
            m.h5_release()
        return {}
    if op == 'change_uuid':
        m.h5_release()
        rwh5.change_uuid(m.h5_access(w.ext[e['f']], mode = 'a') if e['open'] else w.name[e['f']], w.u[e['old']], w.u[e['new']])
        return {}
    m.h5_release()
    src, dst = w.name[e['src']], w.name[e['dst']]
    if op == 'copy_h5':
        n = rwh5.copy_h5(src, dst, uuid_inclusion_list = None if e['inc'] == [-1] else [w.u[i] for i in e['inc']],
                         uuid_exclusion_list = None if e['exc'] == [-1] else [w.u[i] for i in e['exc']], mode = e['mode'])
    else:
        n = rwh5.copy_h5_path_list(src, dst, [f'/RESQML/{w.u[i]}/{t}' for i, t in e['ps']], mode = e['mode'], chunks = e['chunks'] or None, compression = e['comp'] or None)
    return {'n': n}


def driver(params, tr):
    w = W()
    o = w.dump()
    for e in gen(params['seed']):
        # the generator's idea of what is there may differ after a refused write
        have = {(x['f'], tuple(x['p'])): x for x in o}
        if e['op'] in ('overwrite', 'overwrite_slice'):
            x = have.get((e['f'], tuple(e['p'])))
            if x is None:
                continue
            if e['op'] == 'overwrite':
                e['sh'] = x['shape']
                if int(np.prod(x['shape'])) != len(e['v']) or x['type'] == 'int64' and e['t'] != 'int64':
                    continue
            else:
                try:
                    ok = np.zeros(x['shape'])[index(e['sel'])].shape == tuple(e['sh']) and all(len(y) == 1 or y[1] <= n for y, n in zip(e['sel'], x['shape']))
                except IndexError:
                    ok = False
                if not ok:
                    continue
            if e['t'] in FLOATS and x['type'] not in FLOATS and any(y >= 800000 for y in e['v']) or any(y >= 1000000000 for y in e['v']) and x['type'] != 'int64' or \
               x['type'] not in ('int64', 'int8', 'int16', 'int32', 'float32', 'float64') and any(y < 0 for y in e['v']):
                continue
        elif e['op'] == 'copy_h5' and not any(k[0] == e['src'] for k in have):
            continue
        elif e['op'] == 'copy_paths' and not all((e['src'], tuple(q)) in have for q in e['ps']):
            continue
        elif e['op'] == 'change_uuid':
            us = {k[1][0] for k in have if k[0] == e['f']}
            if e['old'] not in us or e['new'] in us:
                continue
        elif e['op'] in ('elem', 'cache', 'slice'):
            x = have.get((e['f'], tuple(e['p'])))
            if x is not None and x['type'] in FLOATS and e.get('dt') in ('bool', 'pack', 'uint8'):
                continue
            big = x is not None and any(y >= 800000 for y in x['v'])
            if e['op'] != 'slice' and big and x['type'] in FLOATS and e['dt'] not in ('', 'float', 'float64', x['type']) or big and x['type'] == 'int64' and e.get('dt', '') not in ('', 'int', 'int64'):
                continue
        tr['events'].append(e)
        k, x = vlib.call(step, w, e)
        e['res'] = dict({'k': k, 'what': x if k == 'exc' else ''}, **(x if k == 'ok' else {}))
        if e['op'] == 'cache':
            a = getattr(w.obj, f"at{e['attr']}", None)
            e['whole'] = [] if a is None else [list(a.shape), [str(a.dtype)], enc(a)]
        o = w.dump()
        e['obs'] = o
    w.m.h5_release()


PARTS = {'arrays': (driver, 'H5StoreTrace')}


def main(c):
    big = vlib.tier() == 'thorough'
    c.model('MCH5Store', 'MCH5Store_thorough.cfg' if big else 'MCH5Store.cfg')
    n = 24000 if big else 1200
    c.conform('arrays', driver, [{'seed': vlib.seed() * 1000003 + i} for i in range(n)], 'H5StoreTrace')
