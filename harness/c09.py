"""C09: the arrays of properties."""
import vlib
from propw import *

DIS = ['code', 'index', 'facies']


def out(a, cont, points = False):
    """Shape, kind of number and values (quarters if continuous) of an array."""
    a = np.asarray(a)
    if cont:
        v = [NONE if np.isnan(x) else int(round(x * 4)) if x * 4 == round(x * 4) else NONE - 5 for x in a.astype(float).flatten().tolist()]
    else:
        v = [int(x) for x in a.flatten().tolist()]
    return {'shape': list(a.shape), 't': 'f' if a.dtype.kind == 'f' else 'i', 'v': v}


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    kinds = [r.choice(list(INDEXABLE) + ['grid'] * 3) for _ in range(r.choice([1, 1, 2]))]
    w = World(r, kinds)
    A, packed, coll, members = {}, set(), {}, {}
    nid = [0]

    def add(e, fn):
        ev.append(e)
        k, x = call(fn)
        e['res'] = {'k': k, 'what': x if k == 'exc' else ''}
        return k == 'ok'

    def fix(a):
        """Keeps to what can be stored and read back without further ado."""
        a['fo'] = 0
        if a['kind'] in ('', 'continuous', 'discrete'):
            a['kind'] = 'porosity' if a['cont'] else 'code'
        a['extra'], a['source'], a['expand'] = [], '', False
        if a['const'] != NONE and a['idx'] == 'faces' and a['ft'] == 'direction':
            a['ft'], a['facet'] = '', ''
        if a['const'] != NONE and r.random() < 0.3:
            a['count'] = 2
        return a

    def args(sup = None):
        nid[0] += 1
        return fix(gen_prop(r, w, nid[0], sup))

    def options(batch):
        o = {}
        if r.random() < 0.25:
            o['chunks'] = r.choice(['auto', 'all', 'slice'])
        if r.random() < 0.25:
            o['compression'] = r.choice(['gzip', 'lzf'])
        x = r.random()
        if x < 0.15 and all(a['cont'] for a in batch):
            o['dtype'] = r.choice([np.float32, np.float64])
        elif x < 0.3 and not any(a['cont'] or a['dtype'] == 'bool' or a['cbool'] for a in batch):
            o['dtype'] = r.choice([np.int16, np.int32, np.int64])
        elif x < 0.6:
            o['use_pack'] = True
        return o

    def new_coll(sup, c):
        o = rqp.PropertyCollection()
        o.set_support(support = w.sup[sup])
        coll[c] = o
        return o

    def finish(c, e, batch, us, o):
        x = bool(o.pop('expand', False))
        g = coll[c]
        if 'dtype' not in o and r.random() < 0.2:
            o['use_int32'] = r.random() < 0.5
        g.write_hdf5_for_imported_list(expand_const_arrays = x, **o)
        vs = g.create_xml_for_imported_list_and_add_parts_to_model(expand_const_arrays = x)
        if [bu.uuid_as_int(z) for z in us] != [bu.uuid_as_int(z) for z in vs]:
            raise ValueError('uuids')
        for a, u in zip(batch, us):
            w.reg(a['id'], u)
            a['expand'] = x
            A[a['id']] = a
            if o.get('use_pack') and a['dtype'] == 'bool' and a['const'] == NONE:
                packed.add(a['id'])
        e['obs'] = [w.meta(g, w.part(a['id'])) for a in batch]

    def make(how = None):
        how = how or r.choice(['single', 'list', 'list', 'inherited', 'family', 'family'])
        if how == 'single':
            a = args()
            o = options([a])
            e = {'op': 'make', 'props': [a], 'how': how, 'c': 0, 'held': False}
            a['expand'] = a['const'] not in (NONE, NONE - 1) and not a['cbool'] and r.random() < 0.4

            def f():
                p = rqp.Property.from_array(w.m, data_of(a), None, a['title'], w.sup[a['sup']].uuid, time_series_uuid = w.ts[a['ts']].uuid if a['ts'] else None,
                                            string_lookup_uuid = w.sl[a['cat']].uuid if a['cat'] else None, expand_const_arrays = a['expand'],
                                            local_property_kind_uuid = w.pk['mine'] if a['kind'] == 'mine' else None, **kw(a, w), **o)
                w.reg(a['id'], p.uuid)
                A[a['id']] = a
                if o.get('use_pack') and a['dtype'] == 'bool' and a['const'] == NONE:
                    packed.add(a['id'])
                e['obs'] = [w.meta(p.collection, p.collection.parts()[0])]
            return add(e, f)
        sup = r.choice(list(w.sup))
        c = len(members) + 1
        batch = []
        if how == 'family':
            while True:
                b = args(sup)
                if b['dtype'] != 'bool' and not b['cbool'] and b['count'] == 1 and not (b['idx'] == 'faces' and b['ft'] == 'direction'):
                    break
            vary = r.choice(['real', 'time', 'facet'])
            b['ft'], b['facet'], b['real'], b['ts'], b['ti'] = '', '', -1, 0, -1
            if b['points'] and vary == 'facet':
                vary = 'real'
            for x in r.sample({'real': [0, 1, 2, 4], 'time': [0, 1, 2, 3], 'facet': [1, 2, 3]}[vary], r.randint(1, 3)):
                nid[0] += 1
                a = dict(b, id = nid[0])
                if vary == 'real':
                    a['real'] = x
                elif vary == 'time':
                    a['ts'], a['ti'] = 1, x
                else:
                    a['ft'], a['facet'], a['fo'] = 'what', {1: 'gas', 2: 'oil', 3: 'water'}[x], x
                if r.random() < 0.1:   # not on its own in its place
                    a['real'] = 0
                if a['const'] == NONE:
                    a['v'] = [r.choice([NONE, r.randint(-40, 40)]) if b['cont'] and not b['points'] else r.randint(-9, 9) for _ in a['v']]
                batch.append(a)
            r.shuffle(batch)
        else:
            batch = [args(sup) for _ in range(r.randint(1, 4))]
            for a in batch:
                if r.random() < 0.1 and not a['points']:
                    a['title'] = r.choice(['ACTIVE', 'inactive'])
                    a['tc'] = [ord(x) for x in a['title']]
        o = options(batch)
        ex = r.random() < 0.25 and all(a['const'] != NONE - 1 and not a['cbool'] for a in batch) and not o.get('dtype')
        if ex:
            o['expand'] = True
        if how == 'inherited':
            xi = r.random() < 0.5
            keep = [a for a in batch if not (xi and a['title'].upper() in ('ACTIVE', 'INACTIVE'))]
        else:
            keep = batch
        e = {'op': 'make', 'props': keep, 'how': how, 'c': c, 'held': True}
        for a in batch:
            a['expand'] = ex

        def f():
            g = new_coll(sup, c)
            if how == 'inherited':
                h = rqp.PropertyCollection()
                h.set_support(support = w.sup[sup])
                us = [add_import(w, h, a) for a in batch]
                us = [u for u, a in zip(us, batch) if a in keep]
                g.inherit_imported_list_from_other_collection(h, exclude_inactive = xi)
                for k, v in h.__dict__.items():   # copies were asked for, so this has no bearing on the others
                    if isinstance(v, np.ndarray) and k.startswith('c_') and v.size:
                        v.flat[0] = 1
            else:
                us = [add_import(w, g, a) for a in batch]
            if not us:
                raise ValueError('nothing to do')
            finish(c, e, keep, us, o)
        if not keep:
            return True
        members[c] = [a['id'] for a in keep]
        return add(e, f)

    def sample():
        c = r.choice(list(coll))
        ids = [i for i in members[c] if A[i]['sk'] in ('grid', 'mesh', 'points') and A[i]['idx'] in ('', 'cells', 'nodes') and A[i]['count'] == 1 and not A[i]['points'] and i not in packed]
        groups = {}
        for i in ids:
            groups.setdefault((A[i]['sup'], A[i]['idx'] or DEFAULT[A[i]['sk']]), []).append(i)
        if not groups:
            return True
        (sup, idx), ids = r.choice(sorted(groups.items()))
        tgt = [n for n in w.sup if (w.skind[n], idx) in [(k, x) for k in ('grid', 'mesh', 'points') for x in ('cells', 'nodes') if not (k == 'points' and x == 'cells')]]
        if not tgt:
            return True
        n = r.choice(tgt)
        sh = shape_of(w.skind[n], w.dims[n], idx, None)
        src = shape_of(w.skind[sup], w.dims[sup], idx, None)
        at = [r.randrange(int(np.prod(src))) for _ in range(int(np.prod(sh)))]
        d = len(members) + 1
        batch = []
        for i in ids:
            nid[0] += 1
            b = dict(A[i], id = nid[0], sup = n, sk = w.skind[n], dims = w.dims[n], idx = idx, expand = False, shape = sh)
            b['from'] = i
            if A[i]['expand']:     # has been written in full: not known to be constant any more
                v = 0 if A[i]['const'] == NONE else A[i]['const']
                b['const'], b['dtype'] = NONE, 'float64' if b['cont'] else 'int64'
                b['v'] = []
            if not b['cont'] and b['const'] == NONE and b['null'] == NONE:
                b['null'] = -1    # the null value that the other one has
            if not b['cont'] and b['const'] != NONE:
                b['null'] = NONE
            batch.append(b)
        e = {'op': 'make', 'props': batch, 'how': 'sample', 'c': d, 'held': True, 'src': c, 'at': at}

        def f():
            part = rqp.PropertyCollection()
            src = coll[c]
            g = new_coll(n, d)
            # only those of one size
            drop = [w.part(i) for i in members[c] if i not in ids]
            saved = dict(src.dict)
            try:
                for p in drop:
                    del src.dict[p]
                g.add_to_imported_list_sampling_other_collection(src, np.array(at, dtype = int))
                order = [w.id_of(p) for p in src.dict]
            finally:
                src.dict = saved
            us = [x[0] for x in g.imported_list]
            by = {b['from']: b for b in batch}
            for b in batch:
                A[b['id']] = b
            batch[:] = [by[i] for i in order]
            finish(d, e, batch, us, {})
        members[d] = [b['id'] for b in batch]
        return add(e, f)

    def slices(sh):
        out = []
        for n in sh[:r.randint(1, len(sh))]:
            x = r.random()
            if x < 0.3:
                out.append([0, n, 1])
            else:
                a = r.randint(0, n - 1)
                out.append([a, r.randint(a + 1, n), r.choice([1, 1, 2])])
        return out

    def shp(a):
        d = a['facet'] if a['ft'] == 'direction' and a['facet'] else None
        return list(shape_of(a['sk'], a['dims'], a['idx'] or DEFAULT[a['sk']], d)) + ([a['count']] if a['count'] > 1 else []) + ([3] if a['points'] else [])

    def newv(a, n):
        return [r.randint(-40, 40) if a['cont'] else (r.randint(0, 1) if a['dtype'] == 'bool' else r.choice([-1, 0, 1, 2, 5, 7])) for _ in range(n)]

    for n, k in enumerate(kinds, 1):
        ev.append({'op': 'support', 'n': n, 'kind': k, 'dims': w.dims[n], 'res': {'k': 'ok'}})
        if k == 'grid' and r.random() < 0.7:
            v = [int(r.random() < 0.7) for _ in range(int(np.prod(w.dims[n])))]
            w.sup[n].inactive = np.logical_not(np.array(v, dtype = bool).reshape(w.dims[n]))
            ev.append({'op': 'active', 'sup': n, 'v': v, 'res': {'k': 'ok'}})
    for _ in range(r.randint(1, 4)):
        if not make():
            return
    for _ in range(r.randint(6, 18)):
        x = r.random()
        if not coll or x < 0.1:
            n = r.choice(list(w.sup))
            ids = [i for i in A if A[i]['sup'] == n]
            if r.random() < 0.5:    # those that go together
                fam = {}
                for i in ids:
                    fam.setdefault((A[i]['title'], A[i]['kind'], A[i]['idx'], A[i]['uom'], A[i]['points']), []).append(i)
                if not fam:
                    continue
                ids = r.choice(sorted(fam.values()))
            ids = [i for i in ids if r.random() < 0.85]
            r.shuffle(ids)
            c = len(members) + 1
            members[c] = ids

            def f():
                new_coll(n, c).add_parts_list_to_dict([w.part(i) for i in ids])
            if not add({'op': 'coll', 'c': c, 'ids': ids}, f):
                return
            continue
        c = r.choice([k for k in coll for _ in range(1 if members[k] else 0)] or [0])
        if c == 0:
            continue
        g = coll[c]
        i = r.choice(members[c])
        a = A[i]
        part = w.part(i)
        dt = {'dtype': bool} if i in packed else {}
        if x < 0.17:
            if not make():
                return
        elif x < 0.4:
            e = {'op': 'ref', 'c': c, 'i': i, 'masked': r.random() < 0.35, 'exn': False, 'via': r.choice(['coll', 'coll', 'single'])}
            if e['masked'] and r.random() < 0.6 and not a['points']:
                e['exn'] = True
            if e['masked'] and a['points']:
                e['masked'] = False

            def f():
                if e['via'] == 'single':
                    z = g.single_array_ref(uuid = w.prop[i], masked = e['masked'], exclude_null = e['exn'], **dt)
                else:
                    z = g.cached_part_array_ref(part, masked = e['masked'], exclude_null = e['exn'], **dt)
                e['obs'] = out(np.ma.getdata(z), a['cont'])
                e['obs']['via'] = e['via']
                e['obs']['mask'] = [bool(y) for y in np.broadcast_to(np.ma.getmaskarray(z), z.shape).flatten()] if e['masked'] else []
                if e['masked'] != isinstance(z, np.ma.MaskedArray):
                    raise ValueError('masked?')
            if not add(e, f):
                return
        elif x < 0.45:
            e = {'op': 'pref', 'i': i}

            def f():
                p = rqp.Property(w.m, uuid = w.prop[i])
                e['obs'] = out(p.array_ref(**dt), a['cont'])
            if a['const'] != NONE and w.skind[a['sup']] == 'x':
                continue
            if not add(e, f):
                return
        elif x < 0.52:
            e = {'op': 'shape', 'c': c, 'i': i}
            if i in packed:
                continue

            def f():
                s, t = g.shape_and_type_of_part(part)
                e['obs'] = {'shape': [int(y) for y in s], 't': 'f' if np.dtype(t).kind == 'f' else 'i'}
            if not add(e, f):
                return
        elif x < 0.66:
            if a['const'] != NONE and not a['expand'] or i in packed:
                continue
            sel = slices(shp(a))
            tup = tuple(slice(*y) for y in sel)
            if r.random() < 0.4:
                e = {'op': 'slice', 'c': c, 'i': i, 'sel': sel}

                def f():
                    e['obs'] = out(g.h5_slice(part, tup), a['cont'])
            else:
                n = [len(range(*y)) for y in sel] + shp(a)[len(sel):]
                e = {'op': 'over', 'c': c, 'i': i, 'sel': sel, 'update': r.random() < 0.5, 'v': newv(a, int(np.prod(n)))}

                whole = a['cont'] and r.random() < 0.3     # whole numbers given as such
                if whole:
                    e['v'] = [x - x % 4 for x in e['v']]

                def f():
                    g.h5_overwrite_slice(part, tup, np.array([x // 4 for x in e['v']], dtype = 'int64').reshape(n) if whole else arr('float64' if a['cont'] else 'int64', n, e['v']), update_cache = e['update'])
            if not add(e, f):
                return
        elif x < 0.7:
            if a['dtype'] == 'bool':
                continue
            n = int(np.prod(shp(a)))
            e = {'op': 'poke', 'c': c, 'i': i, 'at': r.randint(1, n), 'x': newv(a, 1)[0]}

            def f():
                z = g.cached_part_array_ref(part, **dt)
                z[np.unravel_index(e['at'] - 1, z.shape)] = e['x'] / 4 if a['cont'] else e['x']
            if not add(e, f):
                return
        elif x < 0.75:
            y = r.random()
            e = {'op': 'uncache', 'c': c, 'ids': [i] if y < 0.6 else members[c]}

            def f():
                if y < 0.6:
                    g.uncache_part_array(part)
                elif y < 0.8:
                    g.remove_cached_part_arrays()
                else:
                    g.remove_all_cached_arrays()
            if not add(e, f):
                return
        elif x < 0.86:
            ms = [A[j] for j in members[c]]
            same = lambda f: len({str(f(b)) for b in ms}) == 1
            if not all(same(lambda b, k = k: b[k]) for k in ('cont', 'points', 'kind', 'idx', 'uom', 'sup')) or any(b['count'] > 1 or b['dtype'] == 'bool' or b['cbool'] or b['idx'] == 'faces' and b['ft'] == 'direction' for b in ms):
                continue
            what = [k for k in ('reals', 'times', 'facets') if all({'reals': b['real'] >= 0, 'times': b['ti'] >= 0, 'facets': b['fo'] > 0}[k] for b in ms)]
            if not what:
                continue
            e = {'op': 'stack', 'c': c, 'what': r.choice(what), 'fill': r.random() < 0.6, 'fv': 0, 'b32': r.random() < 0.4}
            fv = r.choice([None, None, 2, 0])
            e['fv'] = (NONE if a['cont'] else -1) if fv is None else (4 * fv if a['cont'] else fv)
            if a['points'] and e['what'] == 'facets':
                continue

            def f():
                if e['what'] == 'facets':
                    z = g.facets_array_ref(use_32_bit = e['b32'])
                else:
                    z = getattr(g, {'reals': 'realizations_array_ref', 'times': 'time_series_array_ref'}[e['what']])(use_32_bit = e['b32'], fill_missing = e['fill'], fill_value = fv)
                g.realization = None
                e['obs'] = dict(out(z, a['cont']), bits = 8 * z.dtype.itemsize)
            ok = add(e, f)
            if not ok:
                return
        elif x < 0.94:
            if a['points'] or i in packed or a['dtype'] == 'bool' or a['cbool'] or a['kind'] == 'discrete':
                continue
            e = {'op': 'norm', 'c': c, 'i': i, 'masked': r.random() < 0.4, 'dc': r.choice([1, 3, 4]) if not a['cont'] and r.random() < 0.5 else 0, 'trust': a['cont'] and r.random() < 0.4,
                 'fz': r.choice([-1, -1, 0, 1, 2])}
            if a['cont'] and r.random() < 0.3:
                e['dc'] = 3

            def f():
                z, lo, hi = g.normalized_part_array(part, masked = e['masked'], discrete_cycle = e['dc'] or None, trust_min_max = e['trust'], fix_zero_at = None if e['fz'] < 0 else e['fz'] / 2)
                if z is None:
                    e['obs'] = {'none': True}
                else:
                    q = lambda y: NONE if np.isnan(y) else int(round(4 * y)) if 4 * y == round(4 * y) else NONE - 5
                    zd = np.ma.getdata(z)
                    e['obs'] = {'none': False, 'min': q(lo), 'max': q(hi), 'v': [NONE if np.isnan(y) else int(max(-2e9, min(2e9, round(1e6 * y)))) for y in zd.flatten().tolist()],
                                'mask': [bool(y) for y in np.ma.getmaskarray(z).flatten()] if e['masked'] else []}
                    if e['masked'] != isinstance(z, np.ma.MaskedArray):
                        raise ValueError('masked?')
            if not add(e, f):
                return
        elif x < 0.955:
            sh = [r.randint(1, 3) for _ in range(r.randint(0, 3))]
            n = int(np.prod(sh)) * 6
            v = r.sample(range(100), n) if n <= 100 else [r.randint(0, 99) for _ in range(n)]
            e = {'op': 'faces', 'v': v}

            def f():
                y = np.array(v)
                cc, dd = rqp.GridPropertyCollection().combobulated_face_array(y.reshape(sh + [6])), rqp.GridPropertyCollection().discombobulated_face_array(y.reshape(sh + [3, 2]))
                if list(cc.shape) != sh + [3, 2] or list(dd.shape) != sh + [6]:
                    raise ValueError('shape')
                e['obs'] = {'c': cc.flatten().tolist(), 'd': dd.flatten().tolist()}
            if not add(e, f):
                return
        elif x < 0.985:
            if not sample():
                return
        else:
            e = {'op': 'reopen'}

            def f():
                w.reopen()
                coll.clear()
                for n in w.sup:
                    if w.skind[n] == 'grid':
                        w.sup[n].inactive = None
            if not add(e, f):
                return


PARTS = {'arrays': (driver, 'PropArrTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCPropArr', 'MCPropArr.cfg')
    base = vlib.seed() * 1000003
    c.conform('arrays', driver, [{'seed': base + i} for i in range(2500 if quick else 30000)], 'PropArrTrace')
