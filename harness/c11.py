"""C11: grid connection sets."""
import vlib
from rqutil import *
import random
import pandas as pd
import resqpy.grid as grr, resqpy.fault as rqf, resqpy.property as rqp

NAMES = {1: 'F1', 2: 'F12', 3: 'north fault', 4: 'Gamma', 5: 'b2', 6: 'Top', 7: 'base horizon', 8: 'Body'}
TYPES = {6: 'horizon', 7: 'horizon', 8: 'geobody boundary'}
KIND = {'FaultInterpretation': 'fault', 'HorizonInterpretation': 'horizon', 'GeobodyBoundaryInterpretation': 'geobody boundary'}
IDS = {v.split()[0].lower(): k for k, v in NAMES.items()}
FMAP = [(0, 0), (0, 1), (1, 0), (2, 1), (1, 1), (2, 0)]
NAN = -1000000
BAD = 99999999


def q(x, f = 8):
    x = float(x)
    if np.isnan(x):
        return NAN
    y = round(x * f)
    return int(y) if abs(y - x * f) < 1e-5 * max(1, abs(y)) else BAD


def fid(title):
    return IDS.get(title.split()[0].lower(), 99)


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('g.epc')
    crs = rqc.Crs(m)
    crs.create_xml()
    nk, nj, ni = ext = [r.choice([1, 2, 2, 3]) for _ in range(3)]
    N = nk * nj * ni
    other = None
    if r.random() < 0.3:
        other = grr.RegularGrid(m, extent_kji = (2, 1, 1), crs_uuid = crs.uuid, title = 'first')
        other.create_xml(add_cell_length_properties = False)
    g = grr.RegularGrid(m, extent_kji = ext, crs_uuid = crs.uuid, title = 'grid')
    g.create_xml(add_cell_length_properties = False)
    if other is None and r.random() < 0.3:
        g = m.grid(uuid = g.uuid, find_properties = False)
    half = [r.choice([0, 1, 2, 3, 6, 10]) for _ in range(6 * N)]
    g.array_half_cell_t = np.array(half, dtype = float).reshape(ext + [3, 2])
    strides = [nj * ni, ni, 1]
    gs, saved, pend = {}, set(), set()
    props = {}       # n -> list of property records

    def kji(c):
        return [c // (nj * ni), c // ni % nj, c % ni]

    def inner(a):
        return [c for c in range(N) if kji(c)[a] < ext[a] - 1]

    def see(o):
        o.cache_arrays()
        p = [] if not o.count else [[int(x) for x in a] + [int(y) for y in b] + [int(f)] for a, b, f in zip(o.cell_index_pairs, o.face_index_pairs, o.feature_indices)]
        for t, u, title in o.feature_list or []:
            if TYPES.get(fid(title), 'fault') != KIND[t.replace('obj_', '')] or str(m.uuid(uuid = u)) != str(u):
                raise ValueError('feature')
        return {'p': p, 'f': [fid(x[2]) for x in o.feature_list or []], 'n': o.count or 0}

    def see_props(o, mm = None):
        pc = rqp.PropertyCollection(support = o)
        out = []
        for part in pc.parts():
            k = pc.property_kind_for_part(part)
            a = pc.cached_part_array_ref(part, dtype = bool if k in ('active', 'baffle') else None)
            t = pc.citation_title_for_part(part)
            out.append({'t': 0 if t == 'TMULT' else int(t[2:]) if t[:2] == 'zq' else 99,
                        'k': {'transmissibility multiplier': 'mult', 'active': 'active', 'baffle': 'baffle', 'length': 'cont', 'code': 'code'}.get(k, '?'),
                        'd': not pc.continuous_for_part(part), 'v': [q(x) for x in a]})
        return out

    def add(e, fn):
        ev.append(e)
        k, x = call(fn)
        e['res'] = {'k': k, 'what': x if k == 'exc' else ''}
        if k != 'ok':
            e['obs'] = {}
        return k == 'ok'

    def fresh():
        return len(gs) + 1

    def keep(n, o):
        gs[n] = o
        props[n] = []

    def save(n, e = None):
        o = gs[n]
        o.write_hdf5()
        o.create_xml()
        gs[n] = rqf.GridConnectionSet(m, uuid = o.uuid, cache_arrays = r.random() < 0.3)
        saved.add(n)
        return dict(see(gs[n]), pr = see_props(gs[n]))

    ev.append({'op': 'grid', 'x': ext, 'half': half, 'res': {'k': 'ok'}, 'obs': {}})

    def text(i):
        return NAMES[i].lower() if r.random() < 0.2 and i in known else NAMES[i]

    known = set()

    def make():
        n, x = fresh(), r.random()
        name = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8])
        kw = dict(feature_name = NAMES[name], feature_type = TYPES.get(name, 'fault'))
        create = name not in known or r.random() < 0.6
        ax = [a for a in range(3) if ext[a] > 1]
        if x < 0.2:
            dens = r.choice([0.2, 0.5, 1.0])
            l = [[a, c, int(r.random() < 0.3)] for a in ax for c in inner(a) if r.random() < dens]
            sides = r.random() < 0.6
            if not sides:
                l = [[a, c, 0] for a, c, _ in l]
            e = {'op': 'masks', 'n': n, 'name': name, 'l': l}
            shapes = [[nk - 1, nj, ni], [nk, nj - 1, ni], [nk, nj, ni - 1]]
            ms, ss = [], []
            for a in range(3):
                f, s = np.zeros(shapes[a], dtype = bool), np.zeros(shapes[a], dtype = bool)
                for b, c, t in l:
                    if b == a:
                        f[tuple(kji(c))] = True
                        s[tuple(kji(c))] = bool(t)
                ms.append(f if f.any() or r.random() < 0.5 else None)
                ss.append(s if sides else None)

            def f():
                if all(y is None for y in ms):
                    ms[0] = np.zeros(shapes[0], dtype = bool)
                o = rqf.GridConnectionSet(m, grid = g, k_faces = ms[0], j_faces = ms[1], i_faces = ms[2], k_sides = ss[0], j_sides = ss[1], i_sides = ss[2],
                                          create_organizing_objects_where_needed = create, **kw)
                keep(n, o)
                e['obs'] = see(o)
        elif x < 0.3:
            axis = r.randrange(3)
            aa = [a for a in range(3) if a != axis]

            def strand(fa):
                if ext[fa] < 2:
                    return []
                s = sorted({tuple(kji(c)[b] for b in aa) for c in inner(fa)})
                return [list(y) for y in s if r.random() < 0.5]
            e = {'op': 'kelp', 'n': n, 'name': name, 'axis': axis, 'a': strand(aa[0]), 'b': strand(aa[1])}

            def f():
                o = rqf.GridConnectionSet(m, grid = g)
                o.set_pairs_from_kelp(e['a'], e['b'], kw['feature_name'], create, axis = 'KJI'[axis], feature_type = kw['feature_type'])
                keep(n, o)
                e['obs'] = see(o)
        elif x < 0.4:
            cells = [c for c in range(N) if r.random() < 0.4]
            mask = np.zeros(N, dtype = bool)
            mask[cells] = True
            e = {'op': 'skin', 'n': n, 'name': name, 'cells': cells}

            def f():
                o = rqf.cell_set_skin_connection_set(g, mask.reshape(ext), create_organizing_objects_where_needed = create, **kw)
                keep(n, o)
                e['obs'] = see(o)
        elif x < 0.6:
            dup = r.random() < 0.4
            l = [[] if a not in ax or r.random() < 0.2 else [r.choice(inner(a)) for _ in range(r.randint(1, 5))] for a in range(3)]
            if r.random() < 0.4:
                l = [r.sample(y, len(y)) for y in [sorted(set(z)) for z in l]]
            ps = [[[8 * r.randint(0, 5) for _ in l[a]] for _ in range(r.choice([0, 0, 1, 2]))] for a in range(3)]
            e = {'op': 'faces', 'n': n, 'name': name, 'l': l, 'dups': dup, 'props': ps}

            def f():
                pp = [[np.array(v) / 8 for v in ps[a]] for a in range(3)]
                ll = [np.array([kji(c) for c in l[a]], dtype = int).reshape((-1, 3)) if l[a] or r.random() < 0.5 else None for a in range(3)]
                o = rqf.GridConnectionSet.from_faces_indices(g, ll[0], ll[1], ll[2], remove_duplicates = not dup, k_properties = pp[0] if ps[0] or r.random() < 0.5 else None,
                                                             j_properties = pp[1], i_properties = pp[2], **kw)
                keep(n, o)
                if str(o.grid_list[0].uuid) != str(g.uuid):
                    raise ValueError('grid')
                e['obs'] = dict(see(o), props = [[[q(y) for y in v] for v in pp[a]] for a in range(3)])
        elif x < 0.65:
            e = {'op': 'empty', 'n': n}

            def f():
                keep(n, rqf.GridConnectionSet(m, grid = g))
        elif x < 0.8:
            ids = r.sample([1, 2, 4, 5], r.randint(1, 3))
            cr = r.random() < 0.8
            rows = []
            for _ in range(r.randint(1, 5)):
                a, p = r.randrange(3), r.randrange(2)
                lo, hi = [], []
                for b in range(3):
                    u, v = sorted([r.randrange(ext[b]), r.randrange(ext[b])])
                    if b == a:
                        v = u
                    lo.append(u)
                    hi.append(v)
                rows.append({'name': r.choice(ids), 'axis': a, 'pol': p, 'lo': lo, 'hi': hi, 'mult': 8 if r.random() < 0.3 else r.choice([0, 2, 4, 8, 16])})
            if r.random() < 0.4:
                for y in rows:
                    y['mult'] = rows[0]['mult']
            dc = [[i, r.choice([0, 1, 2, 4])] for i in ids if r.random() < 0.3]
            sv = r.random() < 0.6
            one = r.random() < 0.7
            tx = {i: NAMES[i].lower() if i in known and r.random() < 0.4 else NAMES[i] for i in ids}
            txt = lambda y: ('KJI'[y['axis']] + ('' if y['pol'] and r.random() < 0.3 else '-+'[y['pol']]))
            low = r.random() < 0.2
            e = {'op': 'df', 'n': n, 'rows': rows, 'dict': dc, 'create': cr, 'saved': sv}

            def f():
                b = int(one)
                d = pd.DataFrame([{'i1': y['lo'][2] + b, 'i2': y['hi'][2] + b, 'j1': y['lo'][1] + b, 'j2': y['hi'][1] + b, 'k1': y['lo'][0] + b, 'k2': y['hi'][0] + b,
                                   'mult': y['mult'] / 8, 'grid': 'ROOT', 'name': tx[y['name']], 'face': txt(y).lower() if low else txt(y)} for y in rows])
                o = rqf.GridConnectionSet(m, grid = g, title = 'table')
                o.set_pairs_from_faces_df(d, create_organizing_objects_where_needed = cr, fault_tmult_dict = {tx[i] if r.random() < 0.5 else tx[i].lower(): y / 2 for i, y in dc} or None,
                                          one_based_indexing = one)
                keep(n, o)
                e['obs'] = see(o)
                e['saved'] = sv and o.count > 0
                if e['saved']:
                    e['obs'] = save(n)
                    props[n] = [{'t': 0, 'k': 'mult'}]
                else:
                    if o.count:
                        pend.add(n)
                known.update(e['obs']['f'])
            return add(e, f)
        else:
            fs = [r.choice([y for y in known]) for _ in range(r.randint(1, 3))] if known else []
            if len(set(fs)) < len(fs) or not fs:
                return
            p = []
            for _ in range(r.randint(1, 6)):
                p.append([r.randrange(N), r.randrange(N), r.randrange(6), r.randrange(6), r.randrange(len(fs))])
                if r.random() < 0.4:   # juxtaposed columns
                    a = r.choice([1, 2])
                    f = r.choice([y for y in range(6) if FMAP[y][0] == a])
                    p[-1][2:4] = [f, [y for y in range(6) if FMAP[y][0] == a and y != f][0]]
            e = {'op': 'raw', 'n': n, 'p': p, 'f': fs}

            def f():
                o = rqf.GridConnectionSet(m, grid = g, title = 'raw')
                z = np.array(p)
                o.cell_index_pairs, o.face_index_pairs, o.feature_indices = z[:, :2].copy(), z[:, 2:4].copy(), z[:, 4].copy()
                o.count = len(p)
                o.feature_list = []
                for i in fs:
                    t = [k for k, v in KIND.items() if v == TYPES.get(i, 'fault')][0]
                    u = [y for y in m.uuids(obj_type = t) if fid(m.title(uuid = y)) == i][0]
                    o.feature_list.append(('obj_' + t, u, m.title(uuid = u)))
                keep(n, o)
                e['obs'] = see(o)
            return add(e, f)
        known.add(name) if e['op'] != 'empty' else None
        return add(e, f)

    for _ in range(2):
        make()
    for _ in range(r.randint(4, 14)):
        x = r.random()
        n = r.choice(list(gs)) if gs else 0
        if params.get('mults'):    # several sets with multipliers, combined
            bare = [i for i in gs if gs[i].count and gs[i].feature_list is not None and not any(y['k'] == 'mult' for y in props[i])]
            n = r.choice(bare) if bare else n
            x = r.choice([0.1, 0.35, 0.45, 0.79]) if not gs else 0.35 if bare and n not in saved else 0.45 if bare and r.random() < 0.8 else r.choice([0.1, 0.45, 0.79, 0.83, 0.83, 0.83])
        if x < 0.15 or not gs:
            make()
            continue
        o = gs[n]
        if not o.count or o.feature_list is None:
            if x < 0.4 and n not in pend:
                a = r.choice(list(gs))
                if a == n:
                    continue
                e = {'op': 'append', 'n': n, 'from': a}

                def f():
                    o.append(gs[a])
                    e['obs'] = see(o)
                if gs[a].feature_list is not None:
                    add(e, f)
            continue
        fs = [fid(y[2]) for y in o.feature_list]
        nf = len(fs)

        def ask():
            y = r.choice(fs + [r.randint(1, 8)])
            return 2 if y == 1 and 1 not in fs else y   # F1 would match F12

        pr = props[n]
        if n in saved and r.random() < 0.3:
            o = gs[n] = rqf.GridConnectionSet(m, uuid = o.uuid, cache_arrays = r.random() < 0.5)
        if x < 0.2:
            a = r.choice(list(gs))
            if n in saved or n in pend or a == n or gs[a].feature_list is None or not gs[a].count:
                continue
            if r.random() < 0.5:
                e = {'op': 'append', 'n': n, 'from': a}

                def f():
                    o.append(gs[a])
                    e['obs'] = see(o)
            else:
                if not gs[a].count:
                    continue
                e = {'op': 'inherit', 'n': n, 'from': a}

                def f():
                    o.inherit_features(gs[a])
                    e['obs'] = see(o)
            add(e, f)
            props[n] = []
        elif x < 0.34:
            k = fresh()
            kind = r.choice(['layers', 'mask', 'single'])
            inh = n in saved and r.random() < 0.7
            e = {'op': kind, 'n': k, 'from': n, 'inh': inh, 'pare': r.random() < 0.7}
            if kind == 'layers':
                lo, hi = r.choice([-1, 0, 0, r.randrange(nk)]), r.choice([-1, nk - 1, nk, r.randrange(nk)])
                if 0 <= hi < lo:
                    lo, hi = hi, lo
                e.update(lo = lo, hi = hi)
            elif kind == 'mask':
                e.update(cells = [c for c in range(N) if r.random() < 0.6], both = r.random() < 0.5)
            else:
                by = r.random() < 0.5
                e.update(name = ask() if by else 0, i = 0 if by else r.randint(-1, nf), pare = False)

            def f():
                o2 = idx = None
                if kind == 'layers':
                    o2, idx = o.filtered_by_layer_range(None if e['lo'] < 0 else e['lo'], None if e['hi'] < 0 else e['hi'], pare_down = e['pare'], return_indices = True)
                elif kind == 'mask':
                    ms = np.zeros(N, dtype = bool)
                    ms[e['cells']] = True
                    o2, idx = o.filtered_by_cell_mask(ms.reshape(ext), both_cells_required = e['both'], pare_down = e['pare'], return_indices = True)
                elif by:
                    y = next((y[2] for y in o.feature_list if fid(y[2]) == e['name']), NAMES[e['name']])
                    o2 = o.single_feature(feature_name = r.choice([y, y.split()[0]]))
                    idx = None if o2 is None else o.indices_for_feature_index(o.feature_index_and_uuid_for_fault_name(y)[0])
                else:
                    o2 = o.single_feature(feature_index = e['i'])
                    idx = o.indices_for_feature_index(e['i'])
                if o2 is None:
                    e['obs'] = {'none': True}
                    return
                if e['inh'] and not o2.count:
                    e['inh'] = False
                if e['inh']:
                    o.extract_property_collection()
                    o2.inherit_properties_for_selected_indices(o, idx)
                    keep(k, o2)
                    e['obs'] = dict(save(k), none = False, idx = [int(y) for y in idx])
                    props[k] = [dict(y) for y in pr]
                else:
                    keep(k, o2)
                    e['obs'] = dict(see(o2), none = False, idx = [int(y) for y in idx])
            if not add(e, f):
                return
        elif x < 0.4:
            if n in saved:
                continue
            e = {'op': 'save', 'n': n}

            def f():
                e['obs'] = save(n)
                if n in pend:
                    pend.remove(n)
                    props[n].append({'t': 0, 'k': 'mult'})
            if not add(e, f):
                return
        elif x < 0.52:
            if n not in saved:
                continue
            k = r.choice(['mult', 'mult', 'active', 'baffle'] + ([] if params.get('mults') else ['cont', 'code']))
            if k in ('mult', 'active', 'baffle') and any(y['k'] == k for y in pr):
                continue
            t = r.randint(1, 60)
            if any(y['t'] == t for y in pr):
                continue
            v = [8 * r.randint(0, 1) if k in ('active', 'baffle') else 8 * r.randint(0, 5) if k != 'cont' else r.randint(0, 40) for _ in range(o.count)]
            if r.random() < 0.15:
                v = [v[0]] * len(v)
            e = {'op': 'prop', 'n': n, 'p': {'t': t, 'k': k, 'd': k in ('active', 'baffle', 'code'), 'v': v}}

            def f():
                a = np.array(v) / 8
                kd = {'mult': 'transmissibility multiplier', 'cont': 'length'}.get(k, k)
                if e['p']['d']:
                    a = a.astype(bool) if k in ('active', 'baffle') and r.random() < 0.5 else a.astype(int)
                ck = {}
                if r.random() < 0.5 and min(v) == max(v) and k not in ('active', 'baffle'):
                    ck = {'const_value': a[0]}
                    a = None
                rqp.Property.from_array(m, a, 's', f'zq{t}', o.uuid, property_kind = kd, indexable_element = 'faces', discrete = e['p']['d'],
                                        **dict({} if e['p']['d'] else {'uom': 'Euc' if k == 'mult' else 'm'}, **ck))
                gs[n] = rqf.GridConnectionSet(m, uuid = o.uuid)
                pr.append({'t': t, 'k': k})
            add(e, f)
        elif x < 0.56:
            l = [y for y in saved if gs[y].count]
            l = [r.choice(l) for _ in range(r.randint(2, 3))] if l else []
            if len(l) < 2:
                continue
            ps = []
            for k in ('cont', 'code', 'mult'):
                c = [[y['t'] for y in props[i] if y['k'] == k] for i in l]
                if all(c):
                    ps.append([r.choice(y) for y in c])
            away = r.random() < 0.5
            e = {'op': 'merge', 'l': l, 'props': ps}

            def f():
                mm = m
                if away:
                    mm = new_model('other.epc')
                ul = [[m.uuid(obj_type = None, uuid = y) for y in [m.uuid_for_part(p) for p in m.parts(title = 'TMULT' if t == 0 else f'zq{t}', related_uuid = gs[i].uuid)]][0]
                       for z in ps for i, t in zip(l, z)]
                ul = [ul[j * len(l):(j + 1) * len(l)] for j in range(len(ps))]
                z = rqf.GridConnectionSet.from_gcs_uuid_list(mm, m, [gs[i].uuid for i in l], 'merged', gcs_property_uuid_list_of_lists = ul or None)
                z = rqf.GridConnectionSet(mm, uuid = z.uuid)
                if str(z.grid_list[0].uuid) != str(g.uuid) or z.title != 'merged':
                    raise ValueError('grid')
                z.cache_arrays()
                p = [[int(y) for y in a] + [int(y) for y in b] + [int(c)] for a, b, c in zip(z.cell_index_pairs, z.face_index_pairs, z.feature_indices)]
                for _, u, _ in z.feature_list:
                    if mm.part_for_uuid(u) is None:
                        raise ValueError('feature not copied')
                e['obs'] = {'p': p, 'f': [fid(y[2]) for y in z.feature_list], 'n': z.count, 'pr': see_props(z)}
            add(e, f)
        elif x < 0.6:
            e = {'op': 'info', 'n': n, 'name': ask()}

            def f():
                lists, kelp = [], []
                for i in range(nf):
                    c, fp = o.list_of_cell_face_pairs_for_feature_index(i)
                    lists.append([[[int(w) for w in y[0]], [int(w) for w in y[1]], [int(w) for w in z[0]], [int(w) for w in z[1]]] for y, z in zip(c, fp)])
                    a, b = o.simplified_sets_of_kelp_for_feature_index(i)
                    kelp.append([[[int(w) for w in y] for y in a], [[int(w) for w in y] for y in b]])
                    if fid(o.feature_name_for_feature_index(i)) != fs[i] or o.fault_name_for_feature_index(i, strip = False) != o.feature_list[i][2]:
                        raise ValueError('name')
                k = o.feature_index_and_uuid_for_fault_name(NAMES[e['name']].split()[0] if o.feature_list and NAMES[e['name']] == o.feature_list[0][2] else
                                                            next((y[2] for y in o.feature_list if fid(y[2]) == e['name']), NAMES[e['name']]))
                e['obs'] = {'names': [fid(y) for y in r.choice([o.list_of_feature_names, o.list_of_fault_names])(strip = r.random() < 0.5)], 'count': o.number_of_features(),
                            'found': -1 if k[0] is None else k[0], 'compact': [[int(w) for w in y] for y in o.compact_indices()], 'lists': lists, 'kelp': kelp}
            o.cache_arrays()
            add(e, f)
        elif x < 0.64:
            c, fc = (r.choice([(int(y[d]), int(z[d])) for y, z in zip(o.cell_index_pairs, o.face_index_pairs) for d in (0, 1)]) if o.cell_index_pairs is not None and r.random() < 0.7
                     else (r.randrange(N), r.randrange(6)))
            e = {'op': 'at', 'n': n, 'cell': c, 'axis': FMAP[fc][0], 'pol': FMAP[fc][1]}

            def f():
                y = o.feature_index_for_cell_face(kji(c), e['axis'], e['pol'])
                e['obs'] = -1 if y is None else int(y)
            add(e, f)
        elif x < 0.68:
            lo = r.randrange(nk)
            e = {'op': 'edges', 'n': n, 'feat': r.randrange(nf), 'lo': lo, 'hi': r.randint(lo, nk - 1)}

            def f():
                z = o.get_column_edge_list_for_feature(e['feat'], min_k = lo, max_k = e['hi'])
                b = o.get_column_edge_bool_array_for_feature(e['feat'], min_k = lo, max_k = e['hi'])
                if b.shape != (nj, ni, 2, 2):
                    raise ValueError('shape')
                e['obs'] = {'list': [] if z is None else [[int(w) for w in y] for y in z], 'array': [[int(w) for w in y] for y in np.stack(np.where(b)).T]}
            add(e, f)
        elif x < 0.74:
            if any(TYPES.get(y) for y in fs):
                continue
            lo = r.randrange(nk)
            fl = list(range(nf)) if r.random() < 0.5 else r.sample(range(nf), r.randint(1, nf))
            e = {'op': 'combined', 'n': n, 'lo': lo, 'hi': r.randint(lo, nk - 1), 'ref': r.choice([-1, lo, r.randrange(nk)]), 'feats': fl}

            def f():
                a, b, c = o.get_combined_fault_mask_index_value_arrays(min_k = lo, max_k = e['hi'], feature_list = None if fl == list(range(nf)) else fl, ref_k = None if e['ref'] < 0 else e['ref'])
                e['obs'] = {'on': [[int(w) for w in y] + [int(b[tuple(y)]), NAN if c is None else q(c[tuple(y)])] for y in np.stack(np.where(a)).T],
                            'rest': bool(np.all(b[~a] == -1)), 'none': c is None}
            add(e, f)
        elif x < 0.8:
            ps = [y for y in pr if n in saved]
            if not ps:
                continue
            p = r.choice(ps)
            d = p['k'] in ('active', 'baffle', 'code')
            df = r.choice([None, None, 0, 3])
            feat = r.choice([-1, -1, r.randrange(nf)])
            e = {'op': 'facearrays', 'n': n, 't': p['t'], 'default': (-8 if d else NAN) if df is None else 8 * df, 'feat': feat, 'active': r.random() < 0.6, 'lazy': r.random() < 0.4,
                 'baffle': r.random() < 0.5 and any(y['k'] == 'baffle' for y in pr)}

            def f():
                pu = lambda p: m.uuid_for_part(m.parts(title = 'TMULT' if p['t'] == 0 else f"zq{p['t']}", related_uuid = o.uuid)[0])
                kw = {}
                if p['k'] in ('active', 'baffle'):
                    kw['dtype'] = np.uint8
                    if df is None:
                        kw['default_value'] = 7
                        e['default'] = 56
                b = o.grid_face_arrays(pu(p), default_value = kw.pop('default_value', df), feature_index = None if feat < 0 else feat, active_only = e['active'], lazy = e['lazy'],
                                       baffle_uuid = pu([y for y in pr if y['k'] == 'baffle'][0]) if e['baffle'] else None, **kw)
                if [y.shape for y in b] != [(nk + 1, nj, ni), (nk, nj + 1, ni), (nk, nj, ni + 1)]:
                    raise ValueError('shape')
                e['obs'] = [[q(w) for w in y.flatten()] for y in b]
            add(e, f)
        elif x < 0.86:
            l = [[i, y['t']] for i in saved for y in props[i] if y['k'] == 'mult']
            if not l:
                continue
            l = r.sample(l, min(len(l), r.randint(1, 3)))
            e = {'op': 'trmult', 'l': l, 'mode': r.choice(['minimum', 'maximum', 'multiply', 'exception']), 'sided': r.choice([2, 2, 0, 1]), 'active': r.random() < 0.6,
                 'baffles': r.random() < 0.5}
            if e['mode'] == 'multiply' and e['sided'] == 1:
                e['sided'] = 2
            fill = r.choice([None, 1.0, 0.0, 2.0])
            e['fill'] = NAN if fill is None else q(fill, 512)

            def f():
                us = [m.uuid_for_part(m.parts(title = 'TMULT' if t == 0 else f'zq{t}', related_uuid = gs[i].uuid)[0]) for i, t in l]
                b = rqf.combined_tr_mult_from_gcs_mults(m, us, merge_mode = e['mode'], sided = None if e['sided'] == 2 else bool(e['sided']), fill_value = fill, active_only = e['active'],
                                                        apply_baffles = e['baffles'])
                e['obs'] = [[q(w, 512) for w in y.flatten()] for y in b]
            add(e, f)
        elif x < 0.9:
            ps = [y for y in pr if n in saved and y['k'] in ('mult', 'cont', 'code')]
            if not ps:
                continue
            p = r.choice(ps)
            d = p['k'] == 'code'
            nv = r.choice([None, None, -2, 0])
            e = {'op': 'columns', 'n': n, 't': p['t'], 'mode': r.choice(['default', 'default', 'min', 'max', 'any', 'exception'] + ([] if d else ['mean'])),
                 'null': (-960 if d else NAN) if nv is None else 960 * nv}

            def f():
                pu = m.uuid_for_part(m.parts(title = 'TMULT' if p['t'] == 0 else f"zq{p['t']}", related_uuid = o.uuid)[0])
                kw = {} if nv is None else {'null_value': nv}
                u = rqf.grid_columns_property_from_gcs_property(m, pu, multiple_handling = e['mode'], title = r.choice([None, 'map']), **kw)
                z = rqp.Property(m, uuid = u)
                a = z.array_ref()
                if a.shape != (nj, ni) or z.indexable_element() != 'columns' or str(z.collection.support_uuid) != str(g.uuid) or z.is_continuous() == d:
                    raise ValueError('property')
                e['obs'] = [q(y, 960) for y in a.flatten()]
            add(e, f)
        elif x < 0.94:
            ps = [y['t'] for y in pr if n in saved and y['k'] in ('mult', 'cont')]
            t = r.choice(ps) if ps and r.random() < 0.7 else -1
            back = r.random() < 0.5 and not any(TYPES.get(y) for y in fs)
            k = fresh()
            e = {'op': 'ascii' if back else 'simulator', 'n': k, 'from': n, 't': t, 'both': not back and r.random() < 0.3, 'minus': r.random() < 0.4}

            def f():
                tu = None if t < 0 else m.uuid_for_part(m.parts(title = 'TMULT' if t == 0 else f'zq{t}', related_uuid = o.uuid)[0])
                o.write_simulator('f.inc', include_both_sides = e['both'], use_minus = e['minus'], trans_mult_uuid = tu)
                rows = parse('f.inc')
                if back and any(outer(y) for y in rows):   # a row of several layers that ends outside is left out as a whole
                    e['op'] = 'simulator'
                if e['op'] == 'simulator':
                    e['obs'] = rows
                    return
                z = rqf.GridConnectionSet(m, grid = g, ascii_load_format = 'nexus', ascii_file = 'f.inc', create_organizing_objects_where_needed = True, title = 'read')
                keep(k, z)
                e['obs'] = save(k)
                props[k] = [{'t': 0, 'k': 'mult'}]
            def outer(y):
                return kji(y[3])[y[1]] == (ext[y[1]] - 1 if y[2] else 0)
            def parse(fn):
                out, T, P, name = [], None, None, None
                for line in open(fn):
                    w = line.split()
                    if not w:
                        continue
                    if w[0] == 'MULT':
                        T, P = 'ZYX'.index(w[1][1]), ['MINUS', 'PLUS'].index(w[3])
                    elif w[0] == 'FNAME':
                        name = fid(w[1])
                    elif w[0] != 'GRID':
                        v = [int(y) - 1 for y in w[:6]]
                        for kk in range(v[4], v[5] + 1):
                            for jj in range(v[2], v[3] + 1):
                                for ii in range(v[0], v[1] + 1):
                                    out.append([name, T, P, (kk * nj + jj) * ni + ii, q(w[6])])
                return out
            if not add(e, f):
                return
        elif x < 0.97:
            mult = n in saved and r.random() < 0.5
            if mult and any(TYPES.get(y) for y in fs) and not any(y['k'] == 'mult' for y in pr):
                continue
            e = {'op': 'tr', 'n': n, 'mult': mult, 'fa': [] if r.random() < 0.4 else [[r.choice([0, 1, 2, 4]), r.choice([0, 1, 4])] for _ in range(o.count)]}

            def f():
                o.cache_arrays()
                o.grid_list = [g]
                y = o.tr_property_array(fa = np.array(e['fa']) / 4 if e['fa'] else None, apply_multipliers = mult)
                e['obs'] = [NAN if np.isnan(w) else int(round(w * 1000)) for w in y]
            add(e, f)
        elif x < 0.985:
            if n in saved:
                continue
            fc = [[r.randrange(6), r.randrange(6)] for _ in range(o.count)]
            e = {'op': 'rework', 'n': n, 'faces': fc}

            def f():
                o.face_index_pairs = np.array(fc, dtype = np.int8)
                o.rework_face_pairs()
                e['obs'] = see(o)
            add(e, f)
        else:
            e = {'op': 'surface', 'n': n, 'feat': r.randrange(nf)}

            def f():
                z = o.surface(feature_index = e['feat'])
                if z is None:
                    e['obs'] = []
                    return
                t, p = z.triangles_and_points()
                e['obs'] = [[[q(w, 1) for w in p[y]] for y in x] for x in t]
            add(e, f)



def driver_pinch(params, tr):
    r = random.Random(params['seed'])
    m = new_model('p.epc')
    down = r.random() < 0.6       # whether z of the crs is down
    crs = rqc.Crs(m, z_inc_down = down)
    crs.create_xml()
    nk, nj, ni = x = [r.choice([1, 2, 3, 4, 5, 6]), r.choice([1, 1, 2]), r.choice([1, 1, 2])]
    np_ = (nj + 1) * (ni + 1)
    anygap = r.random() < 0.6
    gaps = [int(anygap and r.random() < 0.4) for _ in range(nk - 1)]
    flat = r.random()
    th = [[0] * nk for _ in range(np_)]
    gap = [[0] * nk for _ in range(np_)]
    for k in range(nk):
        a, b = r.random() < 0.5, r.random() < 0.6
        for p in range(np_):
            th[p][k] = 0 if a and r.random() < flat + 0.3 else r.choice([0, 1, 2, 3]) if r.random() < 0.3 else r.randint(1, 3)
            gap[p][k] = 0 if b and r.random() < flat + 0.3 else r.randint(1, 2)
    g = grr.RegularGrid(m, extent_kji = x, crs_uuid = crs.uuid, title = 'grid', as_irregular_grid = True)
    g.make_regular_points_cached()
    pts = g.points_cached
    z = np.zeros((nk + 1 + sum(gaps), np_))
    row = 0
    for k in range(nk):
        z[row + 1] = z[row] + [th[p][k] for p in range(np_)]
        row += 1
        if k < nk - 1 and gaps[k]:
            z[row + 1] = z[row] + [gap[p][k] for p in range(np_)]
            row += 1
    full = np.zeros((len(z), nj + 1, ni + 1, 3))
    full[..., :2] = pts[0, :, :, :2]
    full[..., 2] = z.reshape(len(z), nj + 1, ni + 1) * (1 if down else -1) + r.choice([0, 1000])
    g.points_cached = full
    g.k_direction_is_down = True
    if sum(gaps):
        g.k_gaps = sum(gaps)
        g.k_gap_after_array = np.array(gaps, dtype = bool)
        g._set_k_raw_index_array()
    dead = [c for c in range(nk * nj * ni) if r.random() < 0.15]
    g.inactive = np.zeros(x, dtype = bool)
    for c in dead:
        g.inactive[c // (nj * ni), c // ni % nj, c % ni] = True
    g.write_hdf5()
    g.create_xml(write_geometry = True, add_cell_length_properties = False)
    dd = g.inactive
    g = grr.Grid(m, uuid = g.uuid)
    g.inactive = dd
    skip = r.random() < 0.7
    e = {'op': 'pinch', 'x': x, 'th': th, 'gap': gap, 'gaps': gaps, 'dead': dead, 'skip': skip}

    def f():
        a = rqf.pinchout_connection_set(g, skip_inactive = skip)
        b = rqf.k_gap_connection_set(g, skip_inactive = skip)
        faces = True
        out = []
        for o in (a, b):
            if o is None:
                out.append([])
                continue
            faces = faces and np.all(o.face_index_pairs[:, 0] == 1) and np.all(o.face_index_pairs[:, 1] == 0) and o.count == len(o.cell_index_pairs) == len(o.feature_indices)
            out.append([[int(y) for y in z] for z in o.cell_index_pairs])
        e['obs'] = {'pinch': out[0], 'gap': out[1], 'faces': bool(faces)}
    k, w = call(f)
    e['res'] = {'k': k, 'what': w if k == 'exc' else ''}
    if k != 'ok':
        e['obs'] = {}
    tr['events'].append(e)


EXTRA = {'mults': {'mults': True}}
PARTS = {'sets': (driver, 'GcsTrace'), 'mults': (driver, 'GcsTrace'), 'pinch': (driver_pinch, 'GcsTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCGcs', 'MCGcs.cfg' if quick else 'MCGcs_thorough.cfg')
    base = vlib.seed() * 1000003
    c.conform('sets', driver, [{'seed': base + i} for i in range(4000 if quick else 60000)], 'GcsTrace')
    c.conform('mults', driver, [{'seed': base + i, 'mults': True} for i in range(800 if quick else 15000)], 'GcsTrace')
    c.conform('pinch', driver_pinch, [{'seed': base + i} for i in range(1500 if quick else 30000)], 'GcsTrace')
