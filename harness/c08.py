"""C08: property collections."""
import vlib
from propw import *

def kind_of(a):
    if a['kind'] not in ('', 'continuous', 'discrete'):
        return a['kind']
    if a['kind'] == '' and a['title'] in ('PORO', 'KX'):
        return {'PORO': 'porosity', 'KX': 'rock permeability'}[a['title']]
    return 'length' if a['kind'] == '' and a['points'] else a['title']


MODES = ['is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']


def criteria(r, w, metas):
    """A list of [field, value] pairs, as tokens, biased to what is there."""
    q = []
    any_meta = lambda: r.choice(metas) if metas else None
    fields = ['real', 'cont', 'points', 'count', 'idx', 'kind', 'ft', 'facet', 'ts', 'ti', 'uom', 'sl', 'cat', 'const']
    for f in r.sample(fields, r.choice([0, 1, 1, 1, 2, 2, 3])):
        x = r.random()
        mt = any_meta()
        if x < 0.12 and f not in ('cont', 'points', 'cat', 'kind'):
            q.append([f, '*'])
        elif x < 0.24 and f not in ('cont', 'points', 'cat', 'kind'):
            q.append([f, 'none'])
        elif mt is not None and x < 0.85:
            v = mt[f] if f != 'const' else ('None' if mt[f] == NONE else str(mt[f]))
            if v == 'None' or f == 'const' and v == str(NONE - 1):
                continue
            q.append([f, v])
        else:
            v = {'real': '1', 'cont': 'True', 'points': 'True', 'count': '2', 'idx': 'nodes', 'kind': 'permeability rock', 'ft': 'what', 'facet': 'I', 'ts': '1', 'ti': '2',
                 'uom': 'm', 'sl': '1', 'cat': 'True', 'const': '4'}[f]
            q.append([f, v])
    return q


def py_criteria(w, q, title, mode, extra, rel, pid, names):
    k = {}
    for f, v in q:
        if f in ('real', 'ti', 'count'):
            x = v if v in ('*', 'none') else int(v)
        elif f in ('cont', 'points', 'cat'):
            x = v == 'True'
        elif f == 'ts':
            x = v if v in ('*', 'none') else w.ts[int(v)].uuid
        elif f == 'sl':
            x = v if v in ('*', 'none') else w.sl[int(v)].uuid
        elif f == 'const':
            x = v if v in ('*', 'none') else int(v) / 4
        else:
            x = v
        k[names.get(f, f)] = x
    if title is not None:
        k['citation_title'] = title
        k[names['mode']] = mode
    if extra:
        k['extra'] = dict(extra)
    if rel:
        k['related_uuid'] = rel
    if pid:
        k['uuid'] = w.prop[pid]
    return k


NAMES = {'real': 'realization', 'cont': 'continuous', 'idx': 'indexable', 'kind': 'property_kind', 'ft': 'facet_type', 'ts': 'time_series_uuid', 'ti': 'time_index',
         'sl': 'string_lookup_uuid', 'cat': 'categorical', 'const': 'const_value', 'mode': 'title_mode'}
INAMES = dict(NAMES, mode = 'citation_title_match_mode')


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    kinds = [r.choice(list(INDEXABLE)) for _ in range(r.choice([1, 1, 2, 2]))]
    w = World(r, kinds)
    coll, members = {}, {}
    metas = {}
    nid = [0]

    def add(e, fn):
        ev.append(e)
        k, x = call(fn)
        e['res'] = dict({'k': k, 'what': x if k == 'exc' else ''}, **(x if k == 'ok' and isinstance(x, dict) else {}))
        return k == 'ok'

    def ids(parts):
        return sorted(w.id_of(p) for p in parts)

    def look(c, n = None):
        ps = coll[c].parts()
        if n and len(ps) > n:
            ps = r.sample(ps, n)
        return [w.meta(coll[c], p) for p in ps]

    def args(sup = None):
        nid[0] += 1
        return gen_prop(r, w, nid[0], sup)

    def make():
        how = r.choice(['single', 'single', 'list', 'similar'])
        if how == 'similar' and not w.prop:
            how = 'single'
        if how == 'single':
            a = args()
            e = {'op': 'make', 'props': [a]}

            def f():
                c = make_single(w, a)
                e['obs'] = [w.meta(c, c.parts()[0])]
            ok = add(e, f)
            if ok:
                metas[a['id']] = e['obs'][0]
            return ok
        sup = r.choice(list(w.sup))
        c = rqp.PropertyCollection()
        c.set_support(support = w.sup[sup])
        batch = []
        e = {'op': 'make', 'props': batch}

        def f():
            us = []
            if how == 'similar':
                base = r.choice([i for i in w.prop])
                b = [x for y in ev if y['op'] == 'make' for x in y['props'] if x['id'] == base][0]
                c.set_support(support = w.sup[b['sup']])
                nid[0] += 1
                a = dict(b, id = nid[0], extra = [], source = b['source'])
                k = {}
                if r.random() < 0.4:
                    a['title'] = k['title'] = r.choice(TITLES)
                    a['tc'] = [ord(x) for x in a['title']]
                if a['kind'] in ('', 'continuous', 'discrete'):   # the kind that the other one has
                    a['kind'] = kind_of(b)
                if r.random() < 0.25 and not a['points']:
                    a['kind'] = r.choice(['porosity', 'rock permeability'] if a['cont'] else ['code', 'index'])
                    k.update(property_kind = a['kind'], local_property_kind_uuid = 'none')
                if r.random() < 0.4 and a['cont'] and not a['points']:
                    a['uom'] = k['uom'] = r.choice(['m', 'mD'])
                if r.random() < 0.4:
                    a['real'] = k['realization'] = r.choice([0, 2])
                if r.random() < 0.3:
                    a['ts'] = r.choice([1, 2])
                    a['ti'] = k['time_index'] = r.randint(0, 4)
                    k['time_series_uuid'] = w.ts[a['ts']].uuid
                if r.random() < 0.3:
                    a['source'] = k['source_info'] = 'other'
                if not a['cont']:   # the null value that the other one has
                    a['null'] = NONE if b['const'] != NONE and not b['expand'] else -1 if b['null'] == NONE else b['null']
                if r.random() < 0.3 and not a['cont']:
                    a['null'] = k['null_value'] = 3
                if a['const'] != NONE:
                    k['const_value'] = const_of(a)
                a['expand'] = False
                a['sim'] = base
                batch.append(a)
                us.append(c.add_similar_to_imported_list(w.prop[base], data_of(a), **k))
            else:
                for _ in range(r.randint(1, 3)):
                    a = args(sup)
                    a['expand'] = False
                    a['extra'] = []
                    batch.append(a)
                    us.append(add_import(w, c, a))
            c.write_hdf5_for_imported_list()
            vs = c.create_xml_for_imported_list_and_add_parts_to_model()
            if [bu.uuid_as_int(x) for x in us] != [bu.uuid_as_int(x) for x in vs] or c.number_of_imports() != 0:
                raise ValueError('uuids')
            for a, u in zip(batch, us):
                w.reg(a['id'], u)
            e['obs'] = [w.meta(c, w.part(a['id'])) for a in batch]
        ok = add(e, f)
        if ok:
            for a, o in zip(batch, e['obs']):
                metas[a['id']] = o
        return ok

    for n, k in enumerate(kinds, 1):
        ev.append({'op': 'support', 'n': n, 'kind': k, 'dims': w.dims[n], 'res': {'k': 'ok'}})
    for _ in range(r.randint(2, 7)):
        if not make():
            return
    for _ in range(r.randint(4, 14)):
        x = r.random()
        if not coll or x < 0.15 or len(coll) < 3 and x < 0.4:
            n = r.choice(list(w.sup))
            c = len(coll) + 1
            how = r.choice(['support', 'support', 'empty', 'empty', 'parts', 'multi'])
            real = r.choice([2, 3]) if r.random() < 0.12 and how in ('support', 'parts') else -1
            e = {'op': 'coll', 'c': c, 'sup': n, 'how': how, 'ids': [], 'real': real}
            if how in ('parts', 'multi'):
                e['ids'] = [i for i in w.prop if (how == 'multi' or metas[i]['sup'] == str(n)) and r.random() < 0.7]
                r.shuffle(e['ids'])

            def f():
                if how == 'support':
                    coll[c] = rqp.PropertyCollection(support = w.sup[n], realization = None if real < 0 else real)
                else:
                    coll[c] = rqp.PropertyCollection(realization = None if real < 0 else real)
                    if how == 'multi':
                        coll[c].model = w.m
                        e['sup'] = 0
                    else:
                        coll[c].set_support(support = w.sup[n])
                    coll[c].add_parts_list_to_dict([w.part(i) for i in e['ids']])
                e['obs'] = look(c)
            if not add(e, f):
                return
            members[c] = e
            continue
        c = r.choice(list(coll))
        single = lambda c: members[c]['real'] < 0
        if x < 0.2:
            if not make():
                return
        elif x < 0.5:
            q = criteria(r, w, list(metas.values()))
            title = r.choice(TITLES + ['', 'A', 'x', 'zq']) if r.random() < 0.35 else None
            mode = r.choice(MODES)
            if title == '':
                title = None
            e = {'op': 'select', 'c': c, 'q': q, 'title': [ord(z) for z in title or ''], 'mode': mode if title else '', 'extra': [], 'rel': ['', 0], 'pid': 0,
                 'form': r.choice(['parts', 'parts', 'singleton', 'view'])}
            rel = None
            if r.random() < 0.12:
                e['rel'] = r.choice([['sup', n] for n in w.sup] + [['ts', 1], ['ts', 2], ['sl', 1]])
                rel = {'sup': w.sup, 'ts': w.ts, 'sl': w.sl}[e['rel'][0]][e['rel'][1]].uuid
            if r.random() < 0.15 and e['form'] == 'view':
                e['extra'] = r.choice([[['k', 'v']], [['k', 'w'], ['j', 'v']], [['source', 'src']]])
            if r.random() < 0.1 and e['form'] != 'parts':
                e['pid'] = r.choice(list(w.prop))
            e['mult'] = r.choice(['exception', 'none', 'first'])
            k = py_criteria(w, q, title, mode, e['extra'], rel, e['pid'], NAMES)

            def f():
                if not single(c) and any(z[0] == 'real' for z in q):
                    return {'ids': [-2]}
                if e['form'] == 'parts':
                    return {'ids': ids(coll[c].selective_parts_list(**k))}
                if e['form'] == 'view':
                    return {'ids': ids(rqp.selective_version_of_collection(coll[c], **k).parts())}
                p = coll[c].singleton(multiple_handling = e['mult'], **k)
                return {'ids': [] if p is None else [w.id_of(p)]}
            add(e, f)
        elif x < 0.65:
            e = {'op': 'summary', 'c': c}

            def f():
                o = coll[c]
                z = {'n': o.number_of_parts(), 'titles': sorted([[ord(y) for y in t] for t in o.titles()]), 'uuids': ids([w.m.part_for_uuid(u) for u in o.uuids()]),
                     'allc': o.all_continuous(), 'alld': o.all_discrete(), 'one': o.all_count_one(), 'kinds': o.property_kind_list(), 'reals': o.realization_list(),
                     'fts': o.facet_type_list(), 'facets': o.facet_list(), 'tis': o.time_index_list(), 'uoms': o.uom_list(), 'idxs': o.unique_indexable_element_list(),
                     'tss': [w.tsint[bu.uuid_as_int(u)] for u in o.time_series_uuid_list()], 'sls': [w.slint[bu.uuid_as_int(u)] for u in o.string_lookup_uuid_list()],
                     'sk': o.establish_has_single_property_kind(), 'si': o.establish_has_single_indexable_element(), 'su': o.establish_has_single_uom(),
                     'mr': o.establish_has_multiple_realizations() if single(c) else False, 'tk': o.establish_time_set_kind(), 'inreal': not single(c)}
                if single(c):
                    o.realization = None
                e['obs'] = z
            if not add(e, f):
                return
        elif x < 0.72 and members[c]['how'] != 'x':
            e = {'op': 'drop', 'c': c, 'ids': [i for i in w.prop if r.random() < 0.3]}

            def f():
                coll[c].remove_parts_list_from_dict([w.part(i) for i in e['ids']])
                e['obs'] = look(c)
            if not add(e, f):
                return
        elif x < 0.9:
            pairs = [(i, j) for i in coll for j in coll if i != j and single(i) and single(j) and members[i]['how'] != 'multi' and members[j]['how'] != 'multi' and members[i]['sup'] == members[j]['sup']]
            if not pairs:
                continue
            c, d = r.choice(pairs)
            how = r.choice(['all', 'some', 'times', 'facets', 'reals'])
            ps = [p for p in coll[d].parts()]
            ex = r.choice(ps) if ps else None
            if how in ('times', 'facets', 'reals') and ex is None:
                continue
            if how == 'times' and coll[d].time_series_uuid_for_part(ex) is None or how == 'facets' and coll[d].points_for_part(ex):
                continue
            ign = r.random() < 0.7
            e = {'op': 'inherit', 'c': c, 'd': d, 'how': how, 'ign': ign, 'q': [], 'title': [], 'mode': '', 'example': w.id_of(ex)}
            if how == 'some':
                e['q'] = criteria(r, w, list(metas.values()))
                title = r.choice(TITLES) if r.random() < 0.3 else None
                e['mode'] = r.choice(MODES) if title else ''
                e['title'] = [ord(z) for z in title or '']
                k = py_criteria(w, e['q'], title, e['mode'], [], None, 0, INAMES)

            def f():
                if how == 'all':
                    coll[c].inherit_parts_from_other_collection(coll[d], ignore_clashes = ign)
                elif how == 'some':
                    coll[c].inherit_parts_selectively_from_other_collection(coll[d], ignore_clashes = ign, **k)
                else:
                    fn = {'times': 'time_series', 'facets': 'facets', 'reals': 'realizations'}[how]
                    getattr(coll[c], f'inherit_similar_parts_for_{fn}_from_other_collection')(coll[d], ex, ignore_clashes = ign)
                e['obs'] = look(c)
            if not add(e, f):
                e['obs'] = []
                del coll[c]
                coll[c] = rqp.PropertyCollection()
                coll[c].set_support(support = w.sup[members[c]['sup']])
                e2 = {'op': 'coll', 'c': c, 'sup': members[c]['sup'], 'how': 'empty', 'ids': [], 'real': -1, 'obs': [], 'res': {'k': 'ok'}}
                ev.append(e2)
        elif x < 0.95:
            if members[c]['sup'] == 0 or not coll[c].number_of_parts() or not single(c) or members[c]['how'] == 'multi':
                continue
            d = len(coll) + 1
            e = {'op': 'pset', 'c': c, 'd': d}

            def f():
                root = coll[c].create_property_set_xml('set')
                coll[c].realization = None    # may have been set whilst finding whether there are several
                coll[d] = rqp.PropertyCollection(support = w.sup[members[c]['sup']], property_set_root = root)
                e['obs'] = look(d)
            if not add(e, f):
                return
            members[d] = dict(members[c])
        else:
            e = {'op': 'reopen', 'kinds': []}

            def f():
                w.reopen()
                coll.clear()
                ks = [w.m.title_for_part(p) for p in w.m.parts(obj_type = 'PropertyKind')]
                e['obs'] = sorted(ks)
            if not add(e, f):
                return


PARTS = {'collections': (driver, 'PropCollTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCPropColl', 'MCPropColl.cfg')
    base = vlib.seed() * 1000003
    c.conform('collections', driver, [{'seed': base + i} for i in range(2500 if quick else 30000)], 'PropCollTrace')
