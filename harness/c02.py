"""C02: queries over catalogues."""
import vlib, os, random
from rqutil import *

KINDS = ['OrganizationFeature', 'LocalDepth3dCrs', 'GenericA', 'GenericB', 'TectonicBoundaryFeature', 'FaultInterpretation', 'PointSetRepresentation']
TITLES = ['base', 'Base', 'base map', 'map of Base', 'MAP', 'a', 'ab', 'aba', ' aba', 'aba ', 'b', 'BASE', 'fault 1', 'Fault 10', 'fault', 'caf\u00e9', 'CAF\u00c9', '1', '10']
ASKS = TITLES + ['as', 'map', 'e', 'BA', ' base', 'zzz', '\u00e9', 'fault 1 ']
MODES = ['is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']
META = [['Flavour', 'x'], ['Flavour', 'y'], ['Tone', 'x'], ['Tone', '3']]
EXTRA = [['k', 'v1'], ['k', 'v2'], ['source', 'lab'], ['n', '1']]
TIMES = ['2019-01-02T03:04:05Z', '2020-01-02T03:04:05Z', '2020-01-02T03:04:06Z', '2021-11-30T23:59:59Z', '2020-10-02T03:04:05Z', '2018-12-31T00:00:00Z']


def codes(x):
    return [ord(c) for c in x]


def gen(seed):
    """A random catalogue history with queries; a JSON list of steps in terms of small identifiers."""
    r = random.Random(seed)
    steps, alive, kind, plain = [], [], {}, []
    n = 0
    nq = 0
    while nq < 14:
        x = r.random()
        if (x < 0.45 and n < 10) or not alive or (nq == 0 and n < 4):
            n += 1
            k = r.choice(KINDS)
            refs = []
            if k == 'FaultInterpretation':
                c = [a for a in alive if kind[a] == 'TectonicBoundaryFeature']
                if not c:
                    k = 'TectonicBoundaryFeature'
                else:
                    refs = [r.choice(c)]
            elif k in ('GenericA', 'GenericB', 'PointSetRepresentation'):
                refs = r.sample(plain, min(len(plain), r.choice([0, 1, 1, 2, 3])))
            kind[n] = k
            alive.append(n)
            generic = k in ('GenericA', 'GenericB', 'PointSetRepresentation')
            keys = set()
            meta = []
            if generic:
                for m in r.sample(META, r.randint(0, 2)):
                    if m[0] not in keys:
                        keys.add(m[0])
                        meta.append(m)
            keys = set()
            extra = []
            for m in r.sample(EXTRA, r.randint(0, 2)):
                if m[0] not in keys:
                    keys.add(m[0])
                    extra.append(m)
            sub = r.choice(['', '', '', 'sub', 'sub/deep', 'other']) if generic and not refs else ''
            if not sub:
                plain.append(n)
            steps.append({'op': 'new', 'id': n, 'kind': k, 'title': r.choice(TITLES), 'extra': extra, 'meta': meta, 'refs': refs,
                          'rel': r.random() < 0.8, 'sub': sub, 'created': r.choice(TIMES)})
        elif x < 0.55 and len(plain) > 1:
            a, b = r.sample(plain, 2)
            steps.append({'op': 'relate', 'a': a, 'ra': 'sourceObject', 'b': b, 'rb': 'destinationObject', 'avoid': True})
        elif x < 0.6 and len(alive) > 3:
            a = r.choice(alive)
            alive.remove(a)
            plain = [b for b in plain if b != a]
            steps.append({'op': 'remove', 'id': a, 'rr': True})
        elif x < 0.64:
            steps.append({'op': 'cycle'})
        else:
            nq += 1
            # a criterion is given with a probability that leaves queries with few and with many criteria
            d = r.choice([0.12, 0.25, 0.4])
            q = {'op': 'query', 'has_list': r.random() < d, 'list': [], 'has_uuid': r.random() < d * 0.5, 'uuid': r.choice(range(1, n + 1)),
                 'has_type': r.random() < d, 'type': r.choice(KINDS + ['NoSuchThing']), 'objprefix': r.random() < 0.3,
                 'has_title': r.random() < d * 1.5, 'title': r.choice(ASKS), 'mode': r.choice(MODES), 'cs': r.random() < 0.5,
                 'metadata': [], 'extra': [], 'has_rel': r.random() < d, 'rel': r.choice(alive), 'relmode': r.choice([0, 1, 2, 9, 9]),
                 'has_sub': r.random() < d * 0.5, 'sub': r.choice(['sub', '/sub/', 'sub/deep', 'oth', '/other']),
                 'sort': r.choice(['none', 'none', 'title', 'uuid', 'type', 'newest', 'oldest'])}
            if q['has_list']:
                q['list'] = r.sample(alive, r.randint(0, len(alive)))
            if r.random() < d:
                q['metadata'] = r.sample(META, 1)
            if r.random() < d:
                q['extra'] = r.sample(EXTRA, r.choice([1, 1, 2]))
                if len({e[0] for e in q['extra']}) < len(q['extra']):
                    q['extra'] = q['extra'][:1]
            steps.append(q)
    return steps


def driver(params, tr):
    from c01 import World
    w = World()
    w.model = new_model()
    for st in gen(params['seed']):
        e = dict(st)
        m = w.model
        if e['op'] == 'new':
            meta, created = e.pop('meta'), e.pop('created')
            k, u = call(make_part, m, e['kind'], e['title'], [tuple(p) for p in e['extra']], [w.uuid[i] for i in e['refs']], e['rel'], sub = e['sub'] or None)
            e['res'] = {'k': k}
            if k == 'ok':
                w.know(e['id'], u)
                root = m.root_for_uuid(u)
                rqet.find_tag(rqet.find_tag(root, 'Citation'), 'Creation').text = created
                for a, b in meta:
                    node = rqet.SubElement(root, '{http://www.energistics.org/energyml/data/resqmlv2}' + a)
                    node.text = b
                e['attr'] = {'title': codes(e['title']), 'meta': meta, 'uuid': codes(str(u)),
                             'name': codes('obj_' + e['kind']), 'created': codes(created), 'sub': codes(e['sub'])}
        elif e['op'] == 'relate':
            k, x = call(m.create_reciprocal_relationship_uuids, w.uuid[e['a']], e['ra'], w.uuid[e['b']], e['rb'], avoid_duplicates = e['avoid'])
            e['res'] = {'k': k}
        elif e['op'] == 'remove':
            k, x = call(m.remove_part, m.part_for_uuid(w.uuid[e['id']]), e['rr'])
            e['res'] = {'k': k}
        elif e['op'] == 'cycle':
            k, x = call(m.store_epc, quiet = True)
            if k == 'ok':
                k, x = call(rq.Model, 'm.epc', quiet = True)
                if k == 'ok':
                    w.model = x
            e['res'] = {'k': k}
        else:
            e['res'] = query(w, e)
        tr['events'].append(e)


def query(w, q):
    m = w.model
    a = {}
    if q['has_list']:
        a['parts_list'] = [m.part_for_uuid(w.uuid[i]) for i in q['list']]
    if q['has_uuid']:
        a['uuid'] = w.uuid[q['uuid']]
    if q['has_type']:
        a['obj_type'] = ('obj_' if q['objprefix'] else '') + q['type']
    if q['has_title']:
        a.update(title = q['title'], title_mode = q['mode'], title_case_sensitive = q['cs'])
    q['title'] = codes(q['title'])
    if q['metadata']:
        a['metadata'] = {k: (int(v) if v.isdigit() else v) for k, v in q['metadata']}
    if q['extra']:
        a['extra'] = {k: v for k, v in q['extra']}
    if q['has_rel']:
        a['related_uuid'] = w.uuid[q['rel']]
        if q['relmode'] != 9:
            a['related_mode'] = q['relmode']
    if q['has_sub']:
        a['epc_subdir'] = q['sub']
    q['sub'] = codes(q['sub'].strip('/') + '/')
    b = dict(a)
    if q['sort'] != 'none':
        b['sort_by'] = q['sort']

    def idu(u):
        return w.byint.get(bu.uuid_as_int(u), -3)

    def idr(root):
        return idu(m.uuid_for_root(root))

    def idp(p):
        return idu(m.uuid_for_part(p))

    out = {'k': 'ok'}
    for name, f, cv in (('parts', m.parts, idp), ('uuids', m.uuids, idu), ('roots', m.roots, idr), ('titles', m.titles, codes)):
        k, x = call(f, **b)
        if k != 'ok':
            return {'k': 'exc', 'what': name + ' ' + x}
        out[name] = [cv(y) for y in x]
    out['single'] = []
    for how in ('exception', 'none', 'first', 'newest', 'oldest'):
        z = {'how': how}
        for name, f, cv in (('part', m.part, idp), ('uuid', m.uuid, idu), ('root', m.root, idr), ('title', m.title, codes)):
            k, x = call(f, multiple_handling = how, **a)
            if k != 'ok':
                y = -1 if x == 'ValueError' else -2
            elif x is None:
                y = 0
            else:
                y = cv(x)
            z[name] = [y] if name == 'title' and not isinstance(y, list) else y
        out['single'].append(z)
    return out


PARTS = {'queries': (driver, 'EpcQueryTrace')}


def main(c):
    big = vlib.tier() == 'thorough'
    c.model('MCEpcQuery', 'MCEpcQuery.cfg')
    n = 6000 if big else 700
    c.conform('queries', driver, [{'seed': vlib.seed() * 1000003 + i} for i in range(n)], 'EpcQueryTrace')
