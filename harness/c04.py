"""C04: copying objects between models."""
import vlib, os, random, copy
from objs import *
from c03 import canon

PLAIN = [k for k in TABLE if not TABLE[k][1] and k != 'StratigraphicUnitFeature']
USED = [k for k in TABLE if k not in ('StratigraphicUnitFeature', 'BoundaryFeatureInterpretation', 'GenericFeatureInterpretation', 'GeologicUnitInterpretation')]


def gen(seed):
    r = random.Random(seed)
    kinds = r.sample(USED, 5) + ['GenericA', 'GenericProperty']
    need = {'PointSetRepresentation': 'LocalDepth3dCrs'}
    for k in list(kinds):
        if k in TABLE:
            kinds += TABLE[k][1]
    kinds += r.choice([[], ['PointSetRepresentation', 'LocalDepth3dCrs'], ['PointSetRepresentation', 'PointSetRepresentation', 'LocalDepth3dCrs']])
    kinds = sorted(kinds)
    titles = ['t', 'u'] if r.random() < 0.7 else ['t']
    n = 0
    have = {'src': {}, 'tgt': {}}      # id -> kind
    refs_of = {'src': {}, 'tgt': {}}
    steps = []

    def new(m, k = None):
        nonlocal n
        k = k or r.choice(kinds)
        refs = []
        if k in TABLE:
            for rk in TABLE[k][1]:
                c = [i for i, x in have[m].items() if x == rk]
                if not c or r.random() < 0.3:
                    refs.append(new(m, rk))
                else:
                    refs.append(r.choice(c))
        elif k == 'PointSetRepresentation':
            c = [i for i, x in have[m].items() if x == 'LocalDepth3dCrs'] or [new(m, 'LocalDepth3dCrs')]
            refs = [r.choice(c)] * r.choice([1, 1, 2])
        else:
            c = list(have[m])
            refs = r.choices(c, weights = [3 if have[m][i] == 'PointSetRepresentation' else 1 for i in c], k = r.choice([0, 1, 2, 3])) if c else []
        n += 1
        ch = TABLE[k][0] if k in TABLE else []
        pick = [0 if r.random() < 0.75 else r.randrange(len(c)) for c in ch]
        steps.append({'op': 'new', 'm': m, 'id': n, 'kind': k, 'title': r.choice(titles), 'pick': pick, 'ex': 0 if r.random() < 0.8 else r.randrange(4),
                      'refs': refs, 'arr': [r.randrange(100) for _ in range(3 * len(refs))] if k == 'PointSetRepresentation' else [],
                      'prop': k == 'GenericProperty', 'real': r.choice([-1, 3]) if k == 'GenericProperty' else -1})
        have[m][n] = k
        refs_of[m][n] = refs
        return n

    def relate(m):
        c = list(have[m])
        if len(c) > 1:
            a, b = r.sample(c, 2)
            steps.append({'op': 'relate', 'm': m, 'a': a, 'b': b})

    for _ in range(r.randint(2, 7)):
        new('src')
    for _ in range(r.randint(0, 4)):
        new('tgt')
    for m in ('src', 'tgt'):
        for _ in range(r.choice([0, 1, 2, 3])):
            relate(m)
    cons0 = r.random() < 0.7
    for _ in range(r.randint(2, 6)):
        x = r.random()
        cons = cons0 if r.random() < 0.85 else not cons0
        if x < 0.12:
            new(r.choice(['src', 'tgt']))
        elif x < 0.2:
            relate('src')
        elif x < 0.34:
            steps.append({'op': 'remove', 'm': r.choice(['tgt', 'tgt', 'tgt', 'src']), 'pickany': r.random()})
        elif x < 0.4 and cons0:
            steps.append({'op': 'force', 'pickany': r.random()})
        elif x < 0.8:
            steps.append({'op': 'copy', 'p': r.choice(list(have['src'])), 'cons': cons, 'real': r.choice([-1, -1, 5]), 'by': r.choice(['part', 'uuid'])})
        else:
            steps.append({'op': 'copyall', 'cons': cons, 'real': r.choice([-1, -1, 7])})
    return steps


class Two:

    def __init__(self):
        self.m = {'src': new_model('src.epc'), 'tgt': new_model('tgt.epc')}
        self.uuid, self.byint, self.made, self.fps = {}, {}, {}, {}

    def fp(self, root):
        root = copy.deepcopy(root)
        for node in rqet.list_obj_references(root, skip_hdf5 = False):
            ext = 'EpcExternal' in rqet.find_tag_text(node, 'ContentType')
            rqet.find_tag(node, 'UUID').text = '*'
            if ext:
                rqet.find_tag(node, 'Title').text = '*'
        ri = rqet.find_tag(root, 'RealizationIndex')
        if ri is not None:
            root.remove(ri)
        return self.fps.setdefault(repr(canon(root)), len(self.fps) + 1)

    def view(self, which):
        m = self.m[which]
        out = []
        for p in m.parts():
            if 'EpcExternal' in p:
                continue
            u = m.uuid_for_part(p)
            i = self.byint.get(u.int, -1)
            root = m.root_for_part(p)
            made = self.made.get(i, {'vary': [], 'prop': False})
            em = rqet.load_metadata_from_xml(root) or {}
            em.pop('timeframe', None)
            z = {'id': i, 'kind': m.type_of_part(p, strip_obj = True), 'title': m.citation_title_for_part(p), 'vary': made['vary'], 'prop': made['prop'],
                 'extra': [[a, b] for a, b in em.items()], 'fp': self.fp(root),
                 'refs': [self.byint.get(bu.uuid_from_string(rqet.find_tag_text(x, 'UUID')).int, 0) for x in rqet.list_obj_references(root)]}
            ri = rqet.find_tag_int(root, 'RealizationIndex')
            z['real'] = -1 if ri is None else ri
            rr = m.root_for_part(rqet.rels_part_name_for_part(p), is_rels = True)
            z['arr'] = []
            if z['kind'] == 'PointSetRepresentation':
                k, x = call(lambda: [int(y) for y in rqs.PointSet(m, uuid = u).full_array_ref().flatten()])
                z['arr'] = x if k == 'ok' else [-1]
            for k, mode in (('r0', 0), ('r1', 1), ('r2', 2)):
                z[k] = [self.byint.get(m.uuid_for_part(q).int, -1) for q in m.parts(related_uuid = u, related_mode = mode)]
            z['relok'] = True
            ext = {bu.uuid_from_string(rqet.find_tag_text(x, 'UUID')).int for x in rqet.list_obj_references(root, skip_hdf5 = False)
                   if 'EpcExternal' in rqet.find_tag_text(x, 'ContentType')}
            rel_ext = {t.attrib['Target'] for t in (rr if rr is not None else []) if t.attrib['Type'].endswith('mlToExternalPartProxy')} if ext else set()
            z['h5ok'] = not ext or (len(ext) == 1 and min(ext) in m.uuid_part_dict and m.uuid_part_dict[min(ext)] in rel_ext)
            if rr is not None:
                for n in rr:
                    t = n.attrib['Target']
                    if n.attrib.get('TargetMode') != 'External' and m.root_for_part(t.lstrip('/')) is None:
                        z['relok'] = False
            out.append(z)
        m.h5_release()
        return out


def step(w, e):
    op = e['op']
    if op == 'new':
        m = w.m[e['m']]
        refs = [w.uuid[i] for i in e['refs']]
        if e['kind'] == 'PointSetRepresentation':
            arrs = [e['arr'][i:i + 3] for i in range(0, len(e['arr']), 3)]
            u = point_set(m, e['title'], arrs, refs[0], e['ex'])
        elif e['kind'] in TABLE:
            u = make_obj(m, e['kind'], e['title'], e['pick'], e['ex'], refs)
        else:
            u = bu.new_uuid()
            root = generic_part(m, e['kind'], u, e['title'], EM[e['ex']], refs, True)
            if e['real'] >= 0:
                n = rqet.SubElement(root, '{http://www.energistics.org/energyml/data/resqmlv2}RealizationIndex')
                n.text = str(e['real'])
        w.uuid[e['id']] = u
        w.byint[bu.uuid_as_int(u)] = e['id']
        w.made[e['id']] = {'vary': vary_of(e['kind'], e['pick']), 'prop': e['prop']}
        e['vary'] = w.made[e['id']]['vary']
        e['extra'] = [[a, b] for a, b in (EM[e['ex']] or {}).items()]
        e['fp'] = w.fp(m.root_for_uuid(u))
        return {}
    if op == 'relate':
        w.m[e['m']].create_reciprocal_relationship_uuids(w.uuid[e['a']], 'destinationObject', w.uuid[e['b']], 'sourceObject')
        return {}
    if op == 'remove':
        m = w.m[e['m']]
        m.remove_part(m.part_for_uuid(w.uuid[e['id']]), True)
        return {}
    t, s = w.m['tgt'], w.m['src']
    if op == 'force':
        t.force_consolidation_uuid_equivalence(w.uuid[e['a']], w.uuid[e['b']])
        return {}
    real = None if e['real'] < 0 else e['real']
    t.modified = False
    if op == 'copyall':
        t.copy_all_parts_from_other_model(s, realization = real, consolidate = e['cons'])
        u = None
    elif e['by'] == 'uuid':
        u = t.copy_uuid_from_other_model(s, w.uuid[e['p']], realization = real, consolidate = e['cons'])
    else:
        p = t.copy_part_from_other_model(s, s.part_for_uuid(w.uuid[e['p']]), realization = real, consolidate = e['cons'])
        u = None if p is None else t.uuid_for_part(p)
    r = {'part': 0 if u is None else w.byint.get(bu.uuid_as_int(u), -1), 'modified': bool(t.modified)}
    t.check_catalogue_dictionaries()
    return r


def driver(params, tr):
    w = Two()
    steps = gen(params['seed'])
    obs = {'src': [], 'tgt': []}
    for e in steps:
        # steps whose choice depends on what is in the models
        if e['op'] == 'remove':
            o = obs[e['m']]
            c = [z['id'] for z in o if not any(z['id'] in y['refs'] for y in o)]
            x = e.pop('pickany')
            if not c:
                continue
            e['id'] = c[int(x * len(c))]
        elif e['op'] == 'force':
            ti, si = {z['id'] for z in obs['tgt']}, {z['id'] for z in obs['src']}
            x = e.pop('pickany')
            c = [(a['id'], b['id']) for a in obs['src'] for b in obs['tgt'] if a['kind'] == b['kind'] and a['id'] not in ti and b['id'] not in si and a['kind'] in TABLE
                 and a['id'] not in getattr(w, 'forced', {})]
            if not c:
                continue
            e['a'], e['b'] = c[int(x * len(c))]
            w.forced = getattr(w, 'forced', {})
            if e['b'] in w.forced:
                continue
            w.forced[e['a']] = e['b']
        elif e['op'] == 'new':
            ids = {z['id'] for z in obs[e['m']]}
            if not set(e['refs']) <= ids:
                continue
        elif e['op'] == 'relate':
            ids = {z['id'] for z in obs[e['m']]}
            if not {e['a'], e['b']} <= ids:
                continue
        elif e['op'] == 'copy' and e['p'] not in {z['id'] for z in obs['src']}:
            continue
        tr['events'].append(e)
        k, x = call(step, w, e)
        e['res'] = dict({'k': k, 'what': x if k == 'exc' else ''}, **(x if k == 'ok' else {}))
        if k != 'ok':
            return
        obs = {'src': w.view('src'), 'tgt': w.view('tgt')}
        e['obs'] = obs


PARTS = {'merges': (driver, 'EpcMergeTrace')}


def main(c):
    big = vlib.tier() == 'thorough'
    c.model('MCEpcMerge', 'MCEpcMerge_thorough.cfg' if big else 'MCEpcMerge.cfg')
    n = 8000 if big else 700
    c.conform('merges', driver, [{'seed': vlib.seed() * 1000003 + i} for i in range(n)], 'EpcMergeTrace')
