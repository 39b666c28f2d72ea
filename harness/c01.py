"""C01: catalogue integrity over histories of edits."""
import vlib, os, random
from rqutil import *


class World:
    """Maps the identifiers of the specification to uuids of the real model and projects the real state."""

    def __init__(self):
        self.model = None
        self.uuid = {}
        self.byint = {}

    def know(self, i, u):
        self.uuid[i] = u
        self.byint[bu.uuid_as_int(u)] = i

    def ids_of_parts(self, parts):
        if parts is None:
            return [0]
        return [self.byint.get(self.model.uuid_for_part(p).int, 0) for p in parts]

    def ids_of_ints(self, ints):
        if ints is None:
            return []
        return sorted(self.byint[x] for x in ints if x in self.byint)

    def rels(self, part):
        rp = rqet.rels_part_name_for_part(part)
        root = self.model.root_for_part(rp, is_rels = True)
        if root is None:
            return False, []
        out = []
        for n in root:
            if rqet.stripped_of_prefix(n.tag) != 'Relationship':
                continue
            u = rqet.uuid_in_part_name(n.attrib['Target'])
            role = n.attrib['Type'].split('/')[-1]
            if u is None:
                continue
            i = self.byint.get(u.int)
            if i is None:
                if 'EpcExternal' in n.attrib['Target']:
                    continue
                i = 0
            out.append([i, role])
        return True, out

    def view(self, i):
        m = self.model
        u = self.uuid[i]
        part = m.part_for_uuid(u)
        pres = bool(m.uuid_is_present(u))
        o = {'id': i, 'present': pres, 'part': part is not None, 'listed': False, 'back': False, 'kind': '', 'title': '',
             'extra': [], 'rp': False, 'rels': []}
        if part is not None:
            o['listed'] = part in m.parts() and part in m.list_of_parts()
            o['back'] = bool(bu.matching_uuids(m.uuid_for_part(part), u)) and bu.matching_uuids(m.uuid_for_root(m.root_for_part(part)), u)
            k1 = m.type_of_part(part, strip_obj = True)
            k2 = m.type_of_uuid(u, strip_obj = True)
            o['kind'] = k1 if k1 == k2 else f'{k1}|{k2}'
            t1, t2, t3 = m.title_for_part(part), m.citation_title_for_part(part), m.title(uuid = u)
            o['title'] = t1 if t1 == t2 == t3 else f'{t1}|{t2}|{t3}'
            em = rqet.load_metadata_from_xml(m.root_for_uuid(u)) or {}
            o['extra'] = [[str(a), str(b)] for a, b in sorted(em.items())]
            o['rp'], o['rels'] = self.rels(part)
        if part is None and not pres:
            o.update({k: [] for k in ('r0', 'r1', 'r2', 'rall', 'i0', 'i1', 'i2')})
            return o
        for k, mode in (('r0', 0), ('r1', 1), ('r2', 2), ('rall', None)):
            o[k] = self.ids_of_parts(m.parts(related_uuid = u, related_mode = mode))
        o['i0'] = self.ids_of_ints(m.uuids_as_int_referenced_by_uuid(u))
        o['i1'] = self.ids_of_ints(m.uuids_as_int_referencing_uuid(u))
        o['i2'] = self.ids_of_ints(m.uuids_as_int_softly_related_to_uuid(u))
        return o

    def observe(self):
        m = self.model
        c = [[k, n] for k, n in m.parts_count_by_type() if 'EpcExternal' not in k]
        chk, x = call(m.check_catalogue_dictionaries)
        return {
            'ids': self.ids_of_parts(m.parts()),
            'n': int(m.number_of_parts()) - len(m.external_parts_list()),
            'counts': c,
            'chk': chk,
            'at': [self.view(i) for i in sorted(self.uuid)]
        }


def apply(w, e):
    """Performs one step on the real model; returns the outcome."""
    op = e['op']
    m = w.model
    if op == 'new':
        k, x = call(make_part, m, e['kind'], e['title'], [tuple(p) for p in e['extra']],
                    [w.uuid[r] for r in e['refs']], e['rel'])
        if k == 'ok':
            w.know(e['id'], x)
    elif op == 'copy':
        u = bu.new_uuid()
        w.know(e['new'], u)
        k, x = call(m.copy_part, w.uuid[e['id']], u)
    elif op == 'relate':
        k, x = call(m.create_reciprocal_relationship_uuids, w.uuid[e['a']], e['ra'], w.uuid[e['b']], e['rb'],
                    avoid_duplicates = e['avoid'])
    elif op == 'remove':
        k, x = call(m.remove_part, m.part_for_uuid(w.uuid[e['id']]), e['rr'])
    elif op == 'setsrc':
        k, x = call(m.set_source_for_part, m.part_for_uuid(w.uuid[e['id']]), e['value'])
    elif op == 'rmext':
        k, x = call(m.remove_extra_metadata, w.uuid[e['id']])
    elif op == 'store':
        k, x = call(m.store_epc, only_if_modified = e['only'], quiet = True)
    elif op == 'reopen':
        k, x = call(rq.Model, 'm.epc', quiet = True)
        if k == 'ok':
            w.model = x
    else:
        raise ValueError(op)
    return {'k': k, 'what': x if k == 'exc' else ''}


def driver(params, tr):
    w = World()
    w.model = new_model()
    for e in params['hist']:
        e = dict(e)
        e['res'] = apply(w, e)
        tr['events'].append(e)
        e['obs'] = w.observe()


PARTS = {'catalogue': (driver, 'EpcCatalogueTrace')}


def main(c):
    big = vlib.tier() == 'thorough'
    c.model('MCEpcCatalogue', 'MCEpcCatalogue_thorough.cfg' if big else 'MCEpcCatalogue.cfg')
    hs = vlib.simulate('MCEpcCatalogue', 'GenEpcCatalogue.cfg', 6000 if big else 1200, 19, vlib.seed())
    c.conform('catalogue', driver, [{'hist': h} for h in hs], 'EpcCatalogueTrace')
