"""C03: packages and array files through saving, reopening, copying and the context manager."""
import vlib, os, copy, zipfile, hashlib, h5py
from rqutil import *
from c01 import World
import resqpy.surface as rqs


def canon(node):
    # the value of a type attribute is a qualified name: its prefix is written in one of several ways
    a = sorted((k, rqet.stripped_of_prefix(x) if k.endswith('type') else x) for k, x in node.attrib.items())
    return [node.tag, a, (node.text or '').strip(), [canon(c) for c in node]]


class PWorld(World):

    def __init__(self):
        super().__init__()
        self.fps = {}
        self.toks = {}
        self.last = {}

    def token(self, x, table):
        h = hashlib.sha1(x if isinstance(x, bytes) else repr(x).encode()).hexdigest()
        return table.setdefault(h, len(table) + 1)

    def fp(self, root):
        return self.token(canon(root), self.fps)

    def array(self, i):
        m = self.model
        if m.type_of_uuid(self.uuid[i], strip_obj = True) != 'PointSetRepresentation':
            return []
        p = rqs.PointSet(m, uuid = self.uuid[i])
        return [int(x) for x in p.full_array_ref()[0]]

    def mem(self):
        m = self.model
        full = self.full
        o = {'ids': self.ids_of_parts([p for p in m.parts() if 'EpcExternal' not in p]), 'modified': bool(m.modified), 'at': []}
        if full:
            for i in sorted(self.uuid):
                u = self.uuid[i]
                part = m.part_for_uuid(u)
                if part is None:
                    continue
                z = {'id': i, 'kind': m.type_of_part(part, strip_obj = True), 'fp': self.fp(m.root_for_uuid(u))}
                for k, mode in (('r0', 0), ('r1', 1), ('r2', 2)):
                    z[k] = self.ids_of_parts(m.parts(related_uuid = u, related_mode = mode))
                z['rels'] = self.rels(part)[1]
                k, x = call(self.array, i)
                z['arr'] = x if k == 'ok' else [x]
                o['at'].append(z)
        m.h5_release()
        return o

    def short(self, name):
        """A name for a member of a package that does not depend on the run."""
        n = name.lstrip('/')
        if n == '[Content_Types].xml':
            return 'types'
        if n == 'docProps/core.xml':
            return 'core'
        if n == '_rels/.rels':
            return 'rels'
        u = rqet.uuid_in_part_name(n)
        i = self.byint.get(u.int) if u is not None else None
        if n.startswith('_rels/') and n.endswith('.rels'):
            if 'EpcExternal' in n:
                return 'rext'
            return n if i is None else 'r%d' % i
        if 'EpcExternal' in n:
            return 'ext'
        return n if i is None or '/' in n else 'o%d' % i

    def package(self, file):
        o = {'members': [], 'overrides': [], 'targets': [], 'h5': '', 'parts': []}
        by = {}
        with zipfile.ZipFile(file) as z:
            if z.testzip() is not None:
                o['members'].append('corrupt member')
            for n in z.namelist():
                s = self.short(n)
                o['members'].append(s)
                by[s] = n
            trees = {}
            for s, n in by.items():
                with z.open(n) as f:
                    trees[s] = rqet.parse(f).getroot()
        for c in trees['types']:
            if rqet.stripped_of_prefix(c.tag) == 'Override':
                o['overrides'].append([self.short(c.attrib['PartName']), c.attrib['ContentType']])
        for s in by:
            if s[0] != 'r':
                continue
            for c in trees[s]:
                if c.attrib.get('TargetMode') == 'External':
                    if c.attrib.get('Id') == 'Hdf5File':
                        o['h5'] = c.attrib['Target'][:-3]
                else:
                    o['targets'].append(self.short(c.attrib['Target']))
        for s in by:
            if s[0] == 'o' and s[1:].isdigit():
                r = []
                for c in trees.get('r' + s[1:], []):
                    t = self.short(c.attrib['Target'])
                    if t != 'ext':
                        r.append([int(t[1:]) if t[1:].isdigit() else 0, c.attrib['Type'].split('/')[-1]])
                o['parts'].append({'id': int(s[1:]), 'fp': self.fp(trees[s]), 'rels': r})
        return o

    def disk(self):
        o = {'files': [], 'h5s': []}
        self.last = {f: t for f, t in self.last.items() if os.path.exists(f)}
        for f in sorted(os.listdir('.')):
            with open(f, 'rb') as fp:
                t = self.token(fp.read(), self.toks)
            name, ext = os.path.splitext(f)
            if ext == '.epc':
                z = {'name': name, 'tok': t, 'shown': self.last.get(f) != t, 'pkg': {}}
                if z['shown']:
                    z['pkg'] = self.package(f)
                o['files'].append(z)
            else:
                z = {'name': name, 'tok': t, 'arrays': []}
                with h5py.File(f, 'r') as h:
                    for grp in h.get('RESQML', {}):
                        i = self.byint.get(bu.uuid_from_string(grp).int, 0)
                        z['arrays'].append({'id': i, 'arr': [int(x) for x in h['RESQML'][grp]['points_0'][()][0]]})
                o['h5s'].append(z)
            self.last[f] = t
        return o


def edit(w, e):
    """One change of the model in memory (or of an array); records the fingerprint of the changed part."""
    m = w.model
    for k in ('title', 'value'):
        if k in e:
            e[k] = TEXT[e[k]]
    if 'extra' in e:
        e['extra'] = [[a, TEXT[b]] for a, b in e['extra']]
    if e['op'] == 'new':
        if e['kind'] == 'PointSetRepresentation':
            ps = rqs.PointSet(m, points_array = np.array([e['arr']], dtype = float), crs_uuid = w.uuid[e['refs'][0]], title = e['title'],
                              extra_metadata = dict(e['extra']) or None)
            ps.write_hdf5()
            ps.create_xml()
            u = ps.uuid
        else:
            u = make_part(m, e['kind'], e['title'], [tuple(p) for p in e['extra']], [w.uuid[i] for i in e['refs']], e['rel'])
        w.know(e['id'], u)
    elif e['op'] == 'relate':
        m.create_reciprocal_relationship_uuids(w.uuid[e['a']], e['ra'], w.uuid[e['b']], e['rb'], avoid_duplicates = e['avoid'])
    elif e['op'] == 'remove':
        m.remove_part(m.part_for_uuid(w.uuid[e['id']]), e['rr'])
    elif e['op'] == 'setsrc':
        m.set_source_for_part(m.part_for_uuid(w.uuid[e['id']]), e['value'])
    elif e['op'] == 'rmext':
        m.remove_extra_metadata(w.uuid[e['id']])
    elif e['op'] == 'setarr':
        ps = rqs.PointSet(m, uuid = w.uuid[e['id']])
        key = m.h5_uuid_and_path_for_node(rqet.find_nested_tags(m.root_for_uuid(w.uuid[e['id']]), ['NodePatch', 'Geometry', 'Points']), tag = 'Coordinates')
        m.h5_overwrite_array(key, np.array([e['arr']], dtype = float))
    elif e['op'] == 'patch':
        part = m.part_for_uuid(w.uuid[e['id']])
        root = copy.deepcopy(m.root_for_part(part))
        rqet.find_tag(rqet.find_tag(root, 'Citation'), 'Title').text = e['title']
        m.patch_root_for_part(part, root)
    elif e['op'] == 'copy':
        u = bu.new_uuid()
        m.copy_part(w.uuid[e['id']], u)
        w.know(e['new'], u)
    if 'fp' in e:
        e['fp'] = w.fp(m.root_for_uuid(w.uuid[e['new' if e['op'] == 'copy' else 'id']]))


TEXT = {'t0': 'plain title', 't1': 'B & C <d> "q" \'r\' \u00e9\u03a9 100% &amp; x', 'v': 'a<b & c>d "e"', 's0': 'lab & co', 's1': '<none>'}


class Boom(Exception):
    pass


def step(w, e):
    op = e['op']
    if op == 'edit':
        edit(w, e['edit'])
    elif op == 'store':
        w.model.store_epc((e['to'] + '.epc') if e['to'] else None, only_if_modified = e['only'], quiet = True)
    elif op == 'open':
        w.model = rq.Model(e['name'] + '.epc', full_load = e['full'], quiet = True)
        w.full = e['full']
        if w.full:
            w.model.h5_set_default_override(e['ovr'])
            w.model.h5_file_name()
    elif op == 'copyopen':
        w.model = rq.Model(e['name'] + '.epc', copy_from = e['from'] + '.epc', quiet = True)
        w.full = True
        w.model.h5_file_name()
    elif op == 'create':
        w.model = rq.new_model(e['name'] + '.epc', quiet = True)
        w.full = True
    elif op == 'ctx':
        try:
            with rq.ModelContext(e['name'] + '.epc', mode = e['mode']) as m:
                w.model = m
                w.full = True
                m.h5_file_name()
                if e['edit']['op'] != 'nothing':
                    edit(w, e['edit'])
                if e['fail']:
                    raise Boom()
        except Boom:
            pass
    elif op == 'read':
        m = w.model
        for i in w.uuid:
            if m.uuid_is_present(w.uuid[i]):
                m.title(uuid = w.uuid[i])
                w.array(i)
        m.parts(sort_by = 'newest')
        m.as_graph()
    w.model.h5_release()


def driver(params, tr):
    w = PWorld()
    for e in params['hist']:
        tr['events'].append(e)
        k, x = call(step, w, e)
        e['res'] = {'k': k, 'what': x if k == 'exc' else ''}
        e['obs'] = dict(w.mem(), **w.disk())


PARTS = {'packages': (driver, 'EpcPackageTrace')}


def main(c):
    big = vlib.tier() == 'thorough'
    c.model('MCEpcPackage', 'MCEpcPackage_thorough.cfg' if big else 'MCEpcPackage.cfg')
    hs = vlib.simulate('MCEpcPackage', 'GenEpcPackage.cfg', 4000 if big else 500, 21, vlib.seed())
    c.conform('packages', driver, [{'hist': h} for h in hs], 'EpcPackageTrace')
