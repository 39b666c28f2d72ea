"""A model with supporting representations, time series, lookups and properties; shared by C08 and C09."""
import random, math
import numpy as np
from rqutil import *
from c05 import enc, arr, FLOATS
import resqpy.property as rqp
import resqpy.grid as grr
import resqpy.surface as rqs
import resqpy.lines as rql
import resqpy.well as rqw
import resqpy.time_series as rts

NONE = 999999


def make_support(m, kind, r, n):
    """Returns (object, dims) of a new supporting representation."""
    crs = m.crs_uuid
    t = f's{n}'
    if kind == 'grid':
        d = [r.randint(1, 3) for _ in range(3)]
        o = grr.RegularGrid(m, extent_kji = tuple(d), crs_uuid = crs, title = t)
        o.create_xml(add_cell_length_properties = False)
    elif kind == 'mesh':
        d = [r.randint(2, 3), r.randint(2, 4)]
        o = rqs.Mesh(m, mesh_flavour = 'regular', nj = d[0], ni = d[1], origin = (0., 0., 0.), dxyz_dij = np.array([[1., 0., 0.], [0., 1., 0.]]), crs_uuid = crs, title = t)
        o.create_xml()
    elif kind == 'points':
        d = [r.randint(1, 5)]
        o = rqs.PointSet(m, points_array = np.arange(d[0] * 3, dtype = float).reshape((-1, 3)), crs_uuid = crs, title = t)
        o.write_hdf5()
        o.create_xml()
    elif kind == 'polyline':
        n = r.randint(3, 5)
        c = r.random() < 0.5
        d = [n, int(c)]
        o = rql.Polyline(m, set_coord = np.array([(x, x * x, 0.) for x in range(n)], dtype = float), set_crs = crs, is_closed = c, title = t)
        o.write_hdf5()
        o.create_xml()
    elif kind == 'surface':
        n = r.randint(3, 5)
        d = [n, n - 2]
        o = rqs.Surface(m, crs_uuid = crs, title = t)
        o.set_from_triangles_and_points(np.array([(0, i + 1, i + 2) for i in range(n - 2)]), np.array([(x, x * x, 0.) for x in range(n)], dtype = float))
        o.write_hdf5()
        o.create_xml()
    elif kind == 'frame':
        n = r.randint(2, 5)
        d = [n]
        datum = rqw.MdDatum(m, crs_uuid = crs, location = (0., 0., 0.))
        datum.create_xml()
        tr = rqw.Trajectory(m, md_datum = datum, length_uom = 'm', well_name = 'w', mds = np.array([0., 10.]),
                            control_points = np.array([(0., 0., 0.), (0., 0., 10.)]))
        tr.write_hdf5()
        tr.create_xml()
        o = rqw.WellboreFrame(m, trajectory = tr, mds = np.arange(n, dtype = float), title = t)
        o.write_hdf5()
        o.create_xml()
    return o, d


INDEXABLE = {'grid': ['cells', 'columns', 'layers', 'faces', 'nodes', 'nodes per cell', 'faces per cell', 'column edges', 'edges per column', 'I0', 'J0'],
             'mesh': ['cells', 'nodes'], 'points': ['nodes'], 'polyline': ['intervals', 'nodes'], 'surface': ['triangles', 'nodes', 'faces'], 'frame': ['nodes', 'intervals']}
DEFAULT = {'grid': 'cells', 'mesh': 'cells', 'points': 'nodes', 'polyline': 'intervals', 'surface': 'triangles', 'frame': 'nodes'}


def shape_of(kind, d, idx, direction):
    if kind == 'grid':
        k, j, i = d
        if idx == 'faces':
            if direction == 'I':
                return [k, j, i + 1]
            if direction == 'J':
                return [k, j + 1, i]
            if direction == 'K':
                return [k + 1, j, i]
            return [(k + 1) * j * i + k * (j + 1) * i + k * j * (i + 1)]
        return {'cells': [k, j, i], 'columns': [j, i], 'layers': [k], 'nodes': [k + 1, j + 1, i + 1], 'nodes per cell': [k, j, i, 2, 2, 2],
                'faces per cell': [k, j, i, 6], 'column edges': [j * (i + 1) + (j + 1) * i], 'edges per column': [j, i, 4], 'I0': [k, j], 'J0': [k, i]}[idx]
    if kind == 'mesh':
        return [d[0] - 1, d[1] - 1] if idx == 'cells' else d
    if kind == 'points':
        return d
    if kind == 'polyline':
        return [d[0]] if idx == 'nodes' or d[1] else [d[0] - 1]
    if kind == 'surface':
        return [d[0]] if idx == 'nodes' else [d[1]]
    return [d[0]] if idx == 'nodes' else [d[0] - 1]


class World:

    def __init__(self, r, kinds):
        self.r = r
        self.m = m = new_model('p.epc')
        import resqpy.crs as rqc
        c = rqc.Crs(m)
        c.create_xml()
        self.sup, self.skind, self.dims = {}, {}, {}
        for n, k in enumerate(kinds, 1):
            o, d = make_support(m, k, r, n)
            self.sup[n], self.skind[n], self.dims[n] = o, k, d
        self.ts = {}
        for n in (1, 2):
            t = rts.TimeSeries(m, first_timestamp = f'202{n}-01-01', title = f'ts{n}')
            for i in range(5):
                t.add_timestamp(f'202{n}-0{i + 2}-01')
            t.create_xml()
            self.ts[n] = t
        self.sl = {}
        for n in (1, 2):
            t = rqp.StringLookup(m, int_to_str_dict = {0: 'a', 1: f'b{n}', 2: 'c'}, title = f'sl{n}')
            t.create_xml()
            self.sl[n] = t
        self.pk = {}
        for n in (1,):
            k = rqp.PropertyKind(m, title = 'mine', parent_property_kind = 'continuous')
            k.create_xml()
            self.pk['mine'] = k.uuid
        self.prop = {}     # id -> uuid
        self.byint = {}
        self.supint = {bu.uuid_as_int(o.uuid): n for n, o in self.sup.items()}
        self.tsint = {bu.uuid_as_int(o.uuid): n for n, o in self.ts.items()}
        self.slint = {bu.uuid_as_int(o.uuid): n for n, o in self.sl.items()}

    def reg(self, i, u):
        self.prop[i] = u
        self.byint[bu.uuid_as_int(u)] = i

    def part(self, i):
        return self.m.part_for_uuid(self.prop[i])

    def id_of(self, part):
        return 0 if part is None else self.byint.get(bu.uuid_as_int(self.m.uuid_for_part(part)), -1)

    def reopen(self):
        self.m.store_epc()
        self.m.h5_release()
        self.m = rq.Model('p.epc')
        for n, o in list(self.sup.items()):
            u = o.uuid
            k = self.skind[n]
            self.sup[n] = {'grid': lambda: grr.any_grid(self.m, uuid = u, find_properties = False), 'mesh': lambda: rqs.Mesh(self.m, uuid = u), 'points': lambda: rqs.PointSet(self.m, uuid = u),
                           'polyline': lambda: rql.Polyline(self.m, uuid = u), 'surface': lambda: rqs.Surface(self.m, uuid = u), 'frame': lambda: rqw.WellboreFrame(self.m, uuid = u)}[k]()

    # -- what is recorded of a property

    def num(self, v):
        if v is None:
            return NONE
        if isinstance(v, str):
            v = float(v)
        v = float(v)
        return NONE - 1 if math.isnan(v) else int(round(v * 4))

    def meta(self, c, part):
        """The attributes a collection holds for a part."""
        none = lambda x: 'None' if x is None else str(x)
        cv = c.constant_value_for_part(part)
        nv = c.null_value_for_part(part)
        lpk = c.local_property_kind_uuid(part)
        em = c.extra_metadata_for_part(part) or {}
        return {'sup': str(self.supint.get(bu.uuid_as_int(bu.uuid_from_string(str(c.support_uuid_for_part(part)))), -1)) if c.support_uuid_for_part(part) is not None else 'None',
                'real': none(c.realization_for_part(part)), 'cont': none(bool(c.continuous_for_part(part))), 'points': none(bool(c.points_for_part(part))),
                'count': none(c.count_for_part(part)), 'idx': none(c.indexable_for_part(part)), 'kind': none(c.property_kind_for_part(part)),
                'ft': none(c.facet_type_for_part(part)), 'facet': none(c.facet_for_part(part)), 'title': [ord(x) for x in c.citation_title_for_part(part)],
                'ts': 'None' if c.time_series_uuid_for_part(part) is None else str(self.tsint.get(bu.uuid_as_int(c.time_series_uuid_for_part(part)), -1)),
                'ti': none(c.time_index_for_part(part)), 'uom': none(c.uom_for_part(part)),
                'sl': 'None' if c.string_lookup_uuid_for_part(part) is None else str(self.slint.get(bu.uuid_as_int(c.string_lookup_uuid_for_part(part)), -1)),
                'cat': none(bool(c.part_is_categorical(part))),
                'lpk': 'None' if lpk is None else none(self.m.title(uuid = lpk)), 'min': self.num(c.minimum_value_for_part(part)), 'max': self.num(c.maximum_value_for_part(part)),
                'null': 'nan' if isinstance(nv, float) and math.isnan(nv) else none(nv), 'const': self.num(cv),
                'extra': sorted([[k, v] for k, v in em.items()]), 'id': self.byint.get(bu.uuid_as_int(c.uuid_for_part(part)), -1)}


TITLES = ['ab', 'abab', 'zq', 'ab zq', 'PORO', 'KX', 'Xab']
KINDS = ['porosity', 'pressure', 'rock permeability', 'permeability rock', 'mine', 'other kind', 'continuous', 'code', 'index', 'facies', 'discrete', '']
CONT = {'porosity', 'pressure', 'rock permeability', 'permeability rock', 'mine', 'other kind', 'continuous', ''}
DISC = {'code', 'index', 'facies', 'discrete', 'other kind', ''}


def gen_prop(r, w, i, sup = None, plain = False):
    """Arguments for making a property."""
    n = sup or r.choice(list(w.sup))
    sk = w.skind[n]
    a = {'id': i, 'sup': n, 'sk': sk, 'dims': w.dims[n]}
    a['cont'] = r.random() < 0.6
    a['points'] = a['cont'] and r.random() < 0.12
    a['cat'] = 0 if a['cont'] else r.choice([0, 1, 2])
    a['title'] = r.choice(TITLES)
    a['tc'] = [ord(x) for x in a['title']]
    a['kind'] = r.choice([k for k in KINDS if k in (CONT if a['cont'] else DISC)])
    a['idx'] = '' if r.random() < 0.4 else r.choice(INDEXABLE[sk])
    a['ft'], a['facet'] = ('', '') if r.random() < 0.5 or a['points'] else r.choice([('direction', 'I'), ('direction', 'J'), ('what', 'oil'), ('netgross', 'net'), ('direction', '') if a['idx'] != 'faces' else ('what', 'x')])
    if a['idx'] == 'faces' and sk == 'grid' and a['ft'] != 'direction' and r.random() < 0.5 and not a['points']:
        a['ft'], a['facet'] = 'direction', r.choice('IJK')
    a['uom'] = r.choice(['m', 'mD', 'm3/m3', 'Euc', 'zz']) if a['cont'] else r.choice(['', 'm']) if r.random() < 0.1 else ''
    if a['cont'] and a['kind'] in ('rock permeability', 'permeability rock') and r.random() < 0.4:
        a['uom'] = ''
    a['real'] = r.choice([-1, -1, -1, 0, 1, 3])
    a['ts'], a['ti'] = (r.choice([1, 2]), r.randint(0, 4)) if r.random() < 0.4 else (0, -1)
    a['count'] = r.choice([2, 3]) if r.random() < 0.15 else 1
    a['null'] = r.choice([-1, 0, 2, 7]) if not a['cont'] and r.random() < 0.4 else NONE
    a['extra'] = [[k, v] for k, v in r.choice([{}, {}, {'k': 'v'}, {'k': 'w', 'j': 'v'}]).items()]
    a['source'] = r.choice(['', 'src'])
    a['const'] = NONE
    a['expand'] = False
    kconst = r.random() < 0.15 and not a['points'] and a['count'] == 1
    a['dtype'] = r.choice(['float64', 'float64', 'float32']) if a['cont'] else r.choice(['int32', 'int64', 'int8', 'bool'] if a['kind'] not in ('discrete', '') else ['int32', 'int64'])
    direction = a['facet'] if a['ft'] == 'direction' and a['facet'] else None
    sh = shape_of(sk, a['dims'], a['idx'] or DEFAULT[sk], direction)
    sh = list(sh) + ([a['count']] if a['count'] > 1 else []) + ([3] if a['points'] else [])
    a['shape'] = sh
    N = int(np.prod(sh))
    if kconst:
        a['dtype'] = 'float64' if a['cont'] else 'int64'
        a['const'] = (r.choice([0, 1, 6, -3, NONE - 1]) if a['cont'] else 4 * r.choice([-1, 0, 1, 2, 7])) if r.random() < 0.9 or a['cont'] else 4
        a['cbool'] = False
        if not a['cont'] and a['kind'] not in ('discrete', '') and r.random() < 0.2:
            a['cbool'], a['const'] = True, r.choice([0, 4])
        a['expand'] = r.random() < 0.3 and not (a['idx'] == 'faces' and direction) and a['const'] != NONE - 1 and not a['cbool']
        a['v'] = []
    else:
        a['cbool'] = False
        if a['cont']:
            v = [NONE if r.random() < 0.1 else r.randint(-40, 40) for _ in range(N)]
            if r.random() < 0.05:
                v = [NONE] * N
            if a['points']:
                v = [r.randint(-40, 40) for _ in range(N)]
        elif a['dtype'] == 'bool':
            v = [r.randint(0, 1) for _ in range(N)]
        else:
            v = [r.choice([-1, 0, 1, 2, 5, 7]) for _ in range(N)]
        a['v'] = v
    return a


def const_of(a):
    if a['const'] == NONE:
        return None
    if a['const'] == NONE - 1:
        return float('nan')
    if a['cbool']:
        return bool(a['const'])
    return a['const'] / 4 if a['cont'] else a['const'] // 4


def kw(a, w):
    none = lambda x: None if x == '' or x == NONE or x == -1 and x is not a['null'] else x
    return dict(discrete = not a['cont'], uom = a['uom'] or None, time_index = None if a['ti'] < 0 else a['ti'], null_value = None if a['null'] == NONE else a['null'],
                property_kind = a['kind'] or None, facet_type = a['ft'] or None, facet = a['facet'] or None, realization = None if a['real'] < 0 else a['real'],
                indexable_element = a['idx'] or None, count = a['count'], points = a['points'], const_value = const_of(a))


def data_of(a):
    if a['const'] != NONE:
        return None
    return arr(a['dtype'], a['shape'], a['v'])


def make_single(w, a):
    p = rqp.Property.from_array(w.m, data_of(a), a['source'] or None, a['title'], w.sup[a['sup']].uuid, time_series_uuid = w.ts[a['ts']].uuid if a['ts'] else None,
                                string_lookup_uuid = w.sl[a['cat']].uuid if a['cat'] else None, expand_const_arrays = a['expand'],
                                extra_metadata = dict(a['extra']), local_property_kind_uuid = w.pk['mine'] if a['kind'] == 'mine' else None, **kw(a, w))
    w.reg(a['id'], p.uuid)
    return p.collection


def add_import(w, c, a):
    return c.add_cached_array_to_imported_list(data_of(a), a['source'] or None, a['title'], time_series_uuid = w.ts[a['ts']].uuid if a['ts'] else None,
                                               string_lookup_uuid = w.sl[a['cat']].uuid if a['cat'] else None,
                                               local_property_kind_uuid = w.pk['mine'] if a['kind'] == 'mine' else None, **kw(a, w))
