"""C15: conversion between coordinate reference systems."""
import vlib
from rqutil import *
import resqpy.grid as grr
import resqpy.surface as rqs
import resqpy.lines as rql
import math
import random

ORDERS = rqc.Crs.valid_axis_orders
TURNS = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (4, 3, 5), (3, -4, 5)]


def milli(a):
    a = np.asarray(a, dtype = float).reshape((-1, 3))
    return [[-99999999 if not np.isfinite(v) or abs(v) > 2e6 else int(math.floor(v * 1000 + 1e-4)) for v in p] for p in a]


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    C, L = [], []       # systems and their descriptions
    O = []              # objects
    X = set()           # systems that are exactly as stored

    def add(e, fn):
        ev.append(e)
        e['obs'] = []
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    def index(uuid):
        return ([n + 1 for n, c in enumerate(C) if bu.matching_uuids(c.uuid, uuid)] or [0])[0]

    def crs():
        rot = r.choice(TURNS[:1] * 3 + TURNS)
        ax = r.choice([ORDERS[0]] * 2 + list(ORDERS))
        c = {'ax': ax.split(), 'rot': list(rot), 'o': [r.choice([0, 0, r.randint(-500, 500)]) for _ in range(3)], 'down': r.random() < 0.6, 'xu': r.choice(['m', 'm', 'ft', 'cm']),
             'zu': 'm', 'tu': '', 'time': r.random() < 0.15}
        c['zu'] = c['xu'] if r.random() < 0.5 else r.choice(['m', 'ft', 'cm'])
        if c['time']:
            c['tu'] = r.choice(['s', 'ms'])
        deg = math.degrees(math.atan2(rot[1], rot[0]))
        if r.random() < 0.5 and deg < 0:
            deg += 360
        elif r.random() < 0.1:
            deg += 360
        u = r.choice(['dega', 'dega', 'rad'])
        e = {'op': 'crs', 'c': c}

        def fn():
            o = rqc.Crs(m, x_offset = float(c['o'][0]), y_offset = float(c['o'][1]), z_offset = float(c['o'][2]), rotation = deg if u == 'dega' else math.radians(deg), rotation_units = u,
                        xy_units = c['xu'], z_units = c['zu'], z_inc_down = c['down'], axis_order = ax, time_units = c['tu'] or None, title = 'crs %d' % (len(C) + 1),
                        epsg_code = r.choice([None, None, '32630', '23031']), extra_metadata = {'n': str(len(C))})
            o.create_xml(reuse = r.random() < 0.5)
            if rot[2] == 1 and (u == 'dega' or rot[1] == 0 == deg):
                X.add(len(C) + 1)
            if r.random() < 0.5 and len(C) + 1 in X:
                o = rqc.Crs(m, uuid = o.uuid)
            e['obs'] = bool(o.is_right_handed_xyz())
            C.append(o)
            L.append(c)
        return add(e, fn)

    def points(n = None):
        return [[r.randint(-1000, 1000) for _ in range(3)] for _ in range(n or r.randint(1, 4))]

    def arr(ps):
        """An array of the points, of some shape, perhaps a view into a larger one."""
        a = np.array(ps, dtype = float)
        n = len(ps)
        how = r.choice(['flat', 'flat', 'deep', 'view'])
        if how == 'deep':
            return a.reshape((1, n, 3) if n % 2 else (2, n // 2, 3))
        if how == 'view':
            b = np.full((n, 5), 7.5)
            b[:, 1:4] = a
            return b[:, 1:4]
        return a

    def one(ps, f):
        out = []
        for p in ps:
            q = r.choice([tuple, list, lambda x: np.array(x, dtype = float)])([float(v) for v in p])
            w = list(q)
            out.append(f(q))
            assert list(q) == w
        return milli(out)

    def glob():
        n = r.randint(1, len(C))
        ax, down = r.choice([ORDERS[0]] * 2 + list(ORDERS)), r.random() < 0.7
        e = {'op': r.choice(['to_global', 'to_local']), 'c': n, 'ax': ax.split(), 'down': down, 'ps': points(), 'array': r.random() < 0.5}
        kw = {} if ax == ORDERS[0] and down and r.random() < 0.5 else {'global_z_inc_down': down, 'global_axis_order': ax}

        def fn():
            c = C[n - 1]
            if e['array']:
                a = arr(e['ps'])
                (c.local_to_global_array if e['op'] == 'to_global' else c.global_to_local_array)(a, **kw)
                e['obs'] = milli(a)
            else:
                e['obs'] = one(e['ps'], lambda p: (c.local_to_global if e['op'] == 'to_global' else c.global_to_local)(p, **kw))
        return add(e, fn)

    def conv(a, b, x, way, single):
        if single:
            return (lambda p: C[a - 1].convert_to(C[b - 1], p)) if way == 'to' else (lambda p: C[b - 1].convert_from(C[a - 1], p))
        return C[a - 1].convert_array_to(C[b - 1], x) if way == 'to' else C[b - 1].convert_array_from(C[a - 1], x)

    def convert():
        e = {'op': 'convert', 'c': r.randint(1, len(C)), 'd': r.randint(1, len(C)), 'ps': points(), 'array': r.random() < 0.6, 'way': r.choice(['to', 'from'])}

        def fn():
            if e['array']:
                x = arr(e['ps'])
                y = conv(e['c'], e['d'], x, e['way'], False)
                assert np.all(x == y)
                e['obs'] = milli(x)
            else:
                e['obs'] = one(e['ps'], conv(e['c'], e['d'], None, e['way'], True))
        return add(e, fn)

    def chain():
        t = r.random() < 0.3
        cs = [n + 1 for n, c in enumerate(L) if c['time'] == t]
        if not cs:
            return
        e = {'op': 'chain', 'c': [r.choice(cs) for _ in range(r.randint(2, 5))], 'ps': points()}
        if r.random() < 0.4:
            e['c'][-1] = e['c'][0]

        def fn():
            x = arr(e['ps'])
            for a, b in zip(e['c'], e['c'][1:]):
                conv(a, b, x, r.choice(['to', 'from']), False)
            e['obs'] = milli(x)
        return add(e, fn)

    def look(o):
        if o['kind'] == 'set':
            ps = [o['x'].single_patch_array_ref(i) for i in range(o['x'].patch_count)]
            assert np.allclose(o['x'].full_array_ref(), np.concatenate(ps))
        else:
            ps = []
            for i in range(len(o['x'].patch_list)):
                t, p = o['x'].triangles_and_points(patch = i)
                assert np.all(np.array(t) == o['t'][i])
                ps.append(p)
            t, p = o['x'].triangles_and_points()
            assert len(t) == sum(len(y) for y in o['t'])
            if len(ps) > 1:
                assert np.allclose(p[t], np.concatenate([q[u] for q, u in zip(ps, o['t'])]))
        return {'n': [len(p) for p in ps], 'ps': milli(np.concatenate(ps)), 'c': index(o['x'].crs_uuid)}

    def save(o):
        if o.get('saved') == o['x'].uuid:
            return
        o['saved'] = o['x'].uuid
        o['x'].write_hdf5()
        o['x'].create_xml()
        o['x'] = (rqs.PointSet if o['kind'] == 'set' else rqs.Surface)(m, uuid = o['x'].uuid)

    def obj():
        if not X:
            return
        e = {'op': 'obj', 'c': r.choice(sorted(X)), 'ps': [], 'kind': r.choice(['set', 'surface'])}
        o = {'kind': e['kind'], 't': []}
        for _ in range(r.randint(1, 3)):
            e['ps'].append(points(r.randint(3, 5) if o['kind'] == 'surface' else None))
            o['t'].append(np.array([[0, 1, 2]] + [[r.randint(0, n - 1), n, r.randint(0, n - 1)] for n in range(3, len(e['ps'][-1]))]))

        def fn():
            c = C[e['c'] - 1]
            if o['kind'] == 'set':
                o['x'] = rqs.PointSet(m, crs_uuid = c.uuid, title = 'set')
                for ps in e['ps']:
                    o['x'].add_patch(np.array(ps, dtype = float))
            else:
                o['x'] = rqs.Surface(m, crs_uuid = c.uuid, title = 'surface')
                tp = [(t, np.array(p, dtype = float)) for t, p in zip(o['t'], e['ps'])]
                if len(tp) == 1:
                    o['x'].set_from_triangles_and_points(*tp[0])
                else:
                    o['x'].set_multi_patch_from_triangles_and_points(tp)
            if r.random() < 0.6:
                save(o)
            e['obs'] = look(o)
            o['time'] = L[e['c'] - 1]['time']
            O.append(o)
        return add(e, fn)

    def change():
        if not O:
            return obj()
        n = r.randint(1, len(O))
        cs = [i + 1 for i, c in enumerate(L) if c['time'] == O[n - 1]['time'] and i + 1 in X]
        e = {'op': 'change', 'n': n, 'c': r.choice(cs)}

        def fn():
            o = O[n - 1]
            o['x'].change_crs(C[e['c'] - 1])
            if r.random() < 0.3:
                save(o)
            e['obs'] = look(o)
        return add(e, fn)

    def mix():
        t = r.random() < 0.3
        cs = [n + 1 for n, c in enumerate(L) if c['time'] == t and n + 1 in X]
        if not cs:
            return
        ls, as_points = [], r.random() < 0.7
        if not as_points:
            cs = [r.choice(cs)]
        for _ in range(r.randint(1, 3)):
            ps = points(r.randint(3, 4))
            closed = r.random() < 0.5
            if closed and r.random() < 0.5:
                ps.append(ps[0])
            ls.append({'c': r.choice(cs), 'ps': ps, 'closed': closed})
        e = {'op': 'mix', 'ls': ls, 'points': as_points}

        def fn():
            pl = [rql.Polyline(m, set_coord = np.array(l['ps'], dtype = float), set_crs = C[l['c'] - 1].uuid, is_closed = l['closed'], title = 'line') for l in ls]
            if e['points']:
                ps = rqs.PointSet(m, polyset = Lines(pl), title = 'set')
                got, crs_uuid = ps.full_array_ref(), ps.crs_uuid
            else:
                s = rql.PolylineSet(m, polylines = pl, title = 'set')
                got, crs_uuid = s.coordinates, s.crs_uuid
            e['obs'] = {'ps': milli(got), 'c': index(crs_uuid), 'src': milli(np.concatenate([p.coordinates for p in pl]))}
        return add(e, fn)

    def make_grid(n, x, d, regular):
        g = grr.RegularGrid(m, extent_kji = x, dxyz = [float(v) for v in d], crs_uuid = C[n - 1].uuid, title = 'grid', as_irregular_grid = not regular)
        if not regular:
            g.grid_representation = 'IjkGrid'
            g.write_hdf5()
            g.create_xml(write_geometry = True, add_cell_length_properties = False)
            g = grr.Grid(m, uuid = g.uuid)
        else:
            g.create_xml(add_cell_length_properties = False)
        return g

    def grid(turned = False):
        cs = [n + 1 for n, c in enumerate(L) if not c['time'] and n + 1 in X and (c['rot'][1] != 0) == turned]
        x, d = [r.randint(1, 3) for _ in range(3)], [r.randint(1, 50) for _ in range(3)]
        regular = r.random() < 0.5
        ee = r.choice(['grid', 'box'])
        if ee == 'grid':
            cs = [n for n in cs if L[n - 1]['ax'] == ['easting', 'northing']]
            if not cs:
                return
            n = r.choice(cs)
            c = L[n - 1]
            e = {'op': 'grid', 'c': n, 'ps': points(), 'xu': c['xu'], 'zu': c['zu'], 'down': c['down']}
            kw = {}
            if r.random() < 0.6:
                e['xu'] = kw['global_xy_units'] = r.choice(['m', 'ft', 'cm'])
            if r.random() < 0.6:
                e['zu'] = kw['global_z_units'] = r.choice(['m', 'ft', 'cm'])
            if r.random() < 0.5:
                e['down'] = kw['global_z_increasing_downward'] = r.choice([True, False]) if c['o'][2] == 0 else c['down']

            def fn():
                g = make_grid(n, x, d, regular)
                out, back = arr(e['ps']), arr(e['ps'])
                g.local_to_global_crs(out, crs_uuid = g.crs_uuid, **kw)
                g.global_to_local_crs(back, crs_uuid = g.crs_uuid, **kw)
                e['obs'] = {'out': milli(out), 'in': milli(back)}
        else:
            cs = [n for n in cs if L[n - 1]['ax'] == ['easting', 'northing']]
            if not cs:
                return
            n = r.choice(cs)
            e = {'op': 'box', 'c': n, 'local': r.random() < 0.3, 'ps': [[i * x[2] * d[0], j * x[1] * d[1], k * x[0] * d[2]] for i in (0, 1) for j in (0, 1) for k in (0, 1)]}

            def fn():
                g = make_grid(n, x, d, regular)
                if r.random() < 0.3:
                    g.xyz_box(lazy = r.random() < 0.5, local = not e['local'])
                e['obs'] = milli(g.xyz_box(lazy = r.random() < 0.5, local = e['local']))
        return add(e, fn)

    for _ in range(r.randint(2, 4)):
        crs()
    if params.get('turned'):
        for _ in range(20):
            if grid(True):
                break
            crs()
        return
    if not C:
        return
    for _ in range(r.randint(5, 12)):
        r.choice([glob, glob, convert, convert, chain, obj, change, change, mix, grid])()
        if r.random() < 0.1:
            crs()
    for n, o in enumerate(O):
        e = {'op': 'object', 'n': n + 1}
        add(e, lambda: e.update(obs = look(o)))


class Lines:
    """Polylines with their own systems, as a set."""

    def __init__(self, polys):
        self.polys, self.rep_int_root, self.title = polys, None, 'lines'


def turned(params, tr):
    driver(dict(params, turned = True), tr)


PARTS = {'points': (driver, 'CrsConvTrace'), 'turned': (turned, 'CrsConvTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCCrsConv', 'MCCrsConv.cfg' if quick else 'MCCrsConv_thorough.cfg')
    base = vlib.seed() * 1000003
    c.conform('points', driver, [{'seed': base + i} for i in range(1500 if quick else 30000)], 'CrsConvTrace')
    c.conform('turned', turned, [{'seed': base + i} for i in range(150 if quick else 1500)], 'CrsConvTrace')
