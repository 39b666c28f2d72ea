"""C14: properties of grids made from other grids."""
import vlib
from rqutil import *
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.olio.fine_coarse as fc
import resqpy.derived_model as rqdm
import resqpy.time_series as rqts
from fractions import Fraction
import random

LOOKUP = {0: 'mud', 1: 'silt', 2: 'sand', 3: 'gravel'}
STATIC = ['rock volume', 'net to gross ratio', 'porosity']


def ints(v):
    return [int(x) for x in v]


def frac(x):
    x = float(x)
    if np.isnan(x):
        return [0, 0]
    f = Fraction(x).limit_denominator(4000)
    return [f.numerator, f.denominator] if abs(float(f) - x) < 1e-8 else [-999, 1]


def fracs(a):
    return [frac(x) for x in np.asarray(a, dtype = float).flatten()]


def shape(el, x):
    nk, nj, ni = x
    return {'cells': [nk, nj, ni], 'columns': [nj, ni], 'layers': [nk], 'edges per column': [nj, ni, 4], 'nodes': [nk + 1, nj + 1, ni + 1]}[el]


def widths(g):
    """Thickness of layers and widths of rows and columns of a grid that is a brick, in file units."""
    p = g.points_ref().reshape((g.nk + 1, g.nj + 1, g.ni + 1, 3))
    return [p[1:, 0, 0, 2] - p[:-1, 0, 0, 2], p[0, 1:, 0, 1] - p[0, :-1, 0, 1], p[0, 0, 1:, 0] - p[0, 0, :-1, 0]]


def brick(m, crs, dim, ina, title):
    nk, nj, ni = [len(d) for d in dim]
    g = grr.Grid(m)
    g.grid_representation = 'IjkGrid'
    g.extent_kji = np.array([nk, nj, ni], dtype = int)
    g.nk, g.nj, g.ni = nk, nj, ni
    g.k_direction_is_down, g.grid_is_right_handed, g.pillar_shape = True, True, 'straight'
    g.crs_uuid, g.crs = crs.uuid, crs
    g.k_gaps = None
    z, y, x = [np.concatenate(([0.0], np.cumsum(d))) for d in dim]
    p = np.empty((nk + 1, nj + 1, ni + 1, 3))
    p[..., 0] = x + 100
    p[..., 1] = y.reshape((-1, 1)) + 50
    p[..., 2] = z.reshape((-1, 1, 1)) + 1000
    g.points_cached = p
    g.has_split_coordinate_lines = False
    g.split_pillars_count = None
    g.geometry_defined_for_all_cells_cached = True
    g.array_cell_geometry_is_defined = np.ones((nk, nj, ni), dtype = bool)
    g.geometry_defined_for_all_pillars_cached = True
    g.inactive = np.array(ina, dtype = bool).reshape((nk, nj, ni)) if any(ina) else None
    g.write_hdf5()
    g.create_xml(title = title)
    return g


def see(m, uuid, ts, lookup):
    """Properties of a grid, as in the package."""
    g = grr.Grid(m, uuid = uuid, find_properties = True)
    pc = g.extract_property_collection()
    out = []
    for part in pc.parts():
        if pc.property_kind_for_part(part) == 'active':
            continue
        out.append(one(m, pc, part, ts, lookup))
    ina = g.extract_inactive_mask()
    return {'x': ints(g.extent_kji), 'ps': sorted(out, key = lambda p: p['t']), 'ina': [bool(b) for b in np.array(ina, dtype = bool).flatten()]}


def one(m, pc, part, ts, lookup):
    cont, pts, sl = pc.continuous_for_part(part), pc.points_for_part(part), pc.string_lookup_uuid_for_part(part)
    c = 'p' if pts else 'c' if cont else 't' if sl is not None else 'd'
    a = pc.cached_part_array_ref(part)
    real, ti, tu = pc.realization_for_part(part), pc.time_index_for_part(part), pc.time_series_uuid_for_part(part)
    kind, lk = pc.property_kind_for_part(part), pc.local_property_kind_uuid(part)
    if lk is not None and m.part_for_uuid(lk) is None:
        kind = 'lost ' + kind
    if sl is not None and (str(sl) != str(lookup) or m.part_for_uuid(sl) is None or rqp.StringLookup(m, uuid = sl).str_dict != LOOKUP):
        c = 'lost'
    if tu is not None and (str(tu) != str(ts) or m.part_for_uuid(tu) is None):
        ti = -9
    v = pc.constant_value_for_part(part)
    null = pc.null_value_for_part(part)
    return {'t': pc.citation_title_for_part(part), 'k': kind, 'l': lk is not None, 'c': c, 'ft': pc.facet_type_for_part(part) or '', 'f': pc.facet_for_part(part) or '',
            'u': (pc.uom_for_part(part) or '') if c == 'c' else '', 'r': -1 if real is None else int(real), 'i': -1 if ti is None else int(ti), 'e': pc.indexable_for_part(part), 'n': int(pc.count_for_part(part)),
            'z': int(null) if c in 'dt' and null is not None else -99, 'q': [] if v is None else [frac(v)], 'v': fracs(a)}


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    crs = rqc.Crs(m, z_inc_down = True)
    crs.create_xml()
    ts = rqts.TimeSeries(m, first_timestamp = '2000-01-01Z')
    for _ in range(4):
        ts.extend_by_days(31)
    ts.create_xml()
    sl = rqp.StringLookup(m, int_to_str_dict = LOOKUP, title = 'rocks')
    sl.create_xml()
    lks = {}
    for k, par in (('zing', 'continuous'), ('zest', 'discrete')):
        lks[k] = rqp.PropertyKind(m, title = k, parent_property_kind = par)
        lks[k].create_xml()
    G = []          # per grid: uuid, extent, whether a brick with small sums, properties of it
    n_prop = [0]

    def add(e, fn):
        ev.append(e)
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        e.setdefault('obs', [])
        return k == 'ok'

    def make():
        dim = [[r.choice([1, 2, 2, 0]) if a == 0 else r.choice([1, 1, 2]) for _ in range(r.randint(1, 4 if a < 2 else 3))] for a in range(3)]
        N = len(dim[0]) * len(dim[1]) * len(dim[2])
        dead = r.random() < 0.3
        ina = [dead and r.random() < 0.3 for _ in range(N)]
        e = {'op': 'make', 'dim': dim, 'ina': ina}

        def fn():
            mm = rq.Model('a.epc') if G else m
            g = brick(mm, rqc.Crs(mm, uuid = crs.uuid), dim, ina, 'grid %d' % (len(G) + 1))
            mm.store_epc()
            mm.h5_release()
            G.append({'uuid': g.uuid, 'x': [len(d) for d in dim], 'brick': True})
            mm = rq.Model('a.epc')
            e['obs'] = see(mm, g.uuid, ts.uuid, sl.uuid)
            mm.h5_release()
        return add(e, fn)

    def prop(gi, seen):
        """A new property; seen: static kinds with realizations that the grid has."""
        x = G[gi - 1]['x']
        real = r.choice([-1, -1, 0, 1, 2])
        c = r.choice(['c', 'c', 'c', 'd', 't', 'p'])
        k, l, ft, f, u, el, n = 'continuous', False, '', '', '', 'cells', 1
        if r.random() < 0.3:
            el = r.choice(['columns', 'layers', 'nodes', 'edges per column']) if c != 'p' else r.choice(['columns', 'nodes'])
        n = r.choice([2, 3]) if r.random() < 0.15 and c != 'p' else 1
        plain = c == 'c' and el == 'cells' and n == 1
        top = 5
        if plain:
            k = r.choice(['depth', 'pressure', 'saturation', 'saturation', 'rock permeability', 'rock permeability', 'cell length', 'cell length'] + 2 * STATIC)
            if k in STATIC and (k, real) in seen:
                k = 'pressure'
            if k in STATIC:
                seen.append((k, real))
            if k == 'cell length':
                ft, f = 'direction', r.choice('IJK')
            elif k == 'saturation':
                ft, f = 'what', r.choice(['water', 'oil'])
            elif 'perm' in k and r.random() < 0.7:
                ft, f = 'direction', r.choice(['I', 'K'])
            u = {'pressure': 'kPa', 'rock permeability': 'mD', 'permeability rock': 'mD', 'cell length': 'm', 'rock volume': 'm3', 'porosity': 'm3/m3', 'saturation': 'm3/m3', 'net to gross ratio': 'm3/m3'}.get(k, 'm')
        elif c == 'c':
            k, u = r.choice([('pressure', 'kPa'), ('depth', 'ft')])
        elif c == 'd':
            k = r.choice(['index'])
        elif c == 't':
            k = 'index'
        else:
            k = 'length'
        if c in 'cd' and k not in STATIC and k not in ('saturation', 'rock permeability', 'permeability rock', 'cell length') and r.random() < 0.25:
            k, l = ('zing', True) if c == 'c' else ('zest', True)
            u = 'm' if c == 'c' else ''
        ti = r.randint(0, 4) if k not in STATIC and r.random() < 0.25 else -1
        const = c != 'p' and n == 1 and r.random() < 0.2
        sh = shape(el, x)
        N = int(np.prod(sh)) * n * (3 if c == 'p' else 1)
        if c in 'dt':
            v = [[r.randint(0, 3), 1] for _ in range(N)]
        elif k == 'rock volume':
            v = [[r.choice([0, 1, 2, 3]), 1] for _ in range(N)]
        elif k == 'net to gross ratio':
            v = [frac(r.choice([0, 0.5, 1])) for _ in range(N)]
        elif k == 'porosity':
            v = [frac(r.choice([0, 0.25, 0.5])) for _ in range(N)]
        else:
            v = [frac(r.randint(0, 20) / 4) for _ in range(N)]
        if const:
            v = [v[0]] * N
        if c == 'c' and not const and k not in STATIC and r.random() < 0.08:
            for y in range(N):
                if r.random() < 0.4:
                    v[y] = [0, 0]
            G[gi - 1]['brick'] = False    # means of values that are not there are not specified
        if c in 'dt' and not const and r.random() < 0.2:
            v[r.randint(0, N - 1)] = [-1, 1]
        null = r.choice([-1, -1, 7]) if c in 'dt' and not const else -99
        n_prop[0] += 1
        p = {'t': 'zq %02d' % n_prop[0], 'k': k, 'l': l, 'c': c, 'ft': ft, 'f': f, 'u': u, 'r': real, 'i': ti, 'e': el, 'n': n, 'z': null, 'q': [v[0]] if const else [], 'v': v}
        e = {'op': 'add', 'g': gi, 'p': p}

        def fn():
            mm = rq.Model('a.epc')
            a = np.array([y[0] / y[1] if y[1] else np.nan for y in v], dtype = float if c in 'cp' else int).reshape(sh + ([n] if n > 1 else []) + ([3] if c == 'p' else []))
            kw = dict(discrete = c in 'dt', null_value = null if c in 'dt' and not const else None, facet_type = ft or None, facet = f or None, uom = u or None, indexable_element = el, count = n,
                      points = c == 'p', realization = None if real < 0 else real, string_lookup_uuid = sl.uuid if c == 't' else None)
            if ti >= 0:
                kw.update(time_series_uuid = ts.uuid, time_index = ti)
            if l and r.random() < 0.7:
                kw.update(local_property_kind_uuid = lks[k].uuid)
            if const:
                kw['const_value'] = (float if c == 'c' else int)(a.flatten()[0])
            o = rqp.Property.from_array(mm, None if const else a, 'src', p['t'], G[gi - 1]['uuid'], property_kind = k, **kw)
            mm.store_epc()
            mm.h5_release()
            mm = rq.Model('a.epc')
            pc = rqp.PropertyCollection(support = grr.Grid(mm, uuid = G[gi - 1]['uuid']))
            e['obs'] = one(mm, pc, mm.part_for_uuid(o.uuid), ts.uuid, sl.uuid)
            mm.h5_release()
        return add(e, fn)

    def fineness(x, refine):
        """A mapping; x is the extent of the source. Weights only when refining."""
        if refine:
            q = [[r.choice([1, 1, 2, 3]) for _ in range(n)] for n in x]
            for a in r.sample(range(3), 3):
                if np.prod([sum(y) for y in q]) > 80:
                    q[a] = [1] * x[a]
        else:
            q = []
            for n in x:
                s = []
                while sum(s) < n:
                    s.append(r.randint(1, min(3, n - sum(s))))
                q.append(s)
        w = []
        for a in range(3):
            w.append([[r.randint(1, 3) for _ in range(y)] for y in q[a]] if refine and r.random() < 0.3 else [])
        f, c = [sum(y) for y in q], [len(y) for y in q]
        o = fc.FineCoarse(tuple(f), tuple(c))
        for a in range(3):
            if len(set(q[a])) == 1 and r.random() < 0.5:
                o.set_constant_ratio(a)
            else:
                o.set_ratio_vector(a, np.array(q[a]))
            if w[a]:
                o.set_proportions_list_of_vectors(a, [np.array(y, dtype = float) / sum(y) for y in w[a]])
        return o, q, [y if y else [[1] * z for z in q[a]] for a, y in enumerate(w)], f if refine else c

    def box(x):
        lo = [r.randint(0, n - 1) for n in x]
        if r.random() < 0.4:
            lo = [0, 0, 0]
        return [lo, [r.randint(l, n - 1) if r.random() < 0.6 else n - 1 for l, n in zip(lo, x)]]

    def derive():
        gi = r.randint(1, len(G))
        g = G[gi - 1]
        how = r.choice(['copy', 'box', 'refine', 'coarsen', 'coarsen', 'direct', 'direct'])
        x = g['x']
        b = [[0, 0, 0], [n - 1 for n in x]]
        q = w = [[], [], []]
        o, nx, via = None, x, how
        if how == 'direct':
            if r.random() < 0.7:
                b = box(x)
            via = r.choice(['box', 'refine', 'coarsen'])
        elif how == 'box':
            b = box(x)
        nx = [b[1][a] - b[0][a] + 1 for a in range(3)]
        if via in ('refine', 'coarsen'):
            o, q, w, nx = fineness(nx, via == 'refine')
        if via == 'coarsen' and not g['brick'] or g.get('big') and via == 'coarsen':
            return
        real, every = r.choice([-1, -1, -1, 0, 1, 2]), r.random() < 0.5
        away = how != 'direct' and r.random() < 0.15
        f = 'b%d.epc' % len(ev) if away else None
        e = {'op': 'derive', 'g': gi, 'how': how, 'via': 'box' if via == 'copy' else via, 'b': b, 'q': q, 'w': w, 'r': real, 'all': every, 'x': nx}
        e['away'] = away
        e['fn'] = '' if how != 'copy' else r.choice(['tilted', 'interpolated', 'local'])

        def fn():
            mm = rq.Model('a.epc')
            s = grr.Grid(mm, uuid = g['uuid'], find_properties = True)
            held = sorted(s.extract_property_collection().parts())
            kw = dict(inherit_properties = True, inherit_realization = None if real < 0 else real, inherit_all_realizations = every)
            if away:
                kw['new_epc_file'] = f
            if how == 'copy':
                if e['fn'] == 'tilted':
                    d = rqdm.tilted_grid('a.epc', s, pivot_xyz = (100.0, 50.0, 1000.0), azimuth = 90, dip = 10.0, **kw)
                elif e['fn'] == 'interpolated':
                    d = rqdm.interpolated_grid('a.epc', s, grr.Grid(mm, uuid = g['uuid'], find_properties = True), a_to_b_0_to_1 = 0.5, **kw)
                else:
                    d = rqdm.local_depth_adjustment('a.epc', s, centre_x = 101.0, centre_y = 51.0, radius = 3.0, centre_shift = 0.5, use_local_coords = True, **kw)
            elif how == 'box':
                d = rqdm.extract_box('a.epc', s, box = np.array(b), **kw)
            elif how == 'refine':
                d = rqdm.refined_grid('a.epc', s, o, **kw)
            elif how == 'coarsen':
                d = rqdm.coarsened_grid('a.epc', s, o, **kw)
            else:
                d = direct(mm, s)
            uuid = d.uuid
            d.model.h5_release()
            mm.h5_release()
            m2 = rq.Model(f or 'a.epc')
            if not away:
                G.append({'uuid': uuid, 'x': nx, 'brick': g['brick'] and via in ('box', 'coarsen'), 'big': via == 'coarsen' or g.get('big')})
            e['obs'] = dict(see(m2, uuid, ts.uuid, sl.uuid), src = [], held = held == sorted(s.extract_property_collection().parts()))
            m2.h5_release()
            mm = rq.Model('a.epc')
            e['obs']['src'] = see(mm, g['uuid'], ts.uuid, sl.uuid)['ps'] if r.random() < 0.2 else []
            mm.h5_release()

        def direct(mm, s):
            dim = [d[b[0][a]:b[1][a] + 1] for a, d in enumerate(widths(s))]
            if via == 'refine':
                dim = [np.concatenate([d / len(w[a][c]) * np.ones(len(w[a][c])) for c, d in enumerate(dim[a])]) for a in range(3)]
            elif via == 'coarsen':
                dim = [[sum(dim[a][sum(q[a][:c]):sum(q[a][:c + 1])]) for c in range(len(q[a]))] for a in range(3)]
            t = brick(mm, rqc.Crs(mm, uuid = crs.uuid), dim, [False], 'grid %d' % (len(G) + 1))
            if r.random() < 0.7:
                t = grr.Grid(mm, uuid = t.uuid)
            sc = rqp.GridPropertyCollection()
            sc.set_grid(s)
            sc.inherit_parts_selectively_from_other_collection(s.extract_property_collection(), indexable = 'cells', count = 1, points = False)
            pc = rqp.GridPropertyCollection(grid = t)
            bb = np.array(b) if b != [[0, 0, 0], [n - 1 for n in x]] or r.random() < 0.5 else None
            kw = {'refinement': o} if via == 'refine' else {'coarsening': o} if via == 'coarsen' else {}
            pc.extend_imported_list_copying_properties_from_other_grid_collection(sc, box = bb, realization = None if real < 0 else real, copy_all_realizations = every, uncache_other_arrays = r.random() < 0.5, **kw)
            pc.write_hdf5_for_imported_list()
            pc.create_xml_for_imported_list_and_add_parts_to_model()
            mm.store_epc()
            return t
        return add(e, fn)

    make()
    for _ in range(r.randint(1, 2)):
        seen = []
        for _ in range(r.randint(2, 9)):
            prop(len(G), seen)
        for _ in range(r.randint(1, 3)):
            derive()
        if r.random() < 0.3:
            make()


PARTS = {'inherit': (driver, 'PropInheritTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCPropInherit', 'MCPropInherit.cfg' if quick else 'MCPropInherit_thorough.cfg')
    base = vlib.seed() * 1000003
    c.conform('inherit', driver, [{'seed': base + i} for i in range(800 if quick else 16000)], 'PropInheritTrace')
