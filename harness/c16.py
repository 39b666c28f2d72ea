"""C16: geometry of grids."""
import vlib
from rqutil import *
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.olio.uuid as bu
import resqpy.olio.grid_functions as gf
from fractions import Fraction
import random
from decimal import Decimal
from c13 import pillared, build, ints, whole

NAN = -77777


def vals(v, den):
    return whole(np.nan_to_num(np.asarray(v, dtype = float), nan = NAN / den), den)


def vec3(v, den = 1):
    """A vector, or nothing if it is not a number."""
    if v is None:
        return []
    v = np.asarray(v, dtype = float)
    if np.all(np.isnan(v)):
        return []
    return ints(vals(v, den))


def dec(x):
    """A number as decimal mantissa and exponent (exact to nine figures)."""
    x = float(x)
    if x != x:
        return [NAN, 0]
    if abs(x) < 1e-12:
        return [0, 0]
    d = Decimal('%.8e' % x).normalize()
    sign, digits, ex = d.as_tuple()
    m = int(''.join(map(str, digits)))
    return [-m if sign else m, ex]


class Asker:

    def __init__(self, r, g, d):
        self.r, self.g, self.d = r, g, d
        self.x = d['x']
        self.kept = []

    def maybe(self, *names):
        return {n: self.r.random() < 0.5 for n in names if self.r.random() < 0.6}

    def cell(self, none = 0.4):
        n = self.x[0] * self.x[1] * self.x[2]
        if self.r.random() < none:
            return 0, None
        c = self.r.randrange(n)
        return c + 1, self.kji(c)

    def kji(self, c):
        k, ji = divmod(c, self.x[1] * self.x[2])
        j, i = divmod(ji, self.x[2])
        return self.r.choice([tuple, list, np.array])((k, j, i))

    def each(self, c, v, f, nan = []):
        """v: a value, or an array of values for all cells."""
        if not c:
            self.last = c, v, f, nan
        if c:
            return f(v) if self.d['def'][c - 1] else nan
        v = np.asarray(v)
        v = v.reshape((self.x[0] * self.x[1] * self.x[2],) + v.shape[3:])
        return [f(q) if self.d['def'][n] else nan for n, q in enumerate(v)]

    def plane(self, v):
        """Points as lists, of pillars."""
        return [vec3(p) for p in np.asarray(v, dtype = float).reshape((-1, 3))]

    def layer(self):
        r, nk = self.r, self.x[0]
        k = r.randrange(nk)
        return k, r.randint(0, 1)

    def ask(self, e):
        """A question of the grid; or, sometimes, what an earlier answer has become."""
        r = self.r
        self.last = None
        if self.d.get('dotty') and r.random() < 0.15:
            e['q'] = 'dots'
        if e['q'] == 'kept':
            if self.kept:
                q, last = self.r.choice(self.kept)
                e.update(q, how = 'kept')
                return self.each(*last)
            e['q'] = 'pillars'
        y = self.fresh(e)
        if self.last and not self.d['alt']:
            self.kept.append(({k: e[k] for k in ('q', 'c', 'a', 'u', 'f')}, self.last))
        return y

    def props(self):
        return dict(property_collection = self.g.extract_property_collection()) if self.d['vp'] and self.r.random() < 0.6 else {}

    def fresh(self, e):
        r, g, x = self.r, self.g, self.x
        nk, nj, ni = x
        q = e['q']
        if q == 'shape' and self.d['dead_pil']:      # said to be for points that are all defined
            e['q'] = q = 'flags'
        e['a'], e['u'], e['f'] = [], '', []
        c, kji = 0, None
        if q in ('corners', 'centre', 'face', 'thick', 'volume', 'pinched'):
            c, kji = self.cell()
        elif q in ('point', 'faces', 'across', 'span', 'bounds', 'ring', 'within', 'inactive', 'defined', 'natural'):
            c, kji = self.cell(0)
        if c and not self.d['def'][c - 1] and q in ('faces', 'across', 'span', 'bounds', 'ring', 'within'):
            good = [n for n, b in enumerate(self.d['def']) if b]
            if not good:
                e['q'] = q = 'natural'
            else:
                c = r.choice(good) + 1
                kji = self.kji(c - 1)
        e['c'] = c
        flat = lambda v, den = 1: [vec3(p, den) for p in np.asarray(v, dtype = float).reshape((-1, 3))]
        cached = self.maybe('cache_resqml_array', 'cache_cp_array')
        if q == 'corners':
            return self.each(c, g.corner_points(kji, **cached), flat)
        if q == 'point':
            n = r.randrange(8)
            e['a'] = [n + 1]
            return self.each(c, g.point(kji, np.array([n // 4, n // 2 % 2, n % 2]), **self.maybe('cache_array')), vec3)
        if q == 'centre':
            if c == 0 and r.random() < 0.3:
                n = [self.kji(m) for m in range(nk * nj * ni)]
                return [vec3(p, 8) if self.d['def'][m] else [] for m, p in enumerate(g.centre_point_list(np.array([list(k) for k in n])))]
            return self.each(c, g.centre_point(kji, **self.maybe('cache_centre_array')), lambda v: vec3(v, 8))
        if q == 'face':
            ax, b = r.randrange(3), r.randint(0, 1)
            e['a'] = [ax + 1, b]
            if c and not self.d['def'][c - 1]:
                return []
            return self.each(c, g.face_centre(kji, ax, b, **cached), lambda v: vec3(v, 4))
        if q == 'faces':
            return flat(g.face_centres_kji_01(kji, **cached), 4)
        if q == 'across':
            if r.random() < 0.5:
                return flat(g.interface_vectors_kji(kji, **cached), 4)
            return [vec3(g.interface_vector(kji, ax, **cached), 4) for ax in range(3)]
        if q == 'span':
            e['u'] = r.choice(['m', 'cm'])
            k = dict(required_uom = e['u'])
            if e['u'] == self.d['xu'] and r.random() < 0.5:
                k = {}
            v = g.interface_lengths_kji(kji, **cached, **k) if r.random() < 0.5 else [g.interface_length(kji, ax, **cached, **k) for ax in range(3)]
            return [dec(16.0 * y * y) for y in v]
        if q == 'thick':
            if c and not self.d['def'][c - 1] and not hasattr(g, 'array_thickness'):
                return NAN
            k = self.maybe('cache_resqml_array', 'cache_cp_array', 'cache_thickness_array') if c else cached
            return self.each(c, g.thickness(kji, **k, **self.props()), lambda v: int(vals(v, 4)), NAN)
        if q == 'pinched':
            k = self.maybe('cache_resqml_array', 'cache_cp_array', 'cache_thickness_array') if c else cached
            if c and r.random() < 0.5:
                k['cache_pinchout_array'] = r.random() < 0.5
            if c and not self.d['def'][c - 1]:
                return NAN
            v = g.pinched_out(kji, **k)
            return [int(b) for b in v.flatten()] if c == 0 else self.each(c, v, int, NAN)
        if q == 'volume':
            k = self.maybe('cache_resqml_array', 'cache_cp_array', 'cache_centre_array')
            if c:
                k.update(self.maybe('cache_volume_array'))
            e['u'] = r.choice(['m', 'cm'])
            if e['u'] != self.d['zu'] or r.random() < 0.5:
                k['required_uom'] = e['u'] + '3'
            if c and not self.d['def'][c - 1]:
                return []
            return self.each(c, g.volume(kji, **k, **self.props()), lambda v: dec(float('%.8e' % (12.0 * v))))
        if q == 'stored':
            if not self.d['vp']:
                e['q'] = q = 'dots'
            else:
                e['u'], e['q'] = self.d['vp'], 'volume'
                pc = g.extract_property_collection()
                a = pc.cached_part_array_ref(pc.singleton(property_kind = 'rock volume'))
                return self.each(0, np.ma.filled(a, np.nan), lambda v: dec(float('%.8e' % (12.0 * v))))
        if q == 'near':
            v = gf.columns_to_nearest_split_face(g)
            return [] if v is None else ints(np.minimum(v, nj + ni).flatten())
        if q == 'dots':
            return [bool(b) for b in g.point_areally().flatten()]
        if q == 'bounds':
            b = g.bounding_box(kji, **self.maybe('cache_cp_array'))
            return flat(b)
        if q == 'ring':
            b = r.randint(0, 1)
            e['a'] = [b]
            return flat(g.poly_line_for_cell(kji, vertical_ref = ('top', 'base')[b]))
        if q == 'within':
            if r.random() < 0.5:
                f = [r.randint(0, 4) for _ in range(3)]
                e['f'] = [f]
                return [vec3(g.interpolated_point(kji, np.array(f) / 4.0, **cached), 64)]
            f = [[r.randint(0, 4) for _ in range(r.randint(1, 3))] for _ in range(3)]
            e['f'] = [[a, b, d] for a in f[0] for b in f[1] for d in f[2]]
            return flat(g.interpolated_points(kji, [np.array(q) / 4.0 for q in f], **cached), 64)
        if q == 'inactive':
            return int(g.cell_inactive(kji))
        if q == 'column':
            e['a'] = [r.randrange(nj), r.randrange(ni)]
            return int(g.column_is_inactive(e['a']))
        if q == 'count':
            e['u'] = r.choice(['active', 'thick', 'defined', 'all'])
            return int(g.cell_count(active_only = e['u'] == 'active', non_pinched_out_only = e['u'] == 'thick', geometry_defined_only = e['u'] == 'defined'))
        if q == 'defined':
            return int(g.cell_geometry_is_defined(kji, **self.maybe('cache_array')))
        if q == 'pillar':
            e['a'] = [r.randint(0, nj), r.randint(0, ni)]
            return int(g.pillar_geometry_is_defined(e['a'], **self.maybe('cache_array')))
        if q == 'flags':
            return [int(g.geometry_defined_for_all_cells(**self.maybe('cache_array'))), int(g.geometry_defined_for_all_pillars(**self.maybe('cache_array')))]
        if q == 'healed':
            v = g.unsplit_points_ref(**self.maybe('cache_array'))
            return [flat(p, 4) for p in v]
        if q == 'horizon':
            k, kp = self.layer()
            e['a'] = [k, kp]
            heal = r.random() < 0.4
            e['u'] = 'healed' if heal else ''
            if not g.k_gaps and r.random() < 0.5:
                return flat(g.horizon_points(k + kp, heal_faults = heal), 4 if heal else 1)
            return flat(g.horizon_points(k, heal_faults = heal, kp = kp), 4 if heal else 1)
        if q == 'split':
            k, kp = self.layer()
            e['a'] = [k, kp]
            k2 = self.maybe('masked')
            v = g.split_horizon_points(k + kp, **k2) if not g.k_gaps and r.random() < 0.5 else g.split_horizon_points(k, kp = kp, **k2)
            return [flat(p) for p in v.reshape((nj * ni, 4, 3))]
        if q == 'splits':
            n = len(self.d['pts'])
            a = r.randrange(n)
            b = r.randint(a, n - 1)
            e['a'] = [a, b]
            k = dict(min_k0 = a, max_k0 = b)
            if a == 0 and r.random() < 0.5:
                del k['min_k0']
            if b == n - 1 and r.random() < 0.5:
                del k['max_k0']
            v = g.split_horizons_points(**k)
            return [[flat(p) for p in w.reshape((nj * ni, 4, 3))] for w in v]
        if q == 'section':
            ax = r.choice([1, 2])
            n, pol = r.randrange(nj if ax == 1 else ni), r.randint(0, 1)
            e['a'] = [ax, n, pol]
            k = dict(ref_slice0 = n, plus_face = bool(pol), **self.maybe('masked'))
            axis = ' JI'[ax]
            y = r.random()
            m = ni if ax == 1 else nj
            if y < 0.5:
                v = g.x_section_corner_points(axis, **k)
            elif y < 0.6 and not g.k_gaps and not g.has_split_coordinate_lines:
                w = np.asarray(g.unsplit_x_section_points(axis, **k))
                v = np.stack([np.stack([w[:-1, :-1], w[:-1, 1:]], axis = 2), np.stack([w[1:, :-1], w[1:, 1:]], axis = 2)], axis = 2)
            elif g.has_split_coordinate_lines and not g.k_gaps and y < 0.75:
                w = np.asarray(g.split_x_section_points(axis, **k))
                v = np.stack([w[:-1], w[1:]], axis = 2)
            elif g.has_split_coordinate_lines or g.k_gaps:
                v = g.split_gap_x_section_points(axis, **k)
            else:
                v = g.x_section_corner_points(axis, **k)
            v = np.ma.filled(np.ma.asarray(v), np.nan)
            return [[flat(p) for p in w.reshape((m, 4, 3))] for w in v]
        if q == 'ends':
            return [flat(p) for p in g.coordinate_line_end_points().reshape((-1, 2, 3))]
        if q == 'depths':
            v = np.asarray(g.z_corner_point_depths(order = 'cellular'))
            if r.random() < 0.5:
                v = np.asarray(g.z_corner_point_depths(order = 'linear'))
                assert v.shape == (nk, 2, nj, 2, ni, 2)
                v = np.array([[[v[k, :, j, :, i, :] for i in range(ni)] for j in range(nj)] for k in range(nk)])
            return self.each(0, v, lambda w: ints(vals(w.flatten(), 1)))
        if q == 'pillars':
            return [ints(p) for p in g.create_column_pillar_mapping().reshape((-1, 4))]
        if q == 'foursome':
            e['a'] = [r.randint(0, nj), r.randint(0, ni)]
            if self.d['spl'] and r.random() < 0.5:
                e['a'] = list(divmod(r.choice(self.d['spl'])[0], ni + 1))
            v = g.pillar_foursome(e['a'], none_if_unsplit = r.random() < 0.3)
            return ints(np.full(4, e['a'][0] * (ni + 1) + e['a'][1]) if v is None else v.flatten())
        if q == 'apart':
            e['a'] = [r.randrange(nj), r.randrange(ni), r.choice([1, 2]), r.randint(0, 1)]
            return int(g.is_split_column_face(*e['a']))
        if q == 'aparts':
            a, b = g.split_column_faces()
            a = np.zeros((nj - 1) * ni) if a is None else a.flatten()
            b = np.zeros(nj * (ni - 1)) if b is None else b.flatten()
            return [ints(a), ints(b)]
        if q == 'throw':
            pol = r.random() < 0.5
            g.points_ref()
            v = g.fault_throws_per_edge_per_column(mode = 'mean', simple_z = True, axis_polarity_mode = pol)
            if pol:
                v = v.reshape((nj * ni, 4))
            else:
                v = v.reshape((nj * ni, 4))[:, [3, 1, 0, 2]]
            return [ints(vals(w, 2 * len(self.d['pts']))) for w in v]
        if q == 'hand':
            return int(g.grid_is_right_handed)
        if q == 'slice':
            ax = r.randrange(3)
            n = r.randint(0, x[ax])
            e['a'] = [ax, n]
            return flat(g.slice_points(axis = ax, ref_slice = n, local = True))
        if q == 'shape':
            return g.actual_pillar_shape(patch_metadata = r.random() < 0.5)
        if q == 'natural':
            if r.random() < 0.5:
                return [int(g.natural_cell_index(kji)), ints(g.denaturalized_cell_index(c - 1))]
            return [int(g.natural_cell_indices(np.array([list(kji)]))[0]), ints(g.denaturalized_cell_indices(np.array([c - 1]))[0])]
        if q in ('box', 'lazybox'):
            return flat(g.xyz_box(lazy = q == 'lazybox', local = True))
        if q == 'nearest':
            k, kp = self.layer()
            e['a'] = [*self.spot(k, kp), k, kp]
            j, i = g.nearest_pillar(np.array(e['a'][:2]) / 2.0, ref_k0 = k, kp = kp)
            return int(j) * (ni + 1) + int(i)
        if q == 'find':
            k, kp = self.layer()
            e['a'] = [*self.spot(k, kp), k, kp]
            j, i = g.find_cell_for_point_xy(e['a'][0] / 2.0, e['a'][1] / 2.0, k0 = k, vertical_ref = ('top', 'base')[kp])
            return 0 if j is None else int(j) * ni + int(i) + 1
        raise ValueError(q)

    def spot(self, k, kp):
        pl = k + kp + sum(self.d['gap'][:k])
        p = self.d['pts'][pl]
        xs, ys = [q[0] for q in p], [q[1] for q in p]
        if self.r.random() < 0.3:
            q = self.r.choice(p)
            return [2 * q[0] + self.r.randint(-3, 3), 2 * q[1] + self.r.randint(-3, 3)]
        return [self.r.randint(2 * min(xs) - 4, 2 * max(xs) + 4), self.r.randint(2 * min(ys) - 4, 2 * max(ys) + 4)]


QUERIES = ['corners', 'point', 'centre', 'face', 'faces', 'across', 'span', 'thick', 'volume', 'pinched', 'dots', 'bounds', 'ring', 'within', 'inactive', 'column', 'count',
           'defined', 'pillar', 'flags', 'healed', 'horizon', 'split', 'splits', 'section', 'ends', 'depths', 'pillars', 'foursome', 'apart', 'aparts', 'throw', 'shape', 'natural',
           'box', 'lazybox', 'nearest', 'find', 'near', 'stored', 'kept', 'kept', 'volume']


def shaped(r, x):
    """A grid on pillars, perhaps mirrored, stretched or with a column of no extent."""
    d = pillared(r, x)
    flip = r.choice([1, 1, 1, -1]), r.choice([1, 1, 1, -1])
    n = (x[1] + 1) * (x[2] + 1)
    if not d['spl'] and not d['dead_pil'] and r.random() < 0.15:
        four = r.choice(d['pil'])
        some = r.choice([1.0, 0.5, 0.5])
        d['dotty'] = True
        for pl in d['pts']:
            if r.random() < some:
                for p in four:
                    pl[p] = list(pl[four[0]])
    y = r.random()
    if y < 0.35:       # straight pillars
        lean = [r.randint(-1, 1) if r.random() < 0.7 and y < 0.2 else 0 for _ in range(n)]
        prim = list(range(n)) + [p for p, _ in d['spl']]
        foot = [list(q[:2]) for q in d['pts'][0]]
        for pl in d['pts']:
            for q in range(len(pl)):
                p = prim[q]
                pl[q][0], pl[q][1] = foot[p][0] + lean[p] * pl[q][2], foot[p][1]
    for pl in d['pts']:
        for q in pl:
            q[0] *= flip[0]
            q[2] *= flip[1]
    d['par'] = y < 0.35 and not d['dead_pil'] and all(d['pts'][0][p][2] != d['pts'][-1][p][2] for p in range(n))
    d['down'] = r.random() < 0.7
    d['rh'] = (flip[0] * flip[1] > 0) == (not d['down'])
    d['xu'] = r.choice(['m', 'm', 'cm'])
    d['zu'] = d['xu'] if r.random() < 0.6 else r.choice(['m', 'cm'])
    return d


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    G = []

    def add(e, fn):
        ev.append(e)
        e['obs'] = []
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    ds = []
    for n in range(r.choice([1, 1, 2])):
        x = [r.choice([1, 2, 3, 4]), r.choice([1, 2, 3]), r.choice([1, 2, 3])]
        d = shaped(r, x)
        ds.append(d)
        e = {'op': 'make', 'x': x, 'pts': d['pts'], 'pil': d['pil'], 'gap': d['gap'], 'def': d['def'], 'ina': d['ina'], 'dp': d['dead_pil'],
             'xu': d['xu'], 'zu': d['zu'], 'rh': d['rh'], 'down': d['down']}

        def fn():
            crs = rqc.Crs(m, z_inc_down = d['down'], xy_units = d['xu'], z_units = d['zu'])
            crs.create_xml(reuse = False)
            d['parametric'] = d['par'] and r.random() < 0.5
            g = build(m, crs, d, 'grid %d' % n, d['rh'], d['parametric'])
            d['uuid'] = g.uuid
            d['alt'] = []
            if all(d['def']) and not any(d['gap']) and r.random() < 0.4:
                for t in range(r.choice([1, 2])):
                    d['alt'].append(alternative(r, m, g, d, t))
            d['vp'] = ''
            if not d['alt'] and r.random() < 0.5:
                d['vp'] = r.choice(['m', 'cm'])
                measured(r, m, g, d)
        if not add(e, fn):
            return
    m.store_epc()
    m.h5_release()
    mm = rq.Model('a.epc')
    for n, d in enumerate(ds):
        g = grr.Grid(mm, uuid = d['uuid'], find_properties = True)
        G.append(Asker(r, g, d))
    steps = r.choice([6, 10, 14])
    # where there are several active properties, one is chosen at the start
    first = [n for n, d in enumerate(ds) if any(alt['active'] for alt in d['alt'])]
    while len(ev) < steps + len(ds):
        n = first[0] if first else r.randrange(len(G))
        a = G[n]
        d = a.d
        if first or d['alt'] and r.random() < 0.15:
            alt = r.choice([alt for alt in d['alt'] if alt['active'] or not first])
            how = r.choice(['uuid', 'uuid', 'realization'])
            e = {'op': 'move', 'g': n + 1, 'pts': alt['pts'], 'ina': [], 'how': how}

            def fn():
                if how == 'uuid':
                    k = dict(set_inactive = False)
                    if first or r.random() < 0.5 and alt['active']:
                        k = dict(set_inactive = True, active_property_uuid = alt['active'])
                    a.g.set_cached_points_from_property(points_property_uuid = alt['points'], set_grid_time_index = False, **k)
                else:
                    k = dict(set_inactive = bool(first) or bool(alt['active']) and r.random() < 0.7)
                    a.g.set_cached_points_from_property(realization = alt['t'], set_grid_time_index = False,
                                                        **(dict(property_collection = a.g.extract_property_collection()) if r.random() < 0.5 or k['set_inactive'] else {}), **k)
                if k['set_inactive']:
                    e['ina'] = alt['ina']
                d['pts'] = alt['pts']
            add(e, fn)
            first = first[1:]
        else:
            e = {'op': 'ask', 'g': n + 1, 'q': r.choice(QUERIES), 'c': 0, 'a': [], 'u': '', 'f': []}

            def fn():
                e['obs'] = a.ask(e)
            add(e, fn)
    mm.h5_release()


def twelve(cp):
    """Twelve times the volume of a cell with bilinear faces."""
    sub = lambda a, b: [p - q for p, q in zip(a, b)]
    dot = lambda a, b: sum(p * q for p, q in zip(a, b))
    cross = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def lobe(a, b, c, d):
        a, b, c, d = (cp[n - 1] for n in (a, b, c, d))
        p, u, v, w = sub(a, cp[0]), sub(b, a), sub(c, a), sub(sub(d, b), sub(c, a))
        return 4 * dot(p, cross(u, v)) + 2 * dot(p, cross(u, w)) + 2 * dot(p, cross(w, v)) - dot(w, cross(u, v))
    return lobe(5, 6, 7, 8) - lobe(1, 2, 3, 4) + lobe(2, 4, 6, 8) - lobe(1, 3, 5, 7) + lobe(3, 7, 4, 8) - lobe(1, 5, 2, 6)


def measured(r, m, g, d):
    """Properties holding the volumes and thicknesses of the cells."""
    nk, nj, ni = d['x']
    v, h = np.full((nk, nj, ni), np.nan), np.full((nk, nj, ni), np.nan)
    p10 = {'m': 0, 'cm': -2}
    scale = 10.0 ** (2 * p10[d['xu']] + p10[d['zu']] - 3 * p10[d['vp']]) * (-1 if d['rh'] == d['down'] else 1)
    for n, (k, j, i) in enumerate(np.ndindex(nk, nj, ni)):
        if d['def'][n]:
            pl = k + sum(d['gap'][:k])
            cp = [d['pts'][pl + b][p] for b in (0, 1) for p in d['pil'][j * ni + i]]
            v[k, j, i] = twelve(cp) / 12.0 * scale
            h[k, j, i] = abs(sum(q[2] for q in cp[4:]) - sum(q[2] for q in cp[:4])) / 4.0
    facet = dict(facet_type = 'netgross', facet = 'gross') if r.random() < 0.5 else {}
    rqp.Property.from_array(m, v, 'src', 'bulk', g.uuid, property_kind = 'rock volume', uom = d['vp'] + '3', **facet)
    if r.random() < 0.6:
        rqp.Property.from_array(m, h, 'src', 'thick', g.uuid, property_kind = 'thickness', uom = d['zu'], **facet)


def alternative(r, m, g, d, t):
    """Another geometry for a grid, held as a property."""
    pts = [[[q[0] + 2 * t, q[1], q[2] + (pl % 2) * r.choice([0, 1]) + t] for q in p] for pl, p in enumerate(d['pts'])]
    a = np.array(pts, dtype = float)
    if not d['spl']:
        a = a.reshape((len(pts), d['x'][1] + 1, d['x'][2] + 1, 3))
    p = rqp.Property.from_array(m, a, 'src', 'moved', g.uuid, property_kind = 'length', indexable_element = 'nodes', uom = d['xu'], points = True, realization = t, count = 1)
    act, ina = None, []
    if r.random() < 0.6:
        ina = [r.random() < 0.3 for _ in d['ina']]
        q = rqp.Property.from_array(m, np.array([0 if b else 1 for b in ina], dtype = int).reshape(d['x']), 'src', 'ACTIVE', g.uuid, property_kind = 'active', discrete = True, realization = t)
        act = q.uuid
    return {'pts': pts, 'points': p.uuid, 'active': act, 'ina': ina, 't': t}


# what has to be moved from the coordinates of the crs of the block to those of the crs it was described in
PLACES = {'corner_points', 'point', 'centre_point', 'centre_point_list', 'face_centre', 'face_centres_kji_01', 'bounding_box', 'poly_line_for_cell', 'interpolated_point',
          'interpolated_points', 'horizon_points', 'split_horizon_points', 'split_horizons_points', 'x_section_corner_points', 'split_gap_x_section_points', 'unsplit_x_section_points',
          'split_x_section_points', 'coordinate_line_end_points', 'xyz_box', 'unsplit_points_ref', 'slice_points'}


class Moved:
    """A regular grid, seen from the crs its origin was given in."""

    def __init__(self, g, by):
        self.g, self.by = g, by

    def __getattr__(self, name):
        v = getattr(self.g, name)
        if name in PLACES:
            return lambda *p, **k: np.ma.asarray(v(*p, **k)) + self.by
        if name == 'z_corner_point_depths':
            return lambda *p, **k: v(*p, **k) + self.by[2]
        if name == 'nearest_pillar':
            return lambda xy, **k: v(xy - self.by[:2], **k)
        if name == 'find_cell_for_point_xy':
            return lambda x, y, **k: v(x - self.by[0], y - self.by[1], **k)
        if name == 'volume' and isinstance(self.g, grr.RegularGrid):
            return lambda c = None, **k: v(c, **{n: w for n, w in k.items() if n == 'required_uom'})
        return v


def lattice(r):
    """Steps in directions K, J, I, with whether they are aligned with the axes, and at right angles."""
    z = lambda: r.choice([1, 2, 3, -1, -2])
    y = r.random()
    if y < 0.45:
        return [[0, 0, z()], [0, z(), 0], [z(), 0, 0]], 'aligned'
    if y < 0.7:
        a, b = r.randint(1, 2), r.randint(-2, 2)
        f = r.choice([1, -1])
        return [[0, 0, z()], [-f * b, f * a, 0], [a, b, 0]], 'upright'
    while True:
        v = [[r.randint(-2, 2) for _ in range(3)] for _ in range(3)]
        if y < 0.85:
            v[0][:2] = [0, 0]
        if round(np.linalg.det(np.array(v, dtype = float))):
            return v, 'skew'


def blocks(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')

    def add(e, fn):
        ev.append(e)
        e['obs'] = []
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    x = [r.choice([1, 2, 3]), r.choice([1, 2, 3]), r.choice([1, 2, 3])]
    v, kind = lattice(r)
    org = [r.randint(-3, 3) for _ in range(3)] if r.random() < 0.7 else [0, 0, 0]
    nk, nj, ni = x
    at = lambda k, j, i: [org[a] + k * v[0][a] + j * v[1][a] + i * v[2][a] for a in range(3)]
    pil = [[(j + b) * (ni + 1) + i + c for b in (0, 1) for c in (0, 1)] for j in range(nj) for i in range(ni)]
    n = nk * nj * ni
    d = dict(x = x, pts = [[at(k, j, i) for j in range(nj + 1) for i in range(ni + 1)] for k in range(nk + 1)], pil = pil, gap = [False] * (nk - 1), ina = [False] * n, dead_pil = [], spl = [],
             alt = [], vp = '', down = r.random() < 0.5, xu = r.choice(['m', 'm', 'cm']))
    d['def'] = [True] * n
    d['zu'] = d['xu']
    d['rh'] = bool((round(np.linalg.det(np.array(v[::-1], dtype = float))) > 0) != d['down'])
    solid = r.random() < 0.3
    how = r.choice(['new', 'new', 'stored'])
    late = ''
    if kind != 'aligned' and not solid:
        how = 'new'
    crs_by = r.choice(['given', 'given', 'model', 'metadata'])
    if how == 'stored' and not solid:
        late = 'lattice' if min(v[0][2], v[1][1], v[2][0]) < 0 else r.choice(['lattice', 'lengths'])
        if crs_by == 'metadata':
            crs_by = 'given'
    # an origin held as offsets of the crs
    offset = org != [0, 0, 0] and not solid and crs_by != 'metadata'
    if offset and r.random() < 0.9:
        org[:] = [0, 0, 0]
        d['pts'] = [[at(k, j, i) for j in range(nj + 1) for i in range(ni + 1)] for k in range(nk + 1)]
        offset = False
    e = {'op': 'make', 'x': x, 'pts': d['pts'], 'pil': pil, 'gap': d['gap'], 'def': d['def'], 'ina': d['ina'], 'dp': [], 'xu': d['xu'], 'zu': d['zu'], 'rh': d['rh'], 'down': d['down'],
         'how': [kind, solid, how, late, crs_by]}

    def fn():
        crs = rqc.Crs(m, z_inc_down = d['down'], xy_units = d['xu'], z_units = d['zu'], **({} if r.random() < 0.5 else dict(x_offset = 7, y_offset = -5, z_offset = 2)))
        crs.create_xml(reuse = False)
        k = dict(extent_kji = tuple(x), as_irregular_grid = solid, title = 'block')
        if not solid and r.random() < 0.4:
            k['set_points_cached'] = True
        if crs_by == 'given':
            k['crs_uuid'] = crs.uuid
        elif crs_by == 'metadata':
            k['extra_metadata'] = {'crs uuid': str(crs.uuid)}
        if v[0][:2] == [0, 0] and r.random() < 0.3:
            k['use_vertical'] = True
        if v[0][:2] == [0, 0] and v[1][2] == 0 and v[2][2] == 0 and crs_by != 'metadata' and r.random() < 0.3:
            import resqpy.surface as rqs
            mesh = rqs.Mesh(m, mesh_flavour = 'regular', ni = ni + 1, nj = nj + 1, origin = tuple(float(q) for q in org), dxyz_dij = np.array([v[2], v[1]], dtype = float), crs_uuid = crs.uuid)
            k.update(mesh = mesh, mesh_dz_dk = float(v[0][2]))
        else:
            k['origin'] = tuple(float(q) for q in org)
            if kind == 'aligned' and r.random() < 0.6:
                k['dxyz'] = (v[2][0], v[1][1], v[0][2])
            else:
                k['dxyz_dkji'] = np.array(v, dtype = float)
        g = grr.RegularGrid(m, **k)
        if how == 'stored':
            if solid:
                g.make_regular_points_cached()
                g.write_hdf5()
                g.create_xml(write_geometry = True, add_cell_length_properties = False)
            else:
                g.create_xml(use_lattice = late == 'lattice', write_geometry = False)
            m.store_epc()
            m.h5_release()
            m2 = rq.Model('a.epc')
            # no geometry is loaded by way of the general grid factory
            g = grr.any_grid(m2, uuid = g.uuid) if solid or r.random() < 0.5 else grr.RegularGrid(m2, uuid = g.uuid)
        c = rqc.Crs(g.model, uuid = g.crs_uuid)
        d['by'] = np.array([c.x_offset - crs.x_offset, c.y_offset - crs.y_offset, c.z_offset - crs.z_offset])
        d['g'] = g
    if not add(e, fn):
        return
    a = Asker(r, Moved(d['g'], d['by']), d)
    while len(ev) < r.choice([6, 10]):
        q = r.choice(QUERIES + ['hand', 'hand', 'slice', 'slice'])
        regular = isinstance(d['g'], grr.RegularGrid)
        if offset:
            q = 'box'
        if q in ('kept', 'stored') or q == 'hand' and late == 'lengths' or regular and (
                q == 'find' and (kind != 'aligned' or solid) or q == 'volume' and kind == 'skew' or q in ('thick', 'pinched', 'count') and kind == 'skew'):
            continue
        if q == 'slice' and not regular or q == 'throw' and not regular:
            continue
        e = {'op': 'ask', 'g': 1, 'q': q, 'c': 0, 'a': [], 'u': '', 'f': [], 'offset': offset}

        def fn():
            e['obs'] = a.ask(e)
        add(e, fn)
    d['g'].model.h5_release()


PARTS = {'asked': (driver, 'GeomTrace'), 'blocks': (blocks, 'GeomTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCGeom', 'MCGeom.cfg' if quick else 'MCGeom_thorough.cfg')
    base = vlib.seed() * 1000003
    c.conform('asked', driver, [{'seed': base + i} for i in range(1500 if quick else 25000)], 'GeomTrace')
    c.conform('blocks', blocks, [{'seed': base + i} for i in range(1000 if quick else 15000)], 'GeomTrace')
