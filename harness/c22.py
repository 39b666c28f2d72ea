"""C22: unstructured grids."""
import vlib
from rqutil import *
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.surface as rqs
import resqpy.unstructured as rug
import itertools
import math
import random

PER = {'m': 10, 'dm': 1}  # tenths of a metre
CLS = {'Unstructured': 'UnstructuredGrid', 'Tetra': 'TetraGrid', 'Pyramid': 'PyramidGrid', 'Prism': 'PrismGrid', 'VPrism': 'VerticalPrismGrid', 'Hexa': 'HexaGrid'}
OWN = {'tetrahedral': 'Tetra', 'pyramidal': 'Pyramid', 'prism': 'Prism', 'hexahedral': 'Hexa', 'polyhedral': 'Unstructured'}
BAD = 99999999


def near(x, k = 1):
    """k times a number that should then be whole."""
    x = float(x) * k
    if not math.isfinite(x) or abs(x) > 2e9:
        return BAD
    n = int(math.floor(x + 0.5))
    return n if abs(x - n) < 1e-4 * max(1.0, abs(x) * 1e-3) else BAD


def hu(x, k):
    x = float(x) * k
    return BAD if not math.isfinite(x) or abs(x) > 1e8 else int(math.floor(x + 0.5))


def pts(a, k = 1):
    return [[near(x, k) for x in q] for q in np.array(a, dtype = float).reshape((-1, 3))]


def ints(a):
    return [int(x) for x in np.array(a).flatten()]


def brief(x):
    return x


# ---- shapes to start from, in steps of 2

def cube(x, y, z):
    v = lambda a, b, c: (2 * (x + a), 2 * (y + b), 2 * (z + c))
    return v


def cube_faces(v):
    return [[v(0, 0, 0), v(1, 0, 0), v(1, 1, 0), v(0, 1, 0)], [v(0, 0, 1), v(1, 0, 1), v(1, 1, 1), v(0, 1, 1)],
            [v(0, 0, 0), v(1, 0, 0), v(1, 0, 1), v(0, 0, 1)], [v(0, 1, 0), v(1, 1, 0), v(1, 1, 1), v(0, 1, 1)],
            [v(0, 0, 0), v(0, 1, 0), v(0, 1, 1), v(0, 0, 1)], [v(1, 0, 0), v(1, 1, 0), v(1, 1, 1), v(1, 0, 1)]]


def tets_of(v):
    out = []
    for p in itertools.permutations(range(3)):
        c = [0, 0, 0]
        q = [v(*c)]
        for a in p:
            c[a] = 1
            q.append(v(*c))
        out.append([list(f) for f in itertools.combinations(q, 3)])
    return out


def pyramids_of(v):
    m = tuple((a + b) // 2 for a, b in zip(v(0, 0, 0), v(1, 1, 1)))
    return [[f] + [[f[i - 1], f[i], m] for i in range(4)] for f in cube_faces(v)]


def prisms_of(v):
    a = [(0, 0), (1, 0), (1, 1)]
    b = [(0, 0), (1, 1), (0, 1)]
    out = []
    for t in (a, b):
        lo, hi = [v(x, y, 0) for x, y in t], [v(x, y, 1) for x, y in t]
        out.append([lo, hi] + [[lo[i - 1], lo[i], hi[i], hi[i - 1]] for i in range(3)])
    return out


def hex_prism(z, n = 1):
    ring = [(2, 0), (2, 2), (0, 2), (-2, 0), (-2, -2), (0, -2)]
    lo, hi = [(x, y, 2 * z) for x, y in ring], [(x, y, 2 * z + 2 * n) for x, y in ring]
    return [lo, hi] + [[lo[i - 1], lo[i], hi[i], hi[i - 1]] for i in range(6)]


def some_cells(r, shape):
    at = [(x, y, z) for x in range(2) for y in range(2) for z in range(2)]
    if shape == 'polyhedral':
        how = r.random()
        if how < 0.35:
            cells = [hex_prism(z) for z in range(r.randint(1, 3))]
        elif how < 0.6:  # cube with a roof
            v = cube(0, 0, 0)
            f = cube_faces(v)[1]
            cells = [cube_faces(v), [f] + [[f[i - 1], f[i], (1, 1, 4)] for i in range(4)]]
        else:
            cells = []
            for n, q in enumerate([(0, 0, 0), (1, 0, 0), (0, 1, 0)][:r.randint(1, 3)]):
                v = cube(*q)
                cells += [cube_faces(v)] if n == 0 else r.choice([prisms_of(v), [cube_faces(v)], pyramids_of(v)])
        return cells
    many = {'tetrahedral': tets_of, 'pyramidal': pyramids_of, 'prism': prisms_of, 'hexahedral': lambda v: [cube_faces(v)]}[shape]
    cells = []
    for q in ([at[0]] + r.sample(at[1:], r.randint(0, 1 if shape in ('tetrahedral', 'pyramidal') else 3)) if shape != 'prism' else
              [(x, 0, z) for x in range(r.randint(1, 2)) for z in range(r.randint(1, 2))]):
        cells += many(cube(*q))
    if shape in ('tetrahedral', 'pyramidal', 'prism') and r.random() < 0.5:
        cells = r.sample(cells, r.randint(1, len(cells)))
    return cells


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def minus(a, b):
    return tuple(x - y for x, y in zip(a, b))


def area(q):
    t = (0, 0, 0)
    for i in range(len(q)):
        t = tuple(x + y for x, y in zip(t, cross(minus(q[i - 1], q[0]), minus(q[i], q[0]))))
    return t


def some_mesh(r, shape):
    """Nodes, faces, cells with outward areas well away from the flat."""
    while True:
        cells = some_cells(r, shape)
        m = [[r.randint(-3, 3) for _ in range(3)] for _ in range(3)]
        if r.random() < 0.25:
            m = [[r.choice([-3, -2, -1, 1, 2, 3]) if a == b else 0 for a in range(3)] for b in range(3)]
            r.shuffle(m)
        if abs(dot(m[0], cross(m[1], m[2]))) < 2:
            continue
        sh = [r.randint(-5, 5) for _ in range(3)]
        to = {}
        jolt = shape != 'polyhedral' and r.random() < 0.5
        for p in sorted({p for c in cells for f in c for p in f}):
            to[p] = tuple(dot(m[a], p) + sh[a] + (r.choice([-1, 0, 0, 1]) if jolt else 0) for a in range(3))
        if len(set(to.values())) != len(to) or max(abs(x) for p in to.values() for x in p) > 38:
            continue
        order = list(to)
        r.shuffle(order)
        number = {p: i for i, p in enumerate(order)}
        faces, index, out = [], {}, []
        good = True
        keys = []
        for c in cells:
            for f in c:
                k = frozenset(number[p] for p in f)
                if k not in index:
                    index[k] = None
                    keys.append((k, [number[p] for p in f]))
        r.shuffle(keys)
        for i, (k, f) in enumerate(keys):
            index[k] = i
            d = r.randrange(len(f))
            f = f[d:] + f[:d]
            faces.append(f[::-1] if r.random() < 0.5 else f)
        p = [to[q] for q in order]
        cs, turn = [], []
        for c in cells:
            fs = [index[frozenset(number[q] for q in f)] for f in c]
            r.shuffle(fs)
            mid = [np.mean([np.mean([p[n] for n in faces[f]], axis = 0) for f in fs], axis = 0)][0]
            row = []
            for f in fs:
                a = area([p[n] for n in faces[f]])
                v = np.mean([p[n] for n in faces[f]], axis = 0) - mid
                x = dot(a, v)
                if abs(x) < 0.15 * math.sqrt(dot(a, a) * dot(v, v)) or a == (0, 0, 0):
                    good = False
                row.append(bool(x > 0))
            ways = [w for f, out_ in zip(fs, row) for w in zip(faces[f] if out_ else faces[f][::-1], (faces[f][1:] + faces[f][:1]) if out_ else (faces[f][::-1][1:] + faces[f][-1:]))]
            if len(set(ways)) != len(ways) or any((b, a) not in ways for a, b in ways):
                good = False  # bent so much that it is not clear which side of a face is in
            cs.append(fs)
            turn.append(row)
        uses = {}
        for fs in cs:
            for f in fs:
                uses[f] = uses.get(f, 0) + 1
        if good and max(uses.values()) <= 2:
            return [list(q) for q in p], faces, cs, turn


def split(a, cl):
    out, s = [], 0
    for e in ints(cl):
        out.append([x for x in list(a)[s:e]])
        s = e
    return out


class World:

    def __init__(self, r):
        self.r = r
        self.m = new_model('w.epc')
        self.n = 0

    def crs(self, plain = False):
        r = self.r
        ft = r.random() < 0.15
        xyu, zu = ('ft', 'ft') if ft else (r.choice(['m', 'm', 'dm']), r.choice(['m', 'm', 'dm']))
        order = 'easting northing' if plain else r.choice(['easting northing', 'easting northing', 'northing easting', 'westing southing'])
        down = r.random() < 0.6
        c = rqc.Crs(self.m, xy_units = xyu, z_units = zu, z_inc_down = down, axis_order = order, title = 'c%d' % self.n)
        c.create_xml(reuse = False)
        self.c, self.down = c, down
        right_xy = order != 'northing easting'
        self.about = {'rh': right_xy != down, 'ud': PER.get(xyu, 1), 'zd': PER.get(zu, 1), 'ft': ft}
        # the axes are right handed when z is towards the eye with y to the left of x
        return c

    def full(self, g):
        g.cache_all_geometry_arrays()
        h = split([bool(x) for x in g.cell_face_is_right_handed], g.faces_per_cell_cl)
        idle = [False] * g.cell_count if g.inactive is None else [bool(x) for x in g.inactive]
        return {'shape': g.cell_shape, 'p': pts(g.points_ref()), 'faces': split(ints(g.nodes_per_face), g.nodes_per_face_cl),
                'cells': split(ints(g.faces_per_cell), g.faces_per_cell_cl), 'hand': h, 'idle': idle,
                'layers': int(getattr(g, 'nk', 0) or 0), 'cls': type(g).__name__}

    # ---- making

    def arrays(self):
        r = self.r
        self.crs()
        shape = r.choice(['tetrahedral', 'pyramidal', 'prism', 'hexahedral', 'hexahedral', 'polyhedral'])
        p, faces, cells, turn = some_mesh(r, shape)
        hand = [[x == self.about['rh'] for x in row] for row in turn]
        cls = OWN[shape] if r.random() < 0.7 else 'Unstructured'
        idle = [r.random() < 0.3 for _ in cells] if r.random() < 0.5 else [False] * len(cells)
        self.title = 'g%d' % self.n
        g = rug.UnstructuredGrid(self.m, cell_shape = shape, title = self.title) if cls == 'Unstructured' else getattr(rug, CLS[cls])(self.m, title = self.title)
        g.crs_uuid = self.c.uuid
        g.set_cell_count(len(cells))
        g.node_count, g.face_count = len(p), len(faces)
        g.points_cached = np.array(p, dtype = float)
        g.nodes_per_face = np.array([n for f in faces for n in f], dtype = int)
        g.nodes_per_face_cl = np.cumsum([len(f) for f in faces])
        g.faces_per_cell = np.array([f for c in cells for f in c], dtype = int)
        g.faces_per_cell_cl = np.cumsum([len(c) for c in cells])
        g.cell_face_is_right_handed = np.array([x for row in hand for x in row], dtype = bool)
        if True in idle:
            g.inactive = np.array(idle, dtype = bool)
        self.g, self.cls, self.shape, self.kept = g, cls, shape, False
        self.nf, self.nc = [len(f) for f in faces], [len(c) for c in cells]
        e = {'op': 'arrays', 'shape': shape, 'p': p, 'faces': faces, 'cells': cells, 'hand': hand, 'idle': idle, 'res': {'k': 'ok'}, 'obs': {}}
        e.update(self.about)
        return e

    def hexa(self):
        r, m = self.r, self.m
        c = self.crs(plain = True)
        n = [r.randint(1, 3) for _ in range(3)]
        d = [r.choice([4, 5, 6]) for _ in range(3)]
        flip = [r.random() < 0.3 for _ in range(3)]
        p = []
        for k in range(n[0] + 1):
            for j in range(n[1] + 1):
                for i in range(n[2] + 1):
                    q = [i * d[0], j * d[1], k * d[2]]
                    q = [(-x if f else x) + r.choice([-1, 0, 0, 0, 1]) for x, f in zip(q, flip)]
                    p.append(q)
        cells = n[0] * n[1] * n[2]
        idle = [r.random() < 0.3 for _ in range(cells)] if r.random() < 0.5 else [False] * cells
        ig = grr.RegularGrid(m, extent_kji = tuple(n), dxyz = tuple(float(x) for x in d), crs_uuid = c.uuid, set_points_cached = True, title = 'ijk%d' % self.n)
        ig.points_cached = np.array(p, dtype = float).reshape((n[0] + 1, n[1] + 1, n[2] + 1, 3))
        ig.grid_is_right_handed = ((sum(flip) % 2 == 0) == self.about['rh'])
        if True in idle:
            ig.inactive = np.array(idle, dtype = bool).reshape(n)
        ig.write_hdf5()
        ig.create_xml(add_cell_length_properties = False, use_lattice = False, write_geometry = True)
        props = []
        for q in range(r.randint(0, 3)):
            disc = r.random() < 0.4
            count = r.choice([1, 1, 2])
            kind = r.choice(['index', 'count']) if disc else r.choice(['porosity', 'net to gross ratio', 'depth'])
            a = np.array([r.randint(0, 50) for _ in range(cells * count)])
            a = a.reshape(n + [count] if count > 1 else n)
            real = r.choice([-1, 0, 3])
            facet = r.random() < 0.3
            uom = 'Euc' if disc else 'm' if kind == 'depth' else 'm3/m3'
            rqp.Property.from_array(m, a if disc else a.astype(float), 'test', 'zq%d' % q, ig.uuid, property_kind = kind, uom = None if disc else uom,
                                    discrete = disc, realization = None if real < 0 else real, count = count,
                                    facet_type = 'qualifier' if facet else None, facet = 'alpha' if facet else None)
            props.append({'t': 'zq%d' % q, 'kind': kind, 'disc': disc, 'real': real, 'count': count, 'facet': 'alpha' if facet else '',
                          'uom': '' if disc else uom, 'v': ints(a), 'at': 'cells'})
        inherit = r.random() < 0.8
        self.title = 'h%d' % self.n
        e = {'op': 'hexa', 'inherit': inherit, 'n': n, 'p': p, 'idle': idle, 'props': props if inherit else [], 'res': {'k': 'ok'},
             'obs': {'shape': '', 'p': [], 'faces': [], 'cells': [], 'hand': [], 'idle': [], 'props': []}}
        e.update(self.about)
        if r.random() < 0.3:
            m.store_epc(quiet = True)
        k, x = vlib.call(rug.HexaGrid.from_unsplit_grid, m, ig.uuid, inherit_properties = inherit, title = self.title, write_active = r.choice([None, True]))
        if k == 'exc':
            e['res']['k'] = 'err:' + brief(x)
            return e
        self.g, self.cls, self.shape, self.kept = x, 'Hexa', 'hexahedral', True
        self.uuid = x.uuid
        if r.random() < 0.5:
            self.again('Hexa')
        e['obs'] = self.full(self.g)
        e['obs']['props'] = []
        pc = rqp.PropertyCollection(support = self.g)
        for part in pc.parts():
            t = pc.citation_title_for_part(part)
            if pc.property_kind_for_part(part) == 'active':
                continue
            re, disc = pc.realization_for_part(part), not pc.continuous_for_part(part)
            e['obs']['props'].append({'t': t, 'kind': pc.property_kind_for_part(part), 'disc': disc, 'real': -1 if re is None else int(re),
                                      'count': int(pc.count_for_part(part)), 'facet': pc.facet_for_part(part) or '',
                                      'uom': '' if disc else (pc.uom_for_part(part) or ''), 'v': ints(pc.cached_part_array_ref(part)),
                                      'at': pc.indexable_for_part(part)})
        self.nf, self.nc = [len(f) for f in e['obs']['faces']], [len(q) for q in e['obs']['cells']]
        return e

    def prism(self):
        r, m = self.r, self.m
        c = self.crs()
        a, b = r.randint(2, 3), r.randint(2, 3)
        xy = [[6 * i + r.randint(-1, 1), 6 * j + r.randint(-1, 1)] for i in range(a) for j in range(b)]
        tri = []
        for i in range(a - 1):
            for j in range(b - 1):
                w = i * b + j
                tri += r.choice([[[w, w + b, w + 1], [w + 1, w + b, w + b + 1]], [[w, w + b, w + b + 1], [w, w + b + 1, w + 1]]])
        tri = [r.sample(t, 3) for t in tri]
        if len(tri) > 2 and r.random() < 0.4:
            tri = r.sample(tri, r.randint(2, len(tri)))
        used = sorted({n for t in tri for n in t})
        xy = [xy[n] for n in used]
        tri = [[used.index(n) for n in t] for t in tri]
        r.shuffle(tri)
        own = r.random() < 0.5
        z, surfaces = [], []
        top = r.randint(0, 5)
        if own:
            zs = [top + r.randint(-2, 2) for _ in xy]
            s = rqs.Surface(m, crs_uuid = c.uuid, title = 's')
            s.set_from_triangles_and_points(np.array(tri), np.array([q + [w] for q, w in zip(xy, zs)], dtype = float))
            # points of a surface may be put in another order
            t2, p2 = s.triangles_and_points()
            tri, xy, zs = [ints(t) for t in t2], [[int(q[0]), int(q[1])] for q in p2], [int(q[2]) for q in p2]
            z.append(zs)
            surfaces.append(s)
        for n in range(r.randint(1, 3) if own else r.randint(2, 4)):
            top += r.randint(8, 14) if (own and n == 0) else r.randint(3, 6)
            if own and n == 0:
                top += 10
            s = rqs.Surface(m, crs_uuid = c.uuid, title = 's')
            u, v = (r.choice([-1, 0, 0, 1]), r.choice([-1, 0, 0, 1])) if False else (0, 0)
            u, v = (self.dip if hasattr(self, 'dip') else (0, 0))
            cut = r.choice([None, None, 3, 9]) if z else None
            lo, hi = -100, 100 if cut is None else cut
            box = [(lo, -101), (hi + 0.5, -101), (lo, 103), (hi + 0.5, 103)]
            s.set_from_triangles_and_points(np.array([[0, 1, 2], [1, 3, 2]]), np.array([[x, y, top + u * x + v * y] for x, y in box]))
            z.append([99999 if cut is not None and q[0] > hi else top + u * q[0] + v * q[1] for q in xy])
            surfaces.append(s)
        self.title = 'v%d' % self.n
        e = {'op': 'prism', 'tri': tri, 'xy': xy, 'z': z, 'none': 99999, 'res': {'k': 'ok'},
             'obs': {'shape': '', 'p': [], 'faces': [], 'cells': [], 'hand': [], 'idle': [], 'layers': 0}}
        e.update(self.about)
        kw = {} if own else {'column_points': np.array([q + ([0] if r.random() < 2 else []) for q in xy], dtype = float), 'column_triangles': np.array(tri)}
        k, x = vlib.call(rug.VerticalPrismGrid.from_surfaces, m, surfaces, title = self.title, **kw)
        if k == 'exc':
            e['res']['k'] = 'err:' + brief(x)
            return e
        self.g, self.cls, self.shape, self.kept = x, 'VPrism', 'prism', False
        e['obs'] = self.full(x)
        self.nf, self.nc = [len(f) for f in e['obs']['faces']], [len(q) for q in e['obs']['cells']]
        return e

    # ---- storing

    def again(self, cls):
        self.m.store_epc(quiet = True)
        self.m.h5_release()
        self.m = rq.Model('w.epc', quiet = True)
        if cls == 'any':
            self.g = grr.any_grid(self.m, uuid = self.uuid)
        else:
            self.g = getattr(rug, CLS[cls])(self.m, uuid = self.uuid, cache_geometry = self.r.random() < 0.3)

    def keep(self):
        r = self.r
        own = 'VPrism' if self.cls == 'VPrism' else OWN[self.shape]
        cls = r.choice([own, own, 'Unstructured', 'any']) if own != 'VPrism' else 'VPrism'
        e = {'op': 'kept', 'cls': CLS[OWN[self.shape] if cls == 'any' else cls], 'res': {'k': 'ok'}, 'obs': {}}

        def go():
            if not self.kept:
                self.g.write_hdf5()
                self.g.create_xml()
                self.kept = True
            self.uuid = self.g.uuid
            self.again(cls)
            self.cls = OWN[self.shape] if cls == 'any' else cls
            return self.full(self.g) if r.random() < 0.4 else None
        k, x = vlib.call(go)
        if k == 'exc':
            e['res']['k'] = 'err:' + brief(x)
            return e
        if x is None:
            return None
        e['obs'] = x
        return e

    # ---- asking

    def asked(self, e, makers):
        """Calls the makers, each giving part of what is seen, in any order."""
        names = list(makers)
        self.r.shuffle(names)

        def go():
            got = {}
            for n in names:
                got[n] = makers[n]()
            return {n: got[n] for n in makers}
        k, x = vlib.call(go)
        e['obs'] = {n: [] for n in makers} if k == 'exc' else x
        e['res'] = {'k': 'err:' + brief(x) if k == 'exc' else 'ok'}
        return e

    def whole(self):
        g, r = self.g, self.r
        mask = [r.random() < 0.4 for _ in range(g.cell_count)]
        a = np.array(mask, dtype = bool)
        return self.asked({'op': 'whole', 'mask': mask}, {
            'counts': lambda: [int(g.cell_count), int(g.face_count), int(g.node_count)],
            'active': lambda: int(g.active_cell_count()),
            'box': lambda: pts(g.xyz_box()),
            'most': lambda: [int(g.max_face_count_for_any_cell()), int(g.max_node_count_for_any_face())],
            'users': lambda: [ints(q) for q in g.set_cells_per_face()],
            'users_masked': lambda: [ints(q) for q in g.masked_cells_per_face(a)],
            'external': lambda: ints(g.external_face_indices()),
            'external_masked': lambda: ints(g.external_face_indices_for_masked_cells(a)),
            'internal_masked': lambda: ints(g.internal_face_indices_for_masked_cells(a))})

    def volume(self, v, uom):
        return near(v, 12 if uom == 'dm3' or self.about['ft'] else 12000)

    def meets(self, nodes):
        a = self.g.points_ref()[list(nodes)]
        return len({tuple(q) for q in a.tolist()}) < len(a)

    def mild(self, faces):
        """Faces are not bent, nor hollow, so much that there is no telling how they should be cut."""
        for f in faces:
            q = self.g.points_ref()[self.g.node_indices_for_face(f)] * np.array([self.about['ud'], self.about['ud'], self.about['zd']], dtype = float)
            if len(q) == 3:
                continue
            a = np.sum([np.cross(q[i - 1] - q[0], q[i] - q[0]) for i in range(len(q))], axis = 0)
            n, mid = a / np.linalg.norm(a), np.mean(q, axis = 0)
            if max(abs(np.dot(x - mid, n)) for x in q) > 0.08 * math.sqrt(np.linalg.norm(a)):
                return False
            for i in range(len(q)):
                u, v = q[i - 1] - q[i - 2], q[i] - q[i - 1]
                if np.dot(np.cross(u, v), n) < 0.2 * np.linalg.norm(u) * np.linalg.norm(v):
                    return False
        return True

    def cell(self):
        g, r = self.g, self.r
        c = r.randrange(len(self.nc))
        special = self.cls in ('Tetra', 'Pyramid', 'Hexa')
        e = {'op': 'cell', 'cell': c, 'plain': self.cls != 'Pyramid', 'exact': special, 'volume': r.random() < 0.8 and (not self.meets(g.distinct_node_indices_for_cell(c)) and (special or self.mild(g.face_indices_for_cell(c)))),
             'corners': (self.cls == 'Hexa' or self.cls == 'VPrism')}
        uom = r.choice([None, None, 'm3', 'dm3']) if special and not self.about['ft'] else None
        kw = {'required_uom': uom} if uom else {}
        all_at_once = r.random() < 0.3

        def hands():
            f, h = g.face_indices_and_handedness_for_cell(c)
            assert ints(f) == ints(g.face_indices_for_cell(c))
            return [bool(x) for x in h]

        def centre():
            p = g.centre_point()[c] if all_at_once else g.centre_point(cell = c)
            assert p.shape == (3,)
            return pts(p, 1440)[0]

        def corners():
            a = g.corner_points(c)
            if self.cls == 'VPrism':
                assert a.shape == (2, 3, 3)
                if all_at_once:
                    a = g.corner_points()[c]
            return pts(a)
        q = {'count': lambda: int(g.face_count_for_cell(c)), 'faces': lambda: ints(g.face_indices_for_cell(c)), 'hands': hands,
             'nodes': lambda: ints(g.distinct_node_indices_for_cell(c)), 'edges': lambda: [ints(x) for x in g.distinct_edges_for_cell(c)],
             'centres': lambda: pts(g.cell_face_centre_points(c), 12), 'centre': centre}
        if e['volume']:
            q['volume'] = lambda: self.volume(g.volume(c, **kw), uom)
        if e['corners']:
            q['corners'] = corners
        return self.asked(e, q)

    def face(self):
        g, r = self.g, self.r
        f = r.randrange(len(self.nf))
        if self.meets(g.node_indices_for_face(f)) or not self.mild([f]):
            return None
        return self.asked({'op': 'face', 'face': f}, {
            'count': lambda: int(g.node_count_for_face(f)), 'nodes': lambda: ints(g.node_indices_for_face(f)),
            'edges': lambda: [ints(x) for x in g.edges_for_face(f)],
            'ordered': lambda: [ints(x) for x in g.edges_for_face_with_node_indices_ordered_within_pairs(f)],
            'centre': lambda: pts(g.face_centre_point(f), 12)[0], 'normal': lambda: [hu(x, 10000) for x in g.face_normal(f)],
            'tri': lambda: [ints(x) for x in (g.face_triangulation(f) if r.random() < 0.5 else g.node_indices_for_face(f)[g.face_triangulation(f, local_nodes = True)])],
            'planar': lambda: [[hu(x, 1000) for x in q] for q in g.planar_face_points(f)],
            'areas': lambda: [hu(g.area_of_face(f, in_plane = x)**2, 4) for x in (False, True)]})

    def tetra(self):
        g, r = self.g, self.r
        c = r.randrange(len(self.nc))
        if self.meets(g.distinct_node_indices_for_cell(c)) or not self.mild(g.face_indices_for_cell(c)):
            return None
        e = {'op': 'tetra', 'cell': c, 'handed': r.random() < 0.6}

        def go():
            t = rug.TetraGrid.from_unstructured_cell(g, c, set_handedness = e['handed'])
            if e['handed'] and self.nc[c] == 4:
                t.set_cell_face_is_right_handed_from_geometry()
            h = t.cell_face_is_right_handed.reshape((-1, 4))
            p = t.points_ref()
            out = []
            for n in range(t.cell_count):
                out.append({'f': [[[hu(x, 6) for x in p[w]] for w in t.node_indices_for_face(f)] for f in t.face_indices_for_cell(n)],
                            'h': [bool(x) for x in h[n]]})
            return out, self.volume(t.grid_volume(), None), [int(t.face_count), len(t.external_face_indices())]
        k, x = vlib.call(go)
        e['obs'] = {'tets': [], 'volume': 0, 'counts': []} if k == 'exc' else {'tets': x[0], 'volume': x[1], 'counts': x[2]}
        e['res'] = {'k': 'err:' + brief(x) if k == 'exc' else 'ok'}
        return e

    def hands(self):
        g = self.g

        def go():
            g.set_cell_face_is_right_handed_from_geometry()
            return split([bool(x) for x in g.cell_face_is_right_handed], g.faces_per_cell_cl)
        return self.asked({'op': 'hands'}, {'hand': go})

    def column(self):
        g = self.g
        return self.asked({'op': 'column'}, {
            'columns': lambda: int(g.column_count()), 'top': lambda: ints(g.top_faces()), 'tri': lambda: [ints(x) for x in g.triangulation()],
            'thick': lambda: [near(x, 3) for x in g.thickness()] if self.r.random() < 0.5 else [near(g.thickness(c), 3) for c in range(g.cell_count)]})


def cells(params, tr):
    r = random.Random(params['seed'])
    w = World(r)
    ev = tr['events']
    for _ in range(r.choice([1, 1, 2])):
        w.n += 1
        how = r.random()
        e = w.arrays() if how < 0.55 else w.hexa() if how < 0.8 else w.prism()
        ev.append(e)
        if e['res']['k'] != 'ok':
            return
        for _ in range(r.randint(3, 8)):
            ask = ['cell', 'cell', 'cell', 'face', 'face', 'whole', 'tetra', 'keep']
            if w.cls == 'VPrism':
                ask += ['column', 'column']
            if w.cls == 'Tetra' and not w.kept:
                ask += ['hands']
            e = getattr(w, r.choice(ask))()
            if e is not None:
                ev.append(e)
                if e['res']['k'] != 'ok':
                    return


PARTS = {'cells': (cells, 'PolyTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCPoly', 'MCPoly' + ('.cfg' if quick else '_thorough.cfg'))
    base = vlib.seed() * 1000003
    c.conform('cells', cells, [{'seed': base + i} for i in range(900 if quick else 30000)], 'PolyTrace')
