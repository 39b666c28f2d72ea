"""C21: faces of grid cells representing a surface."""
import vlib
from rqutil import *
import resqpy.grid as grr
import resqpy.grid_surface as rqgs
import resqpy.grid_surface._find_faces as ff
import resqpy.multi_processing.wrappers.grid_surface_mp as gmp
import resqpy.property as rqp
import resqpy.rq_import as rqi
import resqpy.fault as rqf
import resqpy.surface as rqs
import math
import random

PER = {'m': 1, 'dm': 10}


def hu(x):
    x = float(x)
    return 99999999 if not math.isfinite(x) or abs(x) > 1e7 else int(math.floor(x * 100 + 0.5))


def brief(x):
    """The class of an exception."""
    return x.split(':')[0] if x.startswith('AssertionError: face set') else x


def some_grid(r):
    while True:
        nk, nj, ni = r.randint(1, 4), r.randint(1, 4), r.randint(1, 4)
        if 2 <= nk * nj * ni <= 36:
            break
    g = {'plain': r.random() < 0.75, 'n': [nk, nj, ni], 'xyu': r.choice(['m', 'm', 'dm']), 'zu': r.choice(['m', 'm', 'dm']),
         'down': r.random() < 0.6, 'zoff': r.choice([0, 0, 100, -30]), 'xoff': r.choice([0, 0, 50]), 'thr': [[0] * ni for _ in range(nj)]}
    if g['plain']:
        g['d'] = [r.choice([4, 6, 8, 10]) for _ in range(3)]
        es = [[d * q for q in range(n + 1)] for d, n in zip(g['d'], (ni, nj, nk))]
    else:
        es = []
        for n in (ni, nj, nk):
            q = [0]
            for _ in range(n):
                q.append(q[-1] + r.choice([4, 6, 8, 10]))
            es.append(q)
        if r.random() < 0.7:
            d = r.choice([-11, -6, 3, 4, 9, 17])
            p = r.randint(0, ni)
            for j in range(nj):
                for i in range(p, ni):
                    g['thr'][j][i] += d
    g['es'] = es
    g['c'] = [[(a + b) // 2 for a, b in zip(q, q[1:])] for q in es]
    return g


def centre(g, k, j, i):
    return (g['c'][0][i], g['c'][1][j], g['c'][2][k] + g['thr'][j][i])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def clear(g, tris):
    """True if no line between centres of neighbours touches the edge of a triangle or ends on one."""
    nk, nj, ni = g['n']
    pairs = []
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                for c in ((k + 1, j, i), (k, j + 1, i), (k, j, i + 1)):
                    if c[0] < nk and c[1] < nj and c[2] < ni:
                        pairs.append((centre(g, k, j, i), centre(g, *c)))
    for t in tris:
        m = cross(sub(t[1], t[0]), sub(t[2], t[0]))
        if m == (0, 0, 0):
            return False
        for p, q in pairs:
            a, b = dot(m, sub(p, t[0])), dot(m, sub(q, t[0]))
            if a * b > 0:
                continue
            d = sub(q, p)
            v = [dot(cross(d, sub(t[x], p)), sub(t[(x + 1) % 3], p)) for x in range(3)]
            if min(v) < 0 < max(v):
                continue
            if a == 0 or b == 0 or 0 in v:
                return False
    return True


def sheet(r, g):
    """A sheet of triangles all wound the same way; heights over two of the axes."""
    up = r.choice([0, 1, 2, 2])
    u, v = [a for a in range(3) if a != up]
    hi = [q[-1] for q in g['es']]
    m, n = r.randint(2, 3), r.randint(2, 3)
    whole = r.random() < 0.7

    def line(a, n):
        lo, top = (-r.randint(3, 7), hi[a] + r.randint(3, 7)) if whole else sorted(r.sample(range(-5, hi[a] + 6), 2))
        if n == 2:
            return [lo, max(top, lo + 4)]
        return [lo, (lo + top) // 2 + r.randint(-1, 1), max(top, lo + 6)]
    lu, lv = line(u, m), line(v, n)
    amp = r.choice([0, 0, 3, 8])
    mid = r.randint(1, max(hi[up] - 1, 2))
    su, sv = (r.choice([0, 0.3, -0.3, 0.7, -1, 1.3]), r.choice([0, 0, 0.3, -0.5, 1])) if amp == 0 else (0, 0)
    pts = []
    for a in range(m):
        for b in range(n):
            p = [0, 0, 0]
            p[u], p[v], p[up] = lu[a], lv[b], mid + r.randint(-amp, amp) + int(su * (lu[a] - hi[u] // 2) + sv * (lv[b] - hi[v] // 2))
            if r.random() < 0.3 and 0 < a < m - 1:
                p[u] += r.choice([-1, 1])
            pts.append(p)
    tri = []
    for a in range(m - 1):
        for b in range(n - 1):
            w = a * n + b
            tri += r.choice([[[w, w + n, w + 1], [w + 1, w + n, w + n + 1]], [[w, w + n, w + n + 1], [w, w + n + 1, w + 1]]])
    # folds are slight when true
    return pts, tri, amp == 0 and (g['xyu'] == g['zu'] or su == sv == 0)


def some_surface(r, g):
    hi = [q[-1] for q in g['es']]
    for _ in range(150):
        how = r.random()
        is_sheet = False
        if how < 0.5:
            pts, tri, is_sheet = sheet(r, g)
        elif how < 0.7:  # curtain
            n = r.randint(2, 4)
            a, b = (0, 1) if r.random() < 0.5 else (1, 0)
            along = sorted(r.sample(range(-8, hi[a] + 9), n))
            if r.random() < 0.7:
                along[0], along[-1] = -9, hi[a] + 9
            top, base = (-9, hi[2] + 9) if r.random() < 0.7 else sorted(r.sample(range(-9, hi[2] + 10), 2))
            pts = []
            for s in along:
                at = r.randint(1, max(hi[b] - 1, 2))
                for z in (top, base):
                    p = [0, 0, z]
                    p[a], p[b] = s, at
                    pts.append(p)
            tri = []
            for q in range(n - 1):
                tri += [[2 * q, 2 * q + 2, 2 * q + 1], [2 * q + 1, 2 * q + 2, 2 * q + 3]]
            is_sheet = n == 2
        elif how < 0.85:  # closed
            c = [r.randint(2, max(h - 2, 3)) for h in hi]
            w = [r.randint(3, 14) for _ in range(3)]
            pts = []
            for a in range(3):
                for s in (-1, 1):
                    p = list(c)
                    p[a] += s * w[a]
                    pts.append(p)
            pts = [[x + r.randint(-1, 1) for x in p] for p in pts]
            tri = [[x, y, z] for x in (0, 1) for y in (2, 3) for z in (4, 5)]
        else:
            n = r.randint(1, 5)
            pts = [[r.randint(-5, h + 5) for h in hi] for _ in range(3 * n)]
            tri = [[3 * q, 3 * q + 1, 3 * q + 2] for q in range(n)]
        if not is_sheet:
            tri = [r.sample(t, 3) for t in tri]
        if not is_sheet and r.random() < 0.4:  # corners in planes of cell centres
            cs = [[centre(g, *[x if b == 2 - a else 0 for b in range(3)])[a] for x in range(g['n'][2 - a])] for a in range(3)]
            pts = [[r.choice(cs[a]) if r.random() < 0.3 else p[a] for a in range(3)] for p in pts]
        ts = [[tuple(pts[x]) for x in t] for t in tri]
        if clear(g, ts):
            return pts, tri, is_sheet
    return None


class World:

    def __init__(self, r):
        self.r = r
        self.m = new_model('w.epc')

    def make_grid(self, g):
        self.g = g
        m = self.m
        nk, nj, ni = g['n']
        self.crs = rqc.Crs(m, xy_units = g['xyu'], z_units = g['zu'], z_inc_down = g['down'], x_offset = float(g['xoff']),
                           z_offset = float(g['zoff']), title = 'gc')
        self.crs.create_xml()
        if g['plain']:
            self.grid = grr.RegularGrid(m, extent_kji = (nk, nj, ni), dxyz = tuple(float(x) for x in g['d']), crs_uuid = self.crs.uuid,
                                        set_points_cached = self.r.random() < 0.5, title = 'box')
            self.grid.create_xml(use_lattice = self.r.random() < 0.5)
        else:
            cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
            xs, ys, zs = g['es']
            for k in range(nk):
                for j in range(nj):
                    for i in range(ni):
                        for kp in range(2):
                            for jp in range(2):
                                for ip in range(2):
                                    cp[k, j, i, kp, jp, ip] = (xs[i + ip], ys[j + jp], zs[k + kp] + g['thr'][j][i])
            self.grid = rqi.grid_from_cp(m, cp, self.crs.uuid, dot_tolerance = 0.0, morse_tolerance = 1000.0, max_z_void = 0.1,
                                         ijk_handedness = 'right' if g['down'] else 'left')
            self.grid.write_hdf5()
            self.grid.create_xml(write_geometry = True)
            self.grid = grr.Grid(m, uuid = self.grid.uuid)

    def make_surface(self, pts, tri):
        r, g = self.r, self.g
        a = np.array(pts, dtype = float)
        crs = self.crs
        self.other = False
        if r.random() < 0.45:
            xyu, zu, down = r.choice(['m', 'dm']), r.choice(['m', 'dm']), r.random() < 0.5
            xo, zo = float(r.choice([0, 50, -7])), float(r.choice([0, 20, -100]))
            crs = rqc.Crs(self.m, xy_units = xyu, z_units = zu, z_inc_down = down, x_offset = xo, z_offset = zo, title = 'sc')
            crs.create_xml()
            f = PER[xyu] / PER[g['xyu']]
            a[:, 0] = (a[:, 0] + g['xoff']) * f - xo
            a[:, 1] = a[:, 1] * f
            z = (a[:, 2] + g['zoff']) * (1 if g['down'] else -1) * PER[zu] / PER[g['zu']]
            a[:, 2] = z * (1 if down else -1) - zo
            self.other = True
        self.surf = rqs.Surface(self.m, crs_uuid = crs.uuid, title = 'sheet')
        self.surf.set_from_triangles_and_points(np.array(tri, dtype = int), a)
        if r.random() < 0.5:
            self.surf.write_hdf5()
            self.surf.create_xml()
            if r.random() < 0.6:
                self.surf = rqs.Surface(self.m, uuid = self.surf.uuid)
            self.kept = True
        else:
            self.kept = False

    def faces(self, gcs, props):
        q = []
        for n in range(gcs.count):
            pair = [[int(x) for x in self.grid.denaturalized_cell_index(int(c))] for c in gcs.cell_index_pairs[n]]
            axis, pol = [int(x) for x in gcs.face_index_inverse_map[int(gcs.face_index_pairs[n, 0])]]
            low = list(pair[0])
            if pol == 0:
                low[axis] -= 1
            axis2, pol2 = [int(x) for x in gcs.face_index_inverse_map[int(gcs.face_index_pairs[n, 1])]]
            if axis2 != axis or pol2 == pol:
                low = [-1, -1, -1]
            e = {'f': [axis + 1] + low, 'a': pair[0], 'b': pair[1], 'tri': -1, 'off': 0, 'depth': 0, 'normal': [0, 0, 0]}
            if 'triangle' in props:
                e['tri'] = int(props['triangle'][n])
            if 'offset' in props:
                e['off'] = hu(props['offset'][n])
            if 'depth' in props:
                e['depth'] = hu(props['depth'][n])
            if 'normal vector' in props:
                e['normal'] = [max(-99999, min(99999, int(math.floor(x * 1000 + 0.5)))) if math.isfinite(x) else 99999
                               for x in [float(y) for y in props['normal vector'][n]]]
            q.append(e)
        return q


def ints(a):
    return np.array(a).astype(int).tolist()


EMPTY = {'faces': [], 'bis': [], 'up': False, 'shadow': [], 'related': False}


def find_options(r, w, g, how = None):
    e = {'op': 'find', 'curtain': False, 'raw': False, 'tri': False, 'off': False, 'depth': False, 'bis': False, 'shadow': False,
         'normal': False, 'sides': False, 'agitate': False}
    e['how'] = how or (r.choice(['regular', 'optimised', 'optimised', 'dense', 'staffa', 'auto']) if g['plain'] else r.choice(['staffa', 'auto']))
    if e['how'] in ('optimised', 'dense'):
        for x, p in (('tri', 0.7), ('off', 0.7), ('depth', 0.7), ('bis', 0.5), ('shadow', 0.4), ('curtain', 0.25), ('raw', 0.3), ('agitate', 0.3)):
            e[x] = r.random() < p
        if e['how'] == 'dense' and min(g['n'][1:]) == 1:
            e['curtain'] = False
    elif e['how'] == 'regular':
        for x, p in (('off', 0.6), ('normal', 0.6), ('sides', 0.5), ('agitate', 0.3)):
            e[x] = r.random() < p
    return e


def do_find(w, e, r):
    res, obs = {'k': 'ok'}, dict(EMPTY)
    names = [n for n, x in (('triangle', 'tri'), ('depth', 'depth'), ('offset', 'off'), ('grid bisector', 'bis'), ('grid shadow', 'shadow'),
                            ('normal vector', 'normal')) if e[x]]
    r.shuffle(names)

    def go():
        how = e['how']
        if how == 'staffa':
            if r.random() < 0.5:
                return rqgs.find_faces_to_represent_surface(w.grid, w.surf, 'ff', mode = 'staffa')
            return rqgs.find_faces_to_represent_surface_staffa(w.grid, w.surf, 'ff')
        if how == 'auto':
            return rqgs.find_faces_to_represent_surface(w.grid, w.surf, 'ff', feature_type = r.choice(['fault', 'horizon']))
        if how == 'regular':
            return rqgs.find_faces_to_represent_surface_regular(w.grid, w.surf, 'ff', agitate = e['agitate'], random_agitation = r.random() < 0.5,
                                                                consistent_side = e['sides'], return_properties = names or None)
        fn = (rqgs.find_faces_to_represent_surface_regular_optimised if how == 'optimised' else
              rqgs.find_faces_to_represent_surface_regular_dense_optimised)
        return fn(w.grid, w.surf, 'ff', is_curtain = e['curtain'], agitate = e['agitate'], random_agitation = r.random() < 0.5,
                  return_properties = names or None, raw_bisector = e['raw'], n_batches = r.choice([1, 3, 20]))
    k, x = vlib.call(go)
    if k == 'exc':
        res['k'] = 'err:' + brief(x)
        return res, obs
    props = {}
    if isinstance(x, tuple):
        x, props = x
    if x is None:
        res['k'] = 'none'
        return res, obs
    obs['faces'] = w.faces(x, props)
    if e['bis']:
        a, up = props['grid bisector']
        obs['bis'], obs['up'] = ints(a), bool(up)
    if e['shadow']:
        obs['shadow'] = ints(props['grid shadow'])
    return res, obs


def do_stored(w, e, r):
    """Runs the function made for many surfaces at once; the result read back from the package it leaves."""
    res, obs = {'k': 'ok'}, dict(EMPTY)
    m = w.m
    if not w.kept:
        w.surf.write_hdf5()
        w.surf.create_xml()
        w.kept = True
    m.store_epc(quiet = True)
    m.h5_release()
    names = [n for n, x in (('triangle', 'tri'), ('depth', 'depth'), ('offset', 'off'), ('grid bisector', 'bis'), ('grid shadow', 'shadow')) if e[x]]
    k, x = vlib.call(gmp.find_faces_to_represent_surface_regular_wrapper, 3, os.path.join(os.getcwd(), 'wr'), r.random() < 0.5, 'w.epc', w.grid.uuid, 'w.epc',
                     w.surf.uuid, 'ff', is_curtain = e['curtain'], return_properties = names or None, raw_bisector = e['raw'])
    if k == 'exc':
        res['k'] = 'err:' + brief(x)
        return res, obs
    index, success, epc, uuids = x
    if not success or index != 3:
        res['k'] = 'unsuccessful'
        return res, obs
    n = rq.Model(epc, quiet = True)
    gs = n.uuids(obj_type = 'GridConnectionSetRepresentation')
    if len(gs) != 1 or not any(bu.matching_uuids(gs[0], u) for u in uuids):
        res['k'] = 'sets'
        return res, obs
    gcs = rqf.GridConnectionSet(n, uuid = gs[0])
    gcs.cache_arrays()
    props = {}
    for name, key in (('triangle', 'tri'), ('depth', 'depth'), ('offset', 'off')):
        if e[key]:
            u = n.uuid(title = 'sheet ' + name, related_uuid = gs[0])
            props[name] = rqp.Property(n, uuid = u).array_ref()
    obs['faces'] = w.faces(gcs, props)
    obs['related'] = True
    for name, key in (('grid bisector', 'bis'), ('grid shadow', 'shadow')):
        if e[key]:
            u = n.uuid(title = 'sheet ' + name)
            p = rqp.Property(n, uuid = u)
            obs['related'] = obs['related'] and n.uuid(title = 'sheet ' + name, related_uuid = w.grid.uuid) is not None
            obs[key] = ints(p.array_ref())
            if key == 'bis':
                obs['up'] = p.indexable_element() == 'columns'
    n.h5_release()
    return res, obs


def given_faces(r, n):
    """Sets of faces: the boundary of some set of cells, perhaps with faces missing or more of them."""
    nk, nj, ni = n
    how = r.random()
    if how < 0.35:
        cut = [[r.randint(0, nk) for _ in range(ni)] for _ in range(nj)]
        inside = lambda k, j, i: k < cut[j][i]
    elif how < 0.55:
        cut = [r.randint(0, ni) for _ in range(nj)]
        inside = lambda k, j, i: i < cut[j]
    elif how < 0.8:
        lo = [r.randint(0, x - 1) for x in n]
        hi = [r.randint(a + 1, x) for a, x in zip(lo, n)]
        inside = lambda k, j, i: lo[0] <= k < hi[0] and lo[1] <= j < hi[1] and lo[2] <= i < hi[2]
    else:
        ch = {(k, j, i): r.random() < 0.3 for k in range(nk) for j in range(nj) for i in range(ni)}
        inside = lambda k, j, i: ch[(k, j, i)]
    fs = []
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                for a, c in enumerate(((k + 1, j, i), (k, j + 1, i), (k, j, i + 1))):
                    if c[0] < nk and c[1] < nj and c[2] < ni and inside(k, j, i) != inside(*c):
                        fs.append([a + 1, k, j, i])
    if r.random() < 0.2 and fs:
        fs.remove(r.choice(fs))
    return fs


def split(fs, n):
    arrays = [np.zeros([x - (1 if a == b else 0) for b, x in enumerate(n)], dtype = bool) for a in range(3)]
    lists = [[], [], []]
    for f in fs:
        arrays[f[0] - 1][f[1], f[2], f[3]] = True
        lists[f[0] - 1].append(f[1:])
    return arrays, [np.array(q, dtype = int) if q else None for q in lists]


def do_cut(r):
    n = [r.randint(1, 5) for _ in range(3)]
    fs = given_faces(r, n)
    e = {'op': 'cut', 'n': n, 'faces': fs, 'raw': r.random() < 0.4, 'form': r.choice(['arrays', 'indices'])}
    arrays, lists = split(fs, n)
    if e['form'] == 'arrays':
        a = [x if (x.size and (np.any(x) or r.random() < 0.5)) else None for x in arrays]
        k, x = vlib.call(rqgs.bisector_from_faces, tuple(n), a[0], a[1], a[2], e['raw'])
    else:
        k, x = vlib.call(ff.bisector_from_face_indices, tuple(n), lists[0], lists[1], lists[2], e['raw'])
    obs = dict(EMPTY)
    if k == 'ok':
        obs['bis'], obs['up'] = ints(x[0]), bool(x[1])
    return dict(e, res = {'k': 'ok' if k == 'ok' else 'err:' + brief(x)}, obs = obs)


def do_columns(r):
    n = [1, r.randint(1, 6), r.randint(1, 6)]
    fs = [f for f in given_faces(r, n)]
    arrays, lists = split(fs, n)
    form = r.choice(['arrays', 'indices'])
    if form == 'arrays':
        k, x = vlib.call(rqgs.column_bisector_from_faces, tuple(n[1:]), arrays[1][0], arrays[2][0])
    else:
        q = [np.empty((0, 2), dtype = int) if y is None else y[:, 1:] for y in lists]
        k, x = vlib.call(ff.column_bisector_from_face_indices, tuple(n[1:]), q[1], q[2])
    obs = dict(EMPTY)
    if k == 'ok':
        obs['bis'] = ints(x)
    return {'op': 'columns', 'n': n, 'faces': fs, 'form': form, 'res': {'k': 'ok' if k == 'ok' else 'err:' + brief(x)}, 'obs': obs}


def do_shadow(r):
    n = [r.randint(2, 7), r.randint(1, 3), r.randint(1, 3)]
    p = r.choice([0.1, 0.3, 0.6])
    fs = [[1, k, j, i] for k in range(n[0] - 1) for j in range(n[1]) for i in range(n[2]) if r.random() < p]
    if not fs:
        fs = [[1, 0, 0, 0]]
    r.shuffle(fs)
    arrays, lists = split(fs, n)
    form = r.choice(['arrays', 'indices'])
    if form == 'arrays':
        k, x = vlib.call(rqgs.shadow_from_faces, tuple(n), arrays[0])
    else:
        k, x = vlib.call(ff.shadow_from_face_indices, tuple(n), lists[0])
    obs = dict(EMPTY)
    if k == 'ok':
        obs['shadow'] = ints(x)
    return {'op': 'shadow', 'n': n, 'faces': fs, 'form': form, 'res': {'k': 'ok' if k == 'ok' else 'err:' + brief(x)}, 'obs': obs}


def faces(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    w = World(r)
    s = None
    while s is None:
        g = some_grid(r)
        s = some_surface(r, g)
    w.make_grid(g)
    ev.append({'op': 'grid', 'n': g['n'], 'cx': g['c'][0], 'cy': g['c'][1], 'cz': g['c'][2], 'thr': g['thr'], 'plain': g['plain'],
               'xyd': PER[g['xyu']], 'zd': PER[g['zu']], 'zoff': g['zoff'], 'down': g['down'], 'res': {'k': 'ok'}, 'obs': {}})
    for turn in range(r.randint(1, 2)):
        if turn:
            s = some_surface(r, g)
            if s is None:
                break
        pts, tri, is_sheet = s
        w.make_surface(pts, tri)
        ev.append({'op': 'surf', 'tri': [[pts[x] for x in t] for t in tri], 'sheet': is_sheet, 'res': {'k': 'ok'},
                   'obs': {'other': w.other}})
        for _ in range(r.randint(1, 4)):
            e = find_options(r, w, g)
            res, obs = do_find(w, e, r)
            ev.append(dict(e, res = res, obs = obs))
    if g['plain'] and r.random() < 0.35:
        e = find_options(r, w, g, 'optimised')
        e.update(op = 'stored', how = 'optimised', agitate = False, normal = False, sides = False)
        res, obs = do_stored(w, e, r)
        ev.append(dict(e, res = res, obs = obs))


def parting(params, tr):
    r = random.Random(params['seed'])
    for _ in range(r.randint(3, 6)):
        tr['events'].append(r.choice([do_cut, do_cut, do_columns, do_shadow])(r))


PARTS = {'faces': (faces, 'FacesTrace'), 'parting': (parting, 'FacesTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCFaces', 'MCFaces' + ('.cfg' if quick else '_thorough.cfg'))
    base = vlib.seed() * 1000003
    for part, n, many in (('faces', 500, 20000), ('parting', 700, 20000)):
        c.conform(part, PARTS[part][0], [{'seed': base + i} for i in range(n if quick else many)], PARTS[part][1])
