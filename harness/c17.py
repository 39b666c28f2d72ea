"""C17: surfaces, meshes and sets of points."""
import vlib
from rqutil import *
import resqpy.surface as rqs
import resqpy.lines as rql
import resqpy.property as rqp
import random
from c13 import ints, whole

NAN = -77777


def w8(v, den = 8):
    """Rows of numbers, as integers in the given fraction."""
    v = np.asarray(v, dtype = float)
    o = whole(np.where(np.isnan(v), NAN / den, v), den)
    return [[int(x) for x in q] for q in o.reshape((-1, v.shape[-1]))] if v.size else []


def tp_of(t, p):
    return {'t': [[int(x) for x in q] for q in np.asarray(t)], 'p': w8(p)}


def patches(s):
    n = s.number_of_patches()
    return [tp_of(*s.triangles_and_points(patch = i)) for i in range(n)]


def arr(p):
    return np.array(p, dtype = float) / 8.0


def rand_tp(r, hi = 12, n = None, twod = False):
    """Triangles and (eighths of) points."""
    n = n or r.randint(3, 7)
    xy = r.sample([(x, y) for x in range(hi + 1) for y in range(hi + 1)], n)
    p = [[8 * x, 8 * y, 0 if twod else 8 * r.randint(-6, 6)] for x, y in xy]
    t = []
    for _ in range(r.randint(1, 5)):
        w = r.sample(range(n), 3)
        if set(w) not in [set(q) for q in t]:
            t.append(w)
    return t, p


def plan(r, nj, ni):
    """Points of a mesh, on lines that are sheared and stretched, in eighths."""
    a, b, c, d = r.choice([1, 1, 2]), r.choice([0, 0, 1]), r.choice([0, 0, -1, 1]), r.choice([1, 1, 2, -1])
    o = [r.randint(-3, 3), r.randint(-3, 3)]
    return [[[8 * (o[0] + a * i + c * j), 8 * (o[1] + b * i + d * j if a * d - b * c else j), 8 * r.randint(-5, 5)] for i in range(ni)] for j in range(nj)]


def surfaces(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')

    def add(e, fn):
        ev.append(e)
        e['obs'] = []
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    xu = 'm'
    zu = r.choice(['m', 'm', 'm', 'dm'])
    st = {'role': r.choice(['map', 'pick']), 'title': r.choice(['top', 'zq', 'under']), 'em': [['k%d' % i, 'v%d' % r.randint(0, 9)] for i in range(r.choice([0, 0, 1, 2]))],
          'down': r.random() < 0.5, 'off': [8 * r.choice([0, 0, 5, -3]) for _ in range(3)], 'fine': 3, 'src': None, 'stored': False, 'asis': False}
    e = {'op': 'new', 'role': st['role'], 'title': st['title'], 'em': st['em'], 'xyd': 10, 'zd': 10 if zu == 'm' else 1, 'down': st['down'], 'off': st['off']}

    def crs_for(off, down):
        c = rqc.Crs(m, z_inc_down = down, xy_units = xu, z_units = zu, x_offset = off[0] / 8, y_offset = off[1] / 8, z_offset = off[2] / 8)
        c.create_xml(reuse = False)
        return c

    def fn():
        st['crs'] = crs_for(st['off'], st['down'])
    if not add(e, fn):
        return

    def fresh(**k):
        em = dict(st['em'])
        return rqs.Surface(m, crs_uuid = st['crs'].uuid, title = st['title'], surface_role = st['role'], **({'extra_metadata': em} if em else {}), **k)

    pool = []
    for _ in range(2):
        t, p = rand_tp(r)
        pool.append([{'t': t, 'p': p}])
    e = {'op': 'build'}
    how = r.choice(['tp', 'tp', 'multi', 'mesh', 'mesh', 'sparse', 'torn', 'cells', 'plane', 'pair', 'tri', 'tsurf'])
    quad = r.random() < 0.5
    e['how'], e['quad'] = how, quad
    s = None
    st['src'] = None
    if how in ('tp', 'multi', 'tri', 'tsurf'):
        e['how'] = 'tp'
        if how == 'multi':
            e['pt'] = []
            for _ in range(r.choice([1, 2, 2, 3])):
                t, p = rand_tp(r)
                e['pt'].append({'t': t, 'p': p})
        elif how == 'tri':
            xy = r.sample([(x, y) for x in range(9) for y in range(9)], 3)
            e['pt'] = [{'t': [[0, 1, 2]], 'p': [[8 * x, 8 * y, 8 * r.randint(-5, 5)] for x, y in xy]}]
        else:
            twod = how == 'tp' and r.random() < 0.15
            t, p = rand_tp(r, twod = twod)
            e['pt'] = [{'t': t, 'p': p}]
        q = e['pt']

        def fn():
            nonlocal s
            if how == 'tsurf':
                base = r.choice([0, 1, 1, 7])
                with open('a.ts', 'w') as f:
                    f.write('GOCAD TSurf 1\nHEADER {\nname:x\n}\nTFACE\n')
                    for i, v in enumerate(arr(q[0]['p'])):
                        f.write('%s %d %.3f %.3f %.3f\n' % ('VRTX' if r.random() < 0.8 else 'PVRTX', base + i, *v))
                    for w in q[0]['t']:
                        f.write('TRGL %d %d %d\n' % tuple(base + x for x in w))
                    f.write('END\n')
                s = fresh(tsurf_file = 'a.ts')
            else:
                s = fresh()
                if how == 'tri':
                    s.set_to_triangle(arr(q[0]['p']))
                elif how == 'tp':
                    p = arr(q[0]['p'])
                    s.set_from_triangles_and_points(np.array(q[0]['t']), p[:, :2] if twod else p)
                else:
                    if r.random() < 0.3:        # had been something else before
                        s.set_from_triangles_and_points(np.array(pool[0][0]['t']), arr(pool[0][0]['p']))
                    s.set_multi_patch_from_triangles_and_points([(np.array(x['t']), arr(x['p'])) for x in q])
            e['obs'] = patches(s)
    elif how in ('mesh', 'sparse'):
        e['how'] = 'mesh'
        nj, ni = r.randint(2, 4), r.randint(2, 4)
        mm = plan(r, nj, ni)
        if how == 'sparse':
            for j in range(nj):
                for i in range(ni):
                    if r.random() < 0.25:
                        mm[j][i] = []
            if not any(x for row in mm for x in row):
                mm[0][0] = [0, 0, 0]
        e['m'] = mm
        full = np.array([[[x / 8 for x in q] if q else [8 * i, 8 * j, np.nan] for i, q in enumerate(row)] for j, row in enumerate(mm)])
        sparse = any(not q for row in mm for q in row)
        if not sparse:
            st['src'] = 'mesh'
            st['fine'] -= 2 if quad else 0
        via = r.choice(['direct', 'object', 'method', 'surface'])

        def fn():
            nonlocal s
            if via == 'direct':
                s = fresh()
                if sparse:
                    s.set_from_sparse_mesh(full)
                else:
                    s.set_from_irregular_mesh(full, quad_triangles = quad)
            else:
                mo = rqs.Mesh(m, xyz_values = full, crs_uuid = st['crs'].uuid)
                if via == 'object':
                    s = fresh(mesh = mo, quad_triangles = quad)
                elif via == 'method':
                    s = fresh()
                    s.set_from_mesh_object(mo, quad_triangles = quad)
                else:
                    s = mo.surface(quad_triangles = quad)
                    s.title, s.surface_role = st['title'], st['role']
                    if st['em']:
                        s.extra_metadata = dict(st['em'])
            e['obs'] = patches(s)
    elif how == 'torn':
        nj, ni = r.randint(1, 3), r.randint(1, 3)
        g = plan(r, nj + 1, ni + 1)
        cs = [[[[g[j + a][i + b][0], g[j + a][i + b][1], g[j + a][i + b][2] + 8 * r.choice([0, 0, 3])] for b in (0, 1)] for a in (0, 1)] for j in range(nj) for i in range(ni)]
        e['m'] = [[c[0][0], c[0][1], c[1][0], c[1][1]] for c in cs]
        e['ni'] = ni
        st['src'] = 'mesh'
        st['fine'] -= 2 if quad else 0

        def fn():
            nonlocal s
            s = fresh()
            s.set_from_torn_mesh(arr(cs).reshape((nj, ni, 2, 2, 3)), quad_triangles = quad)
            e['obs'] = patches(s)
    elif how == 'cells':
        n = r.choice([1, 1, 2, 3])
        e['m'] = []
        for c in range(n):
            o = [8 * r.randint(-3, 3) for _ in range(3)]
            e['m'].append([[o[0] + 8 * (2 * i + r.choice([0, 0, 1]) * k), o[1] + 8 * (3 * j + r.choice([0, 1]) * i), o[2] + 8 * (3 * k + r.choice([0, 1]))] for k in (0, 1) for j in (0, 1) for i in (0, 1)])
        st['src'] = 'cells'
        st['fine'] -= 2 if quad else 0

        def fn():
            nonlocal s
            s = fresh()
            cp = arr(e['m']).reshape((n, 2, 2, 2, 3))
            if n == 1 and r.random() < 0.6:
                s.set_to_single_cell_faces_from_corner_points(cp[0], quad_triangles = quad)
            else:
                s.set_to_multi_cell_faces_from_corner_points(cp, quad_triangles = quad)
            e['obs'] = patches(s)
    else:
        e['how'] = 'one'
        if how == 'plane':
            lo, up = [r.randint(-4, 2) for _ in range(2)], [r.randint(4, 9) for _ in range(2)]
            b, z = r.choice([0, 0, 1, 2]), r.randint(-5, 5)
            box = np.array([lo + [r.randint(-9, 0)], up + [r.randint(0, 9)]], dtype = float)
            x = [lo[0] - b, up[0] + b]
            y = [lo[1] - b, up[1] + b]
            e['m'] = [[[8 * i, 8 * j, 8 * z] for j in y for i in x]]
            st['fine'] -= 1 if quad else 0
        else:
            e['quad'] = quad = False
            e['m'] = [[[8 * (j * r.choice([0, 1]) + 5 * i), 8 * (4 * j + i * r.choice([0, 1])), 8 * r.randint(-4, 4)] for j in (0, 1) for i in (0, 1)]]

        def fn():
            nonlocal s
            s = fresh()
            if how == 'plane':
                k = dict(quad_triangles = quad) if quad or r.random() < 0.5 else {}
                if b:
                    k['border'] = float(b)
                s.set_to_horizontal_plane(float(z), box, **k)
            else:
                c = arr(e['m'][0])
                s.set_to_triangle_pair(c if r.random() < 0.5 else c.reshape((2, 2, 3)))
            e['obs'] = patches(s)
    if not add(e, fn):
        return

    def all_pts():
        return [q for x in patches(s) for q in x['p']]

    while len(ev) < r.choice([7, 11]) and (len(ev) < 15):
        y = r.random()
        now = patches(s)
        pts = [q for x in now for q in x['p']]
        nt = sum(len(x['t']) for x in now)
        if not nt:
            break
        top = max(abs(x) for q in pts for x in q)
        if y < 0.16 and nt < 40:
            how = r.choice(['trim', 'trim', 'split', 'quarter'])
            if how == 'quarter' and (st['fine'] < 1 or nt > 12 or any(len(q) != len({tuple(z) for z in q}) for q in [[now_p for now_p in x['p']] for x in now]) and False):
                continue
            e = {'op': 'derive', 'how': how, 'keep': r.random() < 0.4, 'role': 'map', 'title': '', 'em': [], 'box': [], 'poly': []}
            lo, up = [min(q[a] for q in pts) for a in range(3)], [max(q[a] for q in pts) for a in range(3)]
            if how == 'trim':
                if r.random() < 0.7:
                    c = [sorted(2 * r.randint(lo[a] // 2 - 1, up[a] // 2 + 1) + 1 for _ in range(2)) for a in range(3)]
                    if r.random() < 0.5:
                        c[r.randrange(3)] = [-999, 999]
                    if any(x % 2 for q in pts for x in q):
                        continue
                    e['box'] = [[c[a][0] for a in range(3)], [c[a][1] for a in range(3)]]
                if not e['box'] or r.random() < 0.4:
                    cx, cy = r.randint(lo[0], up[0]), r.randint(lo[1], up[1])
                    h = r.randint(8, 40)
                    sh = r.choice([[(-1, -1), (1, -1), (1, 1), (-1, 1)], [(-1, 0), (0, -1), (1, 0), (0, 1)], [(-1, -1), (1, -1), (0, 1)]])
                    e['poly'] = [[cx + a * h, cy + b * h] for a, b in sh]
                    cl = lambda a, b, c: (c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])
                    if any(cl(e['poly'][i], e['poly'][(i + 1) % len(sh)], q) == 0 for i in range(len(sh)) for q in pts):
                        continue
                st2 = None

                def fn():
                    nonlocal st2
                    st2 = rqs.Surface(m if r.random() < 1 else m, title = r.choice([None, 'cut']))
                    e['title'] = ('cut' if st2.title else str(s.title) + ' trimmed')
                    k = {}
                    if e['box']:
                        b = arr(e['box'])
                        if r.random() < 0.3:
                            a = r.randrange(3)
                            b[:, a] = b[::-1, a].copy()
                        k['xyz_box'] = b
                    if e['poly']:
                        z = np.zeros((len(e['poly']), 3))
                        z[:, :2] = arr(e['poly'])
                        z[:, 2] = r.choice([0.0, 5.0])
                        k['xy_polygon'] = rql.Polyline(m, set_coord = z, set_crs = s.crs_uuid, is_closed = True, title = 'p')
                    src = s
                    if st['asis'] and r.random() < 0.5:
                        src = rqs.Surface(s.model, uuid = s.uuid)
                    st2.set_to_trimmed_surface(src, **k)
                    e['obs'] = patches(st2)
            elif how == 'split':
                e['line'] = [[r.randint(lo[a] - 8, up[a] + 8) for a in range(3)] for _ in range(2)]
                if e['line'][0][:2] == e['line'][1][:2]:
                    continue
                e['delta'] = [[8 * r.randint(-4, 4) for _ in range(3)] for _ in range(2)]

                def fn():
                    nonlocal st2
                    st2 = rqs.Surface(m, crs_uuid = st['crs'].uuid, title = 'rent')
                    e['title'] = 'rent'
                    st2.set_to_split_surface(s, arr(e['line']), arr(e['delta']))
                    e['obs'] = patches(st2)
            else:
                def fn():
                    nonlocal st2
                    k = {'title': 'finer'} if r.random() < 0.5 else {}
                    e['title'] = k.get('title', s.title)
                    e['em'] = [['resampled from surface', str(s.uuid)]]
                    st2 = s.resampled_surface(**k)
                    e['obs'] = patches(st2)
            if not add(e, fn):
                return
            if not e['keep']:
                if st2.model is not m:
                    break
                if not e['obs']:
                    break
                s, st['src'], st['stored'], st['asis'] = st2, None, False, False
                if how == 'quarter':
                    st['fine'] -= 1
        elif y < 0.28:
            how = r.choice(['rescale', 'rescale', 'crs', 'clock'])
            e = {'op': 'change', 'how': how}
            st['asis'] = False
            if how == 'rescale':
                f = r.choice([[2, 1], [3, 1], [1, 1], [-1, 1], [1, 2]])
                ref = r.choice([[], [8 * r.randint(-4, 4)]])
                if top > 200 or f == [1, 2] and st['fine'] < 1:
                    continue
                e['f'], e['ref'] = f, ref
                if f == [1, 2]:
                    st['fine'] -= 1

                def fn():
                    k = {'ref_depth': ref[0] / 8} if ref else {}
                    s.vertical_rescale_points(scaling_factor = f[0] / f[1], **k)
                    e['obs'] = patches(s)
            elif how == 'crs':
                if st['stored'] or top > 200:
                    continue
                e['off'], e['down'] = [8 * r.choice([0, 0, 2, -4]) for _ in range(3)], r.random() < 0.5

                def fn():
                    c = crs_for(e['off'], e['down'])
                    s.change_crs(c)
                    st['crs'] = c
                    e['obs'] = patches(s)
            else:
                def fn():
                    s.make_all_clockwise_xy()
                    e['obs'] = patches(s)
            if not add(e, fn):
                return
        elif y < 0.4:
            e = {'op': 'store', 'role': '', 'title': '', 'em': []}

            def fn():
                nonlocal s, m
                if not st['stored']:
                    if r.random() < 0.3:
                        s.normal()
                    s.write_hdf5()
                    s.create_xml()
                m.store_epc()
                m.h5_release()
                m = rq.Model('a.epc')
                s = rqs.Surface(m, uuid = s.uuid)
                st['stored'] = st['asis'] = True
                st['crs'] = rqc.Crs(m, uuid = st['crs'].uuid)
                e['obs'] = patches(s)
                e['role'], e['title'], e['em'] = s.surface_role, s.title, [[k, str(v)] for k, v in (s.extra_metadata or {}).items()]
                e['crs'] = bu.matching_uuids(s.crs_uuid, st['crs'].uuid)
            if st['stored']:
                continue
            e['crs'] = True
            if not add(e, fn):
                return
            st['src'] = None
        else:
            if not ask(r, s, st, m, now, pts, nt, top, pool, add):
                continue
    m.h5_release()


def ask(r, s, st, m, now, pts, nt, top, pool, add):
    q = r.choice(['arrays', 'counts', 'edges', 'lengths', 'normals', 'crossings', 'crossings', 'sample', 'sample', 'line', 'line', 'columns', 'cellface', 'combined', 'which', 'clean', 'distil'])
    e = {'op': 'ask', 'q': q}
    part = r.randint(0, len(now))
    lo, up = [min(x[a] for x in pts) for a in range(3)], [max(x[a] for x in pts) for a in range(3)]
    k = {} if not part else {'patch': part - 1}
    if q in ('arrays', 'counts', 'edges', 'lengths', 'normals', 'sample', 'line'):
        e['part'] = part
    wide = max(up[a] - lo[a] for a in range(2)) * (up[2] - lo[2])
    if q in ('normals', 'lengths', 'line', 'sample') and (top > 300 or nt > 60):
        return False
    if q == 'arrays':
        def fn():
            copy = r.random() < 0.5
            t, p = s.triangles_and_points(copy = copy, **k)
            e['obs'] = tp_of(t, p)
            if copy:
                t[:] = 0
                p[:] = 99.0
    elif q == 'counts':
        def fn():
            e['obs'] = ints([s.triangle_count(**k), s.node_count(**k), s.number_of_patches()])
    elif q == 'edges':
        e['counts'] = r.random() < 0.6

        def fn():
            if e['counts']:
                x, n = s.distinct_edges_and_counts(**k)
            else:
                x = s.distinct_edges(**k)
                n = [0] * len(x)
            e['obs'] = [ints([a, b, c]) for (a, b), c in zip(x, n)]
    elif q == 'lengths':
        def fn():
            u = r.choice([None, 'm', 'dm', 'cm'])
            f = {None: 10.0, 'm': 10.0, 'dm': 1.0, 'cm': 0.1}[u]
            x = s.edge_lengths(required_uom = u, **k) * f
            e['obs'] = [ints(np.rint(z)) for z in x * x * 64]
    elif q == 'normals':
        # no triangle of no area
        w = [x for z in now for x in [[z['p'][c] for c in t] for t in z['t']]]
        if any(not np.any(np.cross(np.array(x[1]) - x[0], np.array(x[2]) - x[0])) for x in w):
            return False

        def fn():
            e['obs'] = [ints(z) for z in np.rint(s.normal_vectors(**k) * 500.0)]
    elif q == 'crossings':
        e['ax'], e['val'] = r.randint(1, 3), 0
        e['val'] = r.randint(lo[e['ax'] - 1] - 1, up[e['ax'] - 1] + 1)

        def fn():
            x = s.axial_edge_crossings(e['ax'] - 1, **({} if not e['val'] and r.random() < 0.5 else {'value': e['val'] / 8}))
            e['obs'] = [] if x is None else [ints(np.rint(z * 64)) for z in x]
    elif q == 'sample':
        n = r.randint(1, 4)
        e['xy'] = [[r.randint(lo[a] - 2, up[a] + 2) for a in range(2)] for _ in range(n)]
        e['mode'] = r.choice(['any', 'minimum', 'maximum', 'exception'])

        def fn():
            x = arr(e['xy'])
            if r.random() < 0.5:
                x = np.concatenate((x, np.full((n, 1), 7.0)), axis = 1)
            if n == 4 and r.random() < 0.5:
                x = x.reshape((2, 2, -1))
            try:
                z = s.sample_z_at_xy_points(x, **({} if e['mode'] == 'any' and r.random() < 0.5 else {'multiple_handling': e['mode']}), **k)
                assert z.shape == x.shape[:-1]
                e['obs'] = {'k': 'ok', 'z': [[int(np.rint(v * 64))] if v == v else [] for v in z.flatten()]}
            except ValueError:
                e['obs'] = {'k': 'refused', 'z': []}
    elif q == 'line':
        e['lp'] = [r.randint(lo[a] - 4, up[a] + 4) for a in range(3)]
        e['lv'] = [r.randint(-2, 2) for _ in range(3)]
        e['seg'] = r.random() < 0.5
        f = 1 if not e['seg'] else 8
        if not any(e['lv']):
            return False

        def fn():
            x = s.line_intersection(arr(e['lp']), arr(e['lv']) * f, line_segment = e['seg'], **k)
            e['obs'] = [] if x is None else ints(np.rint(x * 64))
    elif q == 'columns':
        if len(now) != 1:
            return False
        e['n'] = [r.randrange(nt + 2) for _ in range(r.randint(1, 4))]

        def fn():
            many = st['src'] == 'mesh' and max(e['n']) < nt and r.random() < 0.6
            if many:
                j, i = s.column_from_triangle_index(np.array(e['n']))
                e['obs'] = [ints([a, b]) for a, b in zip(j, i)]
            else:
                x = [s.column_from_triangle_index(n) for n in e['n']]
                e['obs'] = [[] if a is None and b is None else ints([a, b]) for a, b in x]
    elif q == 'cellface':
        if st['src'] != 'cells':
            return False
        e['n'] = [r.randrange(nt) for _ in range(r.randint(1, 4))]

        def fn():
            if r.random() < 0.3:
                per = s.patch_list[0].triangle_count
                e['obs'] = [ints((n // per,) + tuple(s.patch_list[n // per].face_from_triangle_index(n % per))) for n in e['n']]
            elif r.random() < 0.6:
                e['obs'] = [ints(s.cell_axis_and_polarity_from_triangle_index(n)) for n in e['n']]
            else:
                x = s.cell_axis_and_polarity_from_triangle_index(np.array(e['n']))
                e['obs'] = [ints(z) for z in zip(*x)]
    elif q in ('combined', 'which'):
        e['pool'] = pool
        e['list'] = [r.randint(0, 2) for _ in range(r.randint(1, 4))]

        def fn():
            ss = []
            for n in e['list']:
                if not n:
                    ss.append(s)
                else:
                    o = rqs.Surface(m, crs_uuid = s.crs_uuid, title = 'o')
                    o.set_from_triangles_and_points(np.array(pool[n - 1][0]['t']), arr(pool[n - 1][0]['p']))
                    ss.append(o)
            if len(ss) > 2 and r.random() < 0.5:
                cut = r.randint(1, len(ss) - 1)
                nested = rqs.CombinedSurface(ss[:cut])
                c = rqs.CombinedSurface([nested] + ss[cut:])
                flat = False
            else:
                c = rqs.CombinedSurface(ss)
                flat = True
            if q == 'which' and flat:
                total = nt * sum(1 for n in e['list'] if not n) + sum(len(pool[n - 1][0]['t']) for n in e['list'] if n)
                e['n'] = [r.randrange(total + 2) for _ in range(4)]
                e['obs'] = [[] if x is None else ints(x) for x in [c.surface_index_for_triangle_index(n) for n in e['n']]]
            else:
                e['q'] = 'combined'
                e['obs'] = tp_of(*c.triangles_and_points())
    else:
        t, p = rand_tp(r)
        if q == 'clean':
            p = [x if r.random() < 0.8 else [] for x in p]
        e['t'], e['p'] = t, p

        def fn():
            import resqpy.surface._surface as rss
            a = np.array([[v / 8 for v in x] if x else r.choice([[np.nan] * 3, [0.0, 1.0, np.nan], [np.nan, 2.0, 3.0]]) for x in p])
            f = rqs.nan_removed_triangles_and_points if q == 'clean' else rqs.distill_triangle_points
            e['obs'] = tp_of(*f(np.array(t), a))
    return add(e, fn)


def lattices(params, tr):
    """Meshes and sets of points."""
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    objs, crss, lines_made = [], [], 0
    kind = r.choice(['mesh', 'set'])

    def add(e, fn):
        ev.append(e)
        e.setdefault('obs', [])
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    def new_crs():
        e = {'op': 'crs', 'off': [8 * r.choice([0, 0, 5, -3]) for _ in range(3)], 'down': r.random() < 0.5}

        def fn():
            c = rqc.Crs(m, z_inc_down = e['down'], x_offset = e['off'][0] / 8, y_offset = e['off'][1] / 8, z_offset = e['off'][2] / 8)
            c.create_xml(reuse = False)
            crss.append(c.uuid)
        return add(e, fn)

    def which(u):
        return next((i + 1 for i, c in enumerate(crss) if bu.matching_uuids(u, c)), 0)

    def look(o, n):
        b = {'fl': '', 'title': o.title, 'role': '', 'crs': which(o.crs_uuid), 'rel': True, 'p': [], 'pt': []}
        if isinstance(o, rqs.Mesh):
            b['fl'], b['role'], b['p'] = o.flavour, o.surface_role, w8(o.full_array_ref())
        else:
            b['pt'] = [w8(o.single_patch_array_ref(i)) for i in range(o.patch_count)]
        return b

    def store():
        nonlocal m
        es = []
        for n, x in enumerate(objs):
            if x['stored']:
                continue
            e = {'op': 'store', 'n': n + 1, 'xy': x['k'] == 'mesh' and x['o'].flavour == 'explicit' and r.random() < 0.1, 'obs': {}}
            es.append(e)

            def fn():
                k = {'use_xy_only': True} if e['xy'] else {}
                x['o'].write_hdf5(**k)
                x['o'].create_xml(**k)
                x['stored'], x['xy'] = True, e['xy']
            k, y = call(fn)
            e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
            if k != 'ok':
                e['op'] = 'store'
                ev.append(e)
                return False
        if es:
            m.store_epc()
            m.h5_release()
            m = rq.Model('a.epc')
        for e in es:
            x = objs[e['n'] - 1]

            def fn():
                # as found in the model: of the right class, loaded when wanted
                x['o'] = (rqs.Mesh if x['k'] == 'mesh' else rqs.PointSet)(m, uuid = x['o'].uuid, **({'load_hdf5': True} if x['k'] == 'set' and r.random() < 0.3 else {}))
                if r.random() < 0.7 or e['xy']:
                    e['obs'] = look(x['o'], e['n'])
                else:
                    y = x['o']
                    x['o'] = (rqs.Mesh if x['k'] == 'mesh' else rqs.PointSet)(m, uuid = y.uuid)
                    e['obs'] = look(y, e['n'])
                if x['of']:
                    e['obs']['rel'] = any(bu.matching_uuids(u, objs[x['of'] - 1]['o'].uuid) for u in m.uuids(related_uuid = x['o'].uuid))
            if not add(e, fn):
                return False
        for n, x in enumerate(objs):
            if not any(e['n'] == n + 1 for e in es):
                x['o'] = (rqs.Mesh if x['k'] == 'mesh' else rqs.PointSet)(m, uuid = x['o'].uuid)
        return True

    if not new_crs():
        return

    def zs(n):
        return [8 * r.randint(-9, 9) + r.choice([0, 0, 1]) if r.random() < 0.85 else NAN for _ in range(n)]

    def fl(z):
        return np.array([np.nan if v == NAN else v / 8 for v in z])

    def make_mesh():
        how = r.choice(['explicit', 'explicit', 'regular', 'reg&z', 'ref&z', 'ref&z', 'file', 'file', 'file', 'column'])
        refs = [i for i, x in enumerate(objs) if x['stored'] and not x['xy']]
        if how == 'ref&z' and not refs:
            how = 'explicit'
        nj, ni = r.randint(2, 4), r.randint(2, 4)
        e = {'op': 'mesh', 'how': how, 'nj': nj, 'ni': ni, 'title': r.choice(['top', 'zq', 'base']), 'role': r.choice(['map', 'pick']), 'crs': r.randint(1, len(crss)), 'of': 0, 'unit': [], 'fl': ''}
        if how in ('regular', 'reg&z'):
            e['nj'], e['ni'] = nj, ni = r.choice([(nj, ni), (nj, ni), (5, 2), (2, 6)])
            e['o'] = [8 * r.randint(-3, 3) + 4 for _ in range(3)]
            e['d'] = r.choice([[[8, 0, 0], [0, 16, 0]], [[24, 32, 0], [-32, 24, 0]], [[8, 0, 0], [0, -8, 0]], [[16, 0, 8], [0, 8, -8]], [[0, 40, 0], [24, 0, 0]]])
            if how == 'reg&z':
                e['z'] = zs(nj * ni)
        elif how == 'explicit':
            g = plan(r, nj, ni)
            e['p'] = [q for row in g for q in row]
            for q in e['p']:
                if r.random() < 0.1:
                    q[2] = NAN
        elif how == 'ref&z':
            n = r.choice(refs)
            e['of'] = n + 1
            e['nj'], e['ni'] = nj, ni = objs[n]['o'].nj, objs[n]['o'].ni
            e['crs'] = objs[n]['crs']
            if not e['crs']:
                return None
            e['z'] = zs(nj * ni)
        elif how == 'file':
            e['fmt'] = r.choice(['zmap', 'rms', 'rms'])
            e['fl'] = r.choice(['explicit', 'explicit', 'regular', 'reg&z', 'ref&z'])
            e['step'] = [8 * r.choice([1, 2, 5]), 8 * r.choice([1, 3])]
            o = [8 * r.randint(-3, 9) for _ in range(2)]
            e['x'] = [o[0], o[0] + (ni - 1) * e['step'][0], o[1], o[1] + (nj - 1) * e['step'][1]]
            e['v'] = zs(nj * ni)
        elif how == 'column':
            e['dx'], e['dy'] = 8 * r.choice([2, 4]), 8 * r.choice([2, 6])
            e['z'] = zs(nj * ni)
            uom = r.choice(['m', 'ft', 'mD', ''])
            if not uom:
                e['z'] = [8 * r.randint(-5, 5) for _ in range(nj * ni)]
            e['unit'] = [uom or 'Euc', uom if uom in ('m', 'ft') else 'm', 'm']

        def fn():
            nonlocal m
            k = dict(crs_uuid = crss[e['crs'] - 1], title = e['title'], surface_role = e['role'])
            if how == 'explicit':
                a = np.array([[np.nan if v == NAN else v / 8 for v in q] for q in e['p']]).reshape((nj, ni, 3))
                o = rqs.Mesh(m, xyz_values = a, **k)
                a[:] = 99.0
            elif how in ('regular', 'reg&z'):
                if how == 'reg&z':
                    z = fl(e['z'])
                    k['z_values'] = z if r.random() < 0.4 else z.reshape((nj, ni))
                o = rqs.Mesh(m, nj = nj, ni = ni, origin = tuple(arr(e['o'])), dxyz_dij = arr(e['d']), **k)
            elif how == 'ref&z':
                o = rqs.Mesh(m, nj = nj, ni = ni, z_values = fl(e['z']).reshape((nj, ni)), z_supporting_mesh_uuid = objs[e['of'] - 1]['o'].uuid, **k)
            elif how == 'file':
                null = {'zmap': r.choice(['-99999.0000', '1.0E+30']), 'rms': '9999900.0000'}[e['fmt']]
                same = {'-99999.0000': '-99999', '1.0E+30': '1e30', '9999900.0000': '9999900.0'}[null] if r.random() < 0.4 else null
                v = [same if z == NAN else '%.4f' % (z / 8) for z in e['v']]
                x = arr(e['x'])
                with open('a.txt', 'w') as f:
                    if e['fmt'] == 'zmap':
                        f.write('! a comment\n@grid HEADER, GRID, 5\n')
                        f.write('15, %s, , 4, 1\n' % null if r.random() < 0.5 else '15, , %s, 4, 1\n' % null)
                        f.write('%d, %d, %f, %f, %f, %f\n0.0, 0.0, 0.0\n@\n' % (nj, ni, *x))
                        if r.random() < 0.5:
                            f.write('+\n')
                    else:
                        f.write('-996 %d %f %f\n%f %f %f %f\n%d 0.0 %f %f\n0 0 0 0 0 0 0\n' % (nj, e['step'][0] / 8, e['step'][1] / 8, *x, ni, x[0], x[2]))
                    w = r.choice([1, 3, 5])
                    for i in range(0, len(v), w):
                        f.write('  ' + '  '.join(v[i:i + w]) + '\n')
                o = rqs.Mesh(m, mesh_file = 'a.txt', mesh_format = e['fmt'], mesh_flavour = e['fl'], **k)
            else:
                import resqpy.grid as grr
                g = grr.RegularGrid(m, extent_kji = (2, nj, ni), dxyz = (e['dx'] / 8, e['dy'] / 8, 3.0), crs_uuid = crss[e['crs'] - 1], title = 'g')
                g.create_xml()
                a = fl(e['z']).reshape((nj, ni))
                u = e['unit'][0]
                pk = {'m': 'depth', 'ft': 'depth', 'mD': 'permeability rock', 'Euc': 'index'}[u]
                p = rqp.Property.from_array(m, a if u != 'Euc' else a.astype(int), 'x', e['title'], g.uuid, property_kind = pk, indexable_element = 'columns', discrete = u == 'Euc',
                                            **({} if u == 'Euc' else {'uom': u}))
                o = rqs.Mesh.from_regular_grid_column_property(m, g.uuid, p.uuid)
                e['title'], e['role'] = o.title, 'map'
                c = rqc.Crs(m, uuid = o.crs_uuid)
                e['crs'] = which(o.crs_uuid)
                unit = [str(o.extra_metadata.get('Uom')), c.z_units, c.xy_units]
            e['obs'] = {'fl': o.flavour, 'nj': int(o.nj), 'ni': int(o.ni), 'p': w8(o.full_array_ref()), 'unit': e['unit'] if how != 'column' else unit}
            objs.append({'k': 'mesh', 'o': o, 'stored': False, 'xy': False, 'of': e['of'], 'crs': e['crs']})
        e['obs'] = {}
        return add(e, fn)

    def pts(n):
        return [[8 * r.randint(-6, 9) for _ in range(3)] for _ in range(n)]

    def make_set():
        how = r.choice(['array', 'array', 'line', 'lines', 'irap', 'irap', 'charisma'])
        e = {'op': 'set', 'how': how, 'title': r.choice(['top', 'zq', 'base']), 'crs': r.randint(1, len(crss))}
        if how in ('line', 'lines'):
            e['lines'] = []
            for _ in range(1 if how == 'line' else r.randint(1, 3)):
                p = pts(r.randint(2, 5))
                cl = r.random() < 0.5
                if how == 'lines' and r.random() < 0.4:
                    p.append(list(p[0]))
                e['lines'].append({'p': p, 'closed': cl, 'crs': r.randint(1, len(crss)) if e['lines'] else e['crs']})
        else:
            e['p'] = pts(r.randint(2, 7))
            if how == 'irap' and r.random() < 0.1:
                e['p'] = pts(1)

        def fn():
            k = dict(crs_uuid = crss[e['crs'] - 1], title = e['title'])
            if how == 'array':
                a = arr(e['p'])
                if r.random() < 0.2:
                    for q in e['p']:
                        q[2] = 0
                    a = a[:, :2]
                if len(a) in (4, 6) and r.random() < 0.4:
                    a = a.reshape((2, -1, a.shape[1]))
                if r.random() < 0.3:
                    o = rqs.PointSet(m, **k)
                    o.add_patch(a)
                else:
                    o = rqs.PointSet(m, points_array = a, **k)
                a[:] = 99.0
            elif how in ('line', 'lines'):
                ls = [rql.Polyline(m, set_coord = arr(x['p']), set_crs = crss[x['crs'] - 1], is_closed = x['closed'], title = 'l') for x in e['lines']]
                if r.random() < 0.4:
                    del k['crs_uuid']
                if how == 'line':
                    o = rqs.PointSet(m, polyline = ls[0], **k)
                else:
                    one = len({x['crs'] for x in e['lines']}) == 1
                    ps = rql.PolylineSet(m, polylines = ls, title = 'ls') if one else rql.PolylineSet(m, title = 'ls')
                    if not one:
                        ps.polys = ls
                    o = rqs.PointSet(m, polyset = ps, **k)
            elif how == 'irap':
                with open('p.txt', 'w') as f:
                    for q in arr(e['p']):
                        f.write('%.3f %.3f %.3f\n' % tuple(q))
                    if r.random() < 0.5:
                        f.write('999.000 999.000 999.000\n')
                o = rqs.PointSet(m, irap_file = 'p.txt', **k)
            else:
                with open('p.txt', 'w') as f:
                    for q in arr(e['p']):
                        f.write('INLINE :\t1 XLINE :\t1\t%.3f\t%.3f\t%.3f\n' % tuple(q))
                o = rqs.PointSet(m, charisma_file = 'p.txt', **k)
            e['obs'] = look(o, 0)['pt']
            objs.append({'k': 'set', 'o': o, 'stored': False, 'xy': False, 'of': 0, 'crs': e['crs']})
        return add(e, fn)

    def step():
        y = r.random()
        if not objs or y < 0.25:
            return make_mesh() if kind == 'mesh' else make_set()
        if y < 0.32 and len(crss) < 3:
            return new_crs()
        if y < 0.5:
            return store()
        n = r.randrange(len(objs))
        x = objs[n]
        o = x['o']
        if x['xy']:
            return None
        e = {'op': 'ask', 'n': n + 1}
        if x['k'] == 'mesh':
            e['q'] = r.choice(['points', 'surface'])
            e['quad'] = r.random() < 0.5

            def fn():
                if e['q'] == 'points':
                    e['obs'] = w8(o.full_array_ref())
                else:
                    s = o.surface(quad_triangles = e['quad'])
                    t, p = s.triangles_and_points()
                    e['obs'] = {'p': w8(p), 'nt': len(t), 'crs': which(s.crs_uuid)}
            if e['q'] == 'surface' and np.any(np.isnan(o.full_array_ref())):
                return None
            return add(e, fn)
        if y < 0.75:
            e['op'] = 'change'
            how = e['how'] = r.choice(['add', 'box', 'polygon', 'crs', 'crs'])
            if how == 'add':
                e['p'] = pts(r.randint(1, 4))
            elif how == 'box':
                e['box'] = [list(q) for q in zip(*[sorted(8 * r.randint(-7, 10) for _ in range(2)) for _ in range(3)])]
            elif how == 'polygon':
                c = [8 * r.randint(-4, 6) + 3, 8 * r.randint(-4, 6) + 2]
                h = r.randint(10, 60)
                sh = r.choice([[(-1, -1), (1, -1), (1, 1), (-1, 1)], [(-1, 0), (0, -1), (1, 0), (0, 1)], [(-1, -1), (1, -1), (0, 1)]])
                e['poly'] = [[c[0] + a * h, c[1] + b * h] for a, b in sh]
                cl = lambda a, b, c: (c[0] - a[0]) * (b[1] - a[1]) - (c[1] - a[1]) * (b[0] - a[0])
                if any(cl(e['poly'][i], e['poly'][(i + 1) % len(sh)], q) == 0 for i in range(len(sh)) for q in w8(o.full_array_ref())):
                    return None
            else:
                e['to'] = r.randint(1, len(crss))
            was = x['stored']

            def fn():
                if r.random() < 0.4:
                    o.full_array_ref()
                if x['stored'] and how == 'add':
                    o.load_all_patches()
                    o.uuid = bu.new_uuid()
                u = str(o.uuid)
                if how == 'add':
                    o.add_patch(arr(e['p']))
                elif how == 'box':
                    o.trim_to_xyz_box(arr(e['box']))
                elif how == 'polygon':
                    z = np.zeros((len(e['poly']), 3))
                    z[:, :2] = arr(e['poly'])
                    o.trim_to_xy_polygon(rql.Polyline(m, set_coord = z, set_crs = o.crs_uuid, is_closed = True, title = 'p'))
                else:
                    o.change_crs(rqc.Crs(m, uuid = crss[e['to'] - 1]))
                    x['crs'] = e['to']
                e['obs'] = look(o, 0)['pt']
                # an object that was stored and has changed is another object
                if str(o.uuid) != u or how == 'add':
                    x['stored'] = False
                elif how == 'crs' and was and not bu.matching_uuids(crss[e['to'] - 1], o.crs_uuid):
                    x['stored'] = False
            if how == 'crs' and was and crss[e['to'] - 1] != o.crs_uuid:
                a, b = rqc.Crs(m, uuid = crss[e['to'] - 1]), rqc.Crs(m, uuid = o.crs_uuid)
                if a == b and not bu.matching_uuids(a.uuid, b.uuid):
                    return None
            if not add(e, fn):
                return False
            if not any(e['obs']):
                return False
            if r.random() < 0.4:
                return question({'op': 'ask', 'n': n + 1}, o, 'points')
            return True
        return question(e, o, r.choice(['points', 'points', 'patch', 'rectangle', 'file']))

    def question(e, o, q):
        e['q'] = q
        if e['q'] == 'points':
            def fn():
                e['obs'] = w8(o.full_array_ref())
        elif e['q'] == 'patch':
            e['m'] = r.randint(1, o.patch_count)

            def fn():
                e['obs'] = w8(o.single_patch_array_ref(e['m'] - 1))
        elif e['q'] == 'rectangle':
            d = r.choice([45.0, 90.0, 180.0])
            e['angles'] = [0, 45, 90, 135] if d == 45.0 else [0, 90]

            def fn():
                a, b, c = o.minimum_xy_area_rectangle(delta_theta = d)
                e['obs'] = ints(np.rint([a * a * 256, b * b * 256, c]))
        else:
            def fn():
                f = r.choice(['irap', 'charisma'])
                (o.convert_to_irap if f == 'irap' else o.convert_to_charisma)('q.txt')
                p = rqs.PointSet(m, crs_uuid = crss[0], **{f + '_file': 'q.txt'})
                e['obs'] = w8(p.full_array_ref())
        return add(e, fn)

    tries = 0
    most = r.choice([7, 11])
    while len(ev) < most and tries < 40:
        tries += 1
        if step() is False:
            break
    m.h5_release()


def trimeshes(params, tr):
    """Meshes of equilateral triangles, and stencils."""
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    R32 = np.sqrt(3.0) / 2.0
    tm, st = None, {}
    crs = [rqc.Crs(m, title = 'a'), rqc.Crs(m, title = 'b'), rqc.Crs(m, title = 'c', x_offset = 5.0)]
    for c in crs:
        c.create_xml(reuse = False)

    def add(e, fn):
        ev.append(e)
        e.setdefault('obs', [])
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    def zs(nj, ni):
        miss = r.choice([0, 0, 0.15])
        return [[NAN if r.random() < miss else r.choice([8, 8, 1]) * r.randint(-6, 6) for _ in range(ni)] for _ in range(nj)]

    def fl(z):
        z = np.array(z, dtype = float)
        return np.where(z == NAN, np.nan, z / 8.0)

    def xy(p):
        p = np.array(p, dtype = float)
        t = st['t'] / 8.0
        return np.stack((st['o'][0] / 8.0 + p[..., 0] * t / 16.0, st['o'][1] / 8.0 + p[..., 1] * t * R32 / 16.0), axis = -1)

    def back(p, zden = 8):
        """Nodes and heights in the units of the model."""
        p = np.array(p, dtype = float).reshape((-1, 3))
        t = st['t'] / 8.0
        q = np.stack(((p[:, 0] - st['o'][0] / 8.0) * 16.0 / t, (p[:, 1] - st['o'][1] / 8.0) * 16.0 / (t * R32)), axis = -1)
        if zden == 64:
            q *= 4.0
        z = np.where(np.isnan(p[:, 2]), NAN, np.rint(p[:, 2] * zden))
        return [ints([a, b, c]) for (a, b), c in zip(np.rint(q), z)]

    def z64(z):
        return [[NAN if v != v else int(np.rint(v * 512.0)) for v in row] for row in z]

    st.update(t = 8 * r.choice([1, 2, 5]), o = r.choice([[0, 0], [0, 0], [8, -16], [0, 24], [40, 4]]), nj = r.randint(2, 5), ni = r.randint(2, 5))
    st['z'] = zs(st['nj'], st['ni'])
    e = {'op': 'make', 'title': r.choice(['ab', 'zq']), 'role': r.choice(['map', 'pick']), 'uom': r.choice(['', '', 'm', 'dega'])}
    e.update({k: st[k] for k in ('t', 'o', 'nj', 'ni', 'z')})

    def fn():
        nonlocal tm
        up = r.choice([0.0, 0.0, 3.0])
        k = {}
        if any(st['o']) or up or r.random() < 0.3:
            k['origin'] = (st['o'][0] / 8.0, st['o'][1] / 8.0, up)
        if e['uom']:
            k['z_uom'] = e['uom']
        tm = rqs.TriMesh(m, t_side = st['t'] / 8.0, nj = st['nj'], ni = st['ni'], z_values = fl(st['z']) - (up if k.get('origin') else 0.0), surface_role = e['role'],
                         crs_uuid = crs[0].uuid, title = e['title'], **k)
    if not add(e, fn):
        return

    def tri_sel():
        return [[r.randint(0, st['nj'] - 2), r.randint(0, 2 * st['ni'] - 3)] for _ in range(r.randint(1, 4))]

    def point():
        return [r.randint(-6, 16 * st['ni'] + 6), r.randint(-6, 16 * st['nj'] - 8)]

    stored = False
    while len(ev) < params.get('n', 9):
        op = r.choice(['look', 'store', 'find', 'find', 'z', 'z', 'corners', 'all', 'surface', 'index', 'within', 'within', 'cross', 'cross', 'cross', 'like', 'stencil', 'stencil', 'stencil', 'again'])
        e = {'op': op}
        if op in ('look', 'store'):
            e['op'] = 'look'

            def fn():
                nonlocal tm, m, stored
                if op == 'store' and not stored:
                    tm.write_hdf5()
                    tm.create_xml()
                    m.store_epc()
                    m.h5_release()
                    m = rq.Model('a.epc')
                    tm = rqs.TriMesh(m, uuid = tm.uuid)
                    stored = True
                p = back(tm.full_array_ref())
                o = [0, 0] if tm.origin is None else ints(np.rint(np.array(tm.origin[:2]) * 8))
                e['obs'] = {'p': [p[j * tm.ni:(j + 1) * tm.ni] for j in range(tm.nj)], 't': int(round(tm.t_side * 8)), 'o': o, 'title': tm.title, 'role': tm.surface_role, 'uom': tm.z_uom or ''}
        elif op in ('find', 'z'):
            n = r.choice([1, 2, 4])
            e['x'] = [point() for _ in range(n)]

            def fn():
                q = xy(e['x'])
                if r.random() < 0.5:
                    if r.random() < 0.5:
                        q = np.concatenate((q, np.full((n, 1), 5.0)), axis = 1)
                    if n == 4 and r.random() < 0.5:
                        q = q.reshape((2, 2, -1))
                    if op == 'find':
                        a, f = tm.tji_tc_for_xy_array(q)
                        if r.random() < 0.5:
                            assert np.all(tm.tji_for_xy_array(q) == a)
                            ji, ff = tm.ji_and_weights_for_xy_array(q)
                            assert np.all(ji == tm.tri_nodes_for_tji_array(a)) and np.array_equal(ff, f, equal_nan = True)
                        a, f = a.reshape((-1, 2)), f.reshape((-1, 3))
                        e['obs'] = [[] if b[0] < 0 else ints(list(b) + list(np.rint(g * 32))) for b, g in zip(a, f)]
                    else:
                        z = tm.interpolated_z_array(q).flatten()
                        e['obs'] = [[] if v != v else [int(np.rint(v * 256))] for v in z]
                else:
                    e['obs'] = []
                    for v in q:
                        if op == 'find':
                            a, f = tm.tji_tc_for_xy(tuple(v))
                            b = tm.tji_for_xy(tuple(v))
                            ji, ff = tm.ji_and_weights_for_xy(tuple(v))
                            assert (b is None) == (a is None) == (ji is None)
                            if a is not None:
                                assert b == a and np.all(ji == tm.tri_nodes_for_tji(a)) and np.all(ff == f)
                            e['obs'].append([] if a is None else ints(list(a) + list(np.rint(np.array(f) * 32))))
                        else:
                            z = tm.interpolated_z(tuple(v))
                            e['obs'].append([] if z is None or z != z else [int(np.rint(z * 256))])
        elif op == 'corners':
            e['w'] = tri_sel()
            many = r.random() < 0.5
            if many and r.random() < 0.5:
                e['w'].append(r.choice([[-1, -1], [st['nj'] - 1, 0], [0, 2 * st['ni'] - 2]]))

            def fn():
                x = tm.tri_nodes_for_tji_array(np.array(e['w'])) if many else [tm.tri_nodes_for_tji(tuple(w)) for w in e['w']]
                e['obs'] = [[ints(c) for c in w] for w in x]
        elif op == 'all':
            def fn():
                e['obs'] = [[[ints(c) for c in w] for w in row] for row in tm.all_tri_nodes()]
        elif op == 'surface':
            e['trim'] = r.random() < 0.5

            def fn():
                if not e['trim'] and r.random() < 0.5:
                    t, p = tm.triangles_and_points()
                else:
                    s = rqs.Surface.from_tri_mesh(tm, exclude_nans = e['trim'])
                    t, p = s.triangles_and_points()
                e['obs'] = {'t': [ints(w) for w in t], 'p': back(p)}
            if e['trim']:
                z = np.array(st['z'])
                if not np.any((z[:-1, :-1] != NAN) & (z[1:, :-1] != NAN) & (z[:-1, 1:] != NAN) & (z[1:, 1:] != NAN)):
                    continue
        elif op == 'index':
            e['w'] = tri_sel()

            def fn():
                for w in e['w']:
                    k = tm.triangle_index_for_tji(tuple(w))
                    e['obs'].append(ints([k] + list(tm.tji_for_triangle_index(k))))
        elif op == 'within':
            e['w'] = []
            for _ in range(r.choice([1, 2, 25])):
                w = [point() for _ in range(3)]
                if r.random() < 0.15:
                    w[1][0] = w[0][0]
                e['w'].append(w)

            def fn():
                x = tm.tri_nodes_in_triangles(xy(e['w']))
                e['obs'] = [ints(q) for q in x]
            if any((c[0] - a[0]) * (b[1] - a[1]) == (c[1] - a[1]) * (b[0] - a[0]) for a, b, c in e['w']):
                continue
        elif op == 'cross':
            e['ax'] = r.choice([0, 1, 2, 3, 3])
            e['f'], e['val'] = [], 0
            if e['ax'] == 0:
                e['f'] = [[r.randint(-5, 5) for _ in range(st['ni'])] for _ in range(st['nj'])]
            elif e['ax'] == 3:
                e['val'] = r.choice([0, 0, r.randint(-30, 30)])
            else:
                e['val'] = r.randint(-4, 16 * (st['ni'] if e['ax'] == 1 else st['nj']))

            def fn():
                if e['ax'] == 0:
                    x = tm.edge_zero_crossings(z_values = np.array(e['f'], dtype = float))
                elif e['ax'] == 3:
                    x = tm.edge_zero_crossings() if e['val'] == 0 and r.random() < 0.5 else tm.axial_edge_crossings(2, **({'value': e['val'] / 8} if e['val'] or r.random() < 0.5 else {}))
                else:
                    x = tm.axial_edge_crossings(e['ax'] - 1, value = xy([e['val']] * 2)[e['ax'] - 1])
                e['obs'] = back(x, 64)
        elif op == 'like':
            e['nj'], e['ni'], e['t'], e['o'] = st['nj'], st['ni'], st['t'], list(st['o'])
            y = r.choice(['', '', 'nj', 'ni', 't', 'o'])
            if y == 'o':
                e['o'] = r.choice([[0, 0], [8, -16], [40, 0], [0, 24]])
            elif y:
                e[y] += 8 if y == 't' else 1
            c = r.choice([0, 0, 1, 2])
            e['same'] = c != 2

            def fn():
                o = rqs.TriMesh(m, t_side = e['t'] / 8.0, nj = e['nj'], ni = e['ni'], crs_uuid = crs[c].uuid, **({'origin': (e['o'][0] / 8, e['o'][1] / 8, 1.0)} if any(e['o']) or r.random() < 0.5 else {}))
                e['obs'] = bool(tm.is_compatible_with(o))
                assert bool(o.is_compatible_with(tm)) == e['obs'] and tm.is_compatible_with(tm)
        elif op == 'stencil':
            e['p'] = [r.randint(1, 4)] + [r.randint(0, 4) for _ in range(r.choice([1, 2]))]
            e['flat'], e['norm'] = r.random() < 0.5, r.choice([[], [1], [2]])
            e['mean'], e['border'], e['keep'], e['title'] = r.random() < 0.5, r.random() < 0.4, r.random() < 0.4, r.choice(['', 'smooth'])
            how = r.choice(['pattern', 'pattern', 'constant', 'linear'])
            n = len(e['p'])
            if how == 'constant':
                e['p'] = [e['p'][0]] * n
                if e['norm'] == [2]:
                    e['norm'] = [1]
            elif how == 'linear':
                e['p'] = list(range(n, 0, -1))
                if e['norm'] == [2]:
                    e['norm'] = [1]
                if not e['norm']:
                    d, o = r.randint(1, 2), r.randint(0, 2)
                    e['p'] = [o + d * (n - 1 - i) for i in range(n)]

            def fn():
                if how == 'pattern':
                    k = {'normalize': float(e['norm'][0])} if e['norm'] else {}
                    s = rqs.TriMeshStencil(np.array(e['p'], dtype = float if r.random() < 0.5 else int), normalize_mode_flat = e['flat'], **k)
                elif how == 'constant':
                    s = rqs.TriMeshStencil.for_constant_normalized(n, normalize_mode_flat = e['flat']) if e['norm'] else rqs.TriMeshStencil.for_constant_unnormalized(n, float(e['p'][0]))
                else:
                    s = rqs.TriMeshStencil.for_linear_normalized(n, normalize_mode_flat = e['flat']) if e['norm'] else rqs.TriMeshStencil.for_linear_unnormalized(n, float(e['p'][0]), float(e['p'][-1]))
                o = s.apply(tm, handle_nan = e['mean'], preserve_nan = e['keep'], **({'border_value': 0.0} if e['border'] else {}), **({'title': e['title']} if e['title'] else {}))
                assert o.is_compatible_with(tm)
                e['obs'] = {'z': z64(o.full_array_ref()[..., 2]), 'title': o.title}
        else:
            e['z'], e['title'], e['role'], e['uom'] = zs(st['nj'], st['ni']), r.choice(['', 'newer']), r.choice(['map', 'pick']), r.choice(['', 'ft'])

            def fn():
                nonlocal tm, stored
                k = {'surface_role': 'pick'} if e['role'] == 'pick' else {}
                for x in ('title', 'uom'):
                    if e[x]:
                        k['z_uom' if x == 'uom' else x] = e[x]
                tm = rqs.TriMesh.from_tri_mesh_and_z_values(tm, fl(e['z']), **k)
                st['z'] = e['z']
                stored = False
        if not add(e, fn):
            return
    m.h5_release()


PARTS = {'surfaces': (surfaces, 'SurfTrace'), 'lattices': (lattices, 'LatticeTrace'), 'trimeshes': (trimeshes, 'TriTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    for x in ('MCSurf', 'MCLattice', 'MCTri'):
        c.model(x, x + ('.cfg' if quick else '_thorough.cfg'))
    base = vlib.seed() * 1000003
    for part, n, many in (('surfaces', 1500, 25000), ('lattices', 1200, 20000), ('trimeshes', 800, 15000)):
        c.conform(part, PARTS[part][0], [{'seed': base + i} for i in range(n if quick else many)], PARTS[part][1])
