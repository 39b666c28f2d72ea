"""C18: polylines, sets of polylines and triangulation of points."""
import vlib
from rqutil import *
import resqpy.lines as rql
import resqpy.surface as rqs
import resqpy.olio.triangulation as tri
import math
import random

MOVES = [(3, 4, 0), (4, 3, 0), (-3, 4, 0), (4, -3, 0), (3, 4, 12), (-4, 3, 12), (0, 3, 4), (4, 0, 3), (0, -3, 4), (-4, 0, -3), (1, 0, 0), (0, 2, 0), (0, -1, 0), (-3, 0, 0), (5, 0, 0), (0, 0, 2), (8, 6, 0), (-6, 8, 0)]
FLAT = [(3, 4, 0), (4, 3, 0), (-3, 4, 0), (4, -3, 0), (1, 0, 0), (0, 2, 0), (-2, 0, 0), (0, -3, 0), (6, 8, 0)]


def near(x, den = 1):
    """Numbers, as whole ones of the given fraction."""
    x = np.asarray(x, dtype = float) * den
    o = np.rint(x)
    return np.where(np.abs(x - o) < 1e-4, o, -99999999).astype(int).tolist()


def about(x, den = 1000):
    return np.rint(np.asarray(x, dtype = float) * den).astype(int).tolist()


def turn(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def hull_of(pts):
    pts = sorted(set(pts))
    def half(q):
        h = []
        for x in q:
            while len(h) > 1 and turn(h[-2], h[-1], x) <= 0:
                h.pop()
            h.append(x)
        return h[:-1]
    return half(pts) + half(pts[::-1])


def neat(pl, flat):
    n = len(pl['p'])
    for i in range(n if pl['c'] else n - 1):
        a, b = pl['p'][i], pl['p'][(i + 1) % n]
        d = sum((x - y)**2 for x, y in zip(a[:2 if flat else 3], b[:2 if flat else 3]))
        if math.isqrt(d)**2 != d:
            return False
    return True


def seglen(pl, flat = False):
    n = len(pl['p'])
    return [math.isqrt(sum((x - y)**2 for x, y in zip(pl['p'][i][:2 if flat else 3], pl['p'][(i + 1) % n][:2 if flat else 3]))) for i in range(n if pl['c'] else n - 1)]


def simple(p):
    n = len(p)
    q = [tuple(v[:2]) for v in p]
    if len(set(q)) < n:
        return False
    on = lambda a, b, x: turn(a, b, x) == 0 and min(a[0], b[0]) <= x[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= x[1] <= max(a[1], b[1])
    for i in range(n):
        a, b = q[i - 1], q[i]
        for x in q:
            if x not in (a, b) and on(a, b, x):
                return False
        for j in range(i):
            c, d = q[j - 1], q[j]
            if len({a, b, c, d}) == 4 and turn(a, b, c) * turn(a, b, d) < 0 and turn(c, d, a) * turn(c, d, b) < 0:
                return False
    return True


def some_line(r):
    how = r.choice(['neat', 'neat', 'neat', 'any', 'star', 'star', 'convex', 'convex', 'box', 'tangle'])
    closed = r.random() < 0.6
    if how == 'neat':
        mv = r.choice([MOVES, FLAT])
        n = r.randint(1, 5)
        w = [r.choice(mv) for _ in range(n)]
        if closed and n > 1:
            w += [tuple(-x for x in v) for v in w]
            if r.random() < 0.6:
                r.shuffle(w)
            w = w[:-1]
        elif closed:
            closed = False
        p = [[r.randint(-5, 5) for _ in range(3)]]
        for v in w:
            p.append([a + b for a, b in zip(p[-1], v)])
    elif how == 'any':
        p = [[r.randint(-9, 9) for _ in range(3)] for _ in range(r.randint(3 if closed else 2, 7))]
    elif how == 'star':
        q = {(r.randint(-9, 9), r.randint(-9, 9)) for _ in range(r.randint(4, 9))}
        o = (r.randint(-2, 2) + 0.3, r.randint(-2, 2) + 0.4)
        p = [[x, y, r.randint(-4, 4)] for x, y in sorted(q, key = lambda v: math.atan2(v[1] - o[1], v[0] - o[0]))]
        closed = True
    elif how == 'tangle':
        q = hull_of([(r.randint(-9, 9), r.randint(-9, 9)) for _ in range(r.randint(7, 12))])
        if len(q) < 5:
            return some_line(r)
        q = [q[i * 2 % len(q)] for i in range(len(q))] if len(q) % 2 else q[::2] + q[::2][:1] + q[1::2]
        p = [[x, y, r.randint(-4, 4)] for x, y in q]
        closed = True
    elif how == 'convex':
        q = hull_of([(r.randint(-9, 9), r.randint(-9, 9)) for _ in range(r.randint(4, 9))])
        flat = r.random() < 0.4
        p = [[x, y, 2 if flat else r.randint(-4, 4)] for x, y in q]
        closed = True
    else:
        a, b, c, d = r.randint(-8, 0), r.randint(-8, 0), r.randint(1, 8), r.randint(1, 8)
        z = r.randint(-4, 4)
        p = [[a, b, z], [c, b, z], [c, d, z], [a, d, z]]
        if r.random() < 0.4:
            p.insert(1, [a + 1, b, z])
        closed = True
    if r.random() < 0.5:
        p = p[::-1]
    if closed and r.random() < 0.5:
        i = r.randrange(len(p))
        p = p[i:] + p[:i]
    if len(p) < 2 or any(p[i - 1] == p[i] for i in range(0 if closed else 1, len(p))):
        return some_line(r)
    if closed and len(p) < 3:
        return some_line(r)
    return {'p': p, 'c': closed}


def lines(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    pls, objs, sets, sobjs = [], [], [], []

    def add(e, fn):
        ev.append(e)
        e['obs'] = {}
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    e = {'op': 'crs', 'flip': r.random() < 0.3}
    crs = None

    def fn():
        nonlocal crs
        crs = rqc.Crs(m, z_inc_down = r.random() < 0.5, **({'axis_order': r.choice(['northing easting', 'southing westing'])} if e['flip'] else {}))
        crs.create_xml()
    if not add(e, fn):
        return

    def see(o):
        return {'p': near(o.coordinates), 'c': bool(o.isclosed)}

    def make(pl):
        e = {'op': 'new', 'p': pl['p'], 'closed': pl['c']}

        def fn():
            a = np.array(pl['p'], dtype = float)
            if r.random() < 0.3:
                a = a.reshape((1, -1, 3))
            em = {'k': str(r.randint(0, 9))} if r.random() < 0.4 else None
            o = rql.Polyline(m, set_coord = a, set_crs = crs.uuid, is_closed = pl['c'], title = r.choice(['ab', 'zq', 'line 1']), **({'extra_metadata': em} if em else {}))
            a[:] = 77.0
            objs.append([o, False, em or {}])
            e['obs'] = see(o)
        if not add(e, fn):
            return False
        pls.append(pl)
        return True

    for _ in range(r.choice([1, 2, 3])):
        if not make(some_line(r)):
            return
    for _ in range(r.randint(6, 12)):
        y = r.random()
        n = r.randrange(len(pls))
        pl, o = pls[n], objs[n][0]
        if y < 0.05 and len(pls) < 6:
            if not make(some_line(r)):
                return
        elif y < 0.1:
            e = {'op': 'trim', 'of': n + 1}
            k = len(pl['p']) - 1
            e['from'] = r.randrange(k)
            e['to'] = r.randint(e['from'], k - 1)
            e['start'] = [r.randint(-9, 9) for _ in range(3)] if r.random() < 0.4 else []
            e['end'] = [r.randint(-9, 9) for _ in range(3)] if r.random() < 0.4 else []

            def fn():
                w = rql.Polyline.from_trimmed_polyline(o, e['from'], e['to'], start_xyz = e['start'] or None, end_xyz = tuple(e['end']) or None)
                objs.append([w, False, {}])
                e['obs'] = see(w)
            if not add(e, fn):
                return
            p = [list(x) for x in pl['p'][e['from']:e['to'] + 2]]
            if e['start']:
                p[0] = e['start']
            if e['end']:
                p[-1] = e['end']
            pls.append({'p': p, 'c': False})
        elif y < 0.18:
            e = {'op': 'load', 'of': n + 1}

            def fn():
                nonlocal m
                if not objs[n][1]:
                    o.write_hdf5()
                    o.create_xml()
                    objs[n][1] = True
                m.store_epc()
                m.h5_release()
                m = rq.Model('a.epc')
                for q in objs + sobjs:
                    if q[1]:
                        q[0] = type(q[0])(m, uuid = q[0].uuid)
                    else:
                        q[0].model = m
                        for z in getattr(q[0], 'polys', []):
                            z.model = m
                w = objs[n][0]
                e['title'], e['em'] = o.title, [[k, v] for k, v in objs[n][2].items()]
                e['obs'] = dict(see(w), title = w.title, em = [[k, str(v)] for k, v in (w.extra_metadata or {}).items()])
                assert bu.matching_uuids(w.crs_uuid, crs.uuid)
            if not add(e, fn):
                return
        elif y < 0.27:
            e = {'op': 'set', 'of': [r.randrange(len(pls)) + 1 for _ in range(r.choice([1, 2, 3, 4]))]}
            if len(set(e['of'])) < len(e['of']):
                continue

            def fn():
                w = rql.PolylineSet(m, polylines = [objs[i - 1][0] for i in e['of']], title = 'a set')
                sobjs.append([w, False])
                e['obs'] = [see(x) for x in w.polys]
            if not add(e, fn):
                return
            sets.append([pls[i - 1] for i in e['of']])
        elif y < 0.31:
            e = {'op': 'import', 'fmt': r.choice(['irap', 'charisma'])}
            e['lines'] = []
            for _ in range(r.randint(1, 4)):
                q = [list(x) for x in some_line(r)['p']]
                if r.random() < 0.2:
                    q = q[:1]
                elif r.random() < 0.5:
                    q.append(q[0])
                e['lines'].append(q)
            if all(len(q) < 2 for q in e['lines']):
                continue

            def fn():
                with open('l.txt', 'w') as f:
                    for i, q in enumerate(e['lines']):
                        for v in q:
                            if e['fmt'] == 'irap':
                                f.write('%.4f  %.4f %.4f\n' % tuple(v))
                            else:
                                f.write('INLINE-\t%d\t0\t%.3f\t%.3f\t%.3f\tfault_1\t%d\n' % (r.randint(0, 3), *v, i + 1))
                        if e['fmt'] == 'irap':
                            f.write('999.0 999.0 999.0\n')
                            if r.random() < 0.2:
                                f.write('\n')
                w = rql.PolylineSet(m, crs_uuid = crs.uuid, **({'title': 'read'} if r.random() < 0.5 else {}), **{e['fmt'] + '_file': 'l.txt'})
                sobjs.append([w, False])
                e['obs'] = [see(x) for x in w.polys]
            if not add(e, fn):
                return
            w = [q for q in e['lines'] if len(q) > 1]
            sets.append([{'p': q, 'c': False} for q in w])
        elif y < 0.4 and sets:
            i = r.randrange(len(sets))
            w = sobjs[i][0]
            if r.random() < 0.5:
                e = {'op': 'loadset', 'of': i + 1, 'title': ''}

                def fn():
                    nonlocal m
                    if not sobjs[i][1]:
                        w.write_hdf5()
                        w.create_xml()
                        sobjs[i][1] = True
                    m.store_epc()
                    m.h5_release()
                    m = rq.Model('a.epc')
                    for q in objs + sobjs:
                        if q[1]:
                            q[0] = type(q[0])(m, uuid = q[0].uuid)
                        else:
                            q[0].model = m
                            for z in getattr(q[0], 'polys', []):
                                z.model = m
                    x = sobjs[i][0]
                    e['title'] = w.title
                    src = x.polys if r.random() < 0.7 else x.convert_to_polylines()
                    e['obs'] = {'polys': [see(z) for z in src], 'title': x.title}
                    assert bu.matching_uuids(x.crs_uuid, crs.uuid)
            else:
                e = {'op': 'export', 'of': i + 1, 'fmt': r.choice(['irap', 'charisma'])}

                def fn():
                    f = 'x.txt'
                    (w.convert_to_irap if e['fmt'] == 'irap' else w.convert_to_charisma)(f)
                    x = rql.PolylineSet(m, crs_uuid = crs.uuid, **{e['fmt'] + '_file': f})
                    e['obs'] = [see(z) for z in x.polys]
            if not add(e, fn):
                return
        else:
            e = question(r, m, pls, objs, sets, sobjs, n, pl, o)
            if e is None:
                continue
            e, fn = e
            if not add(e, fn):
                return
    m.h5_release()


def question(r, m, pls, objs, sets, sobjs, n, pl, o):
    p, c = pl['p'], pl['c']
    big = max(abs(x) for v in p for x in v)
    ns = len(p) if c else len(p) - 1
    q = r.choice(['in', 'in', 'lengths', 'middles', 'point', 'point', 'spaced', 'centre', 'scaled', 'closest', 'closest', 'snap', 'onseg', 'first', 'first', 'crossings', 'convex', 'clockwise', 'normal', 'area', 'area', 'normalised', 'normalised',
                  'splined', 'hull', 'which', 'which', 'which'])
    e = {'op': 'ask', 'q': q, 'of': n + 1}
    pt = lambda: [r.randint(-10, 10) for _ in range(2)]
    if q == 'in':
        if not c:
            return None
        e['mode'] = r.choice(['crossing', 'winding', 'array'])
        e['at'] = [pt() for _ in range(6)] + [v[:2] for v in p[:1]]

        def fn():
            if e['mode'] == 'array':
                a = np.array(e['at'], dtype = float)
                if r.random() < 0.5:
                    a = np.concatenate((a, np.zeros((len(a), 1))), axis = 1)
                e['obs'] = [bool(x) for x in o.points_are_inside_xy(a)]
            else:
                e['obs'] = [bool(o.point_is_inside_xy(np.array(x, dtype = float), mode = e['mode'])) for x in e['at']]
    elif q in ('lengths', 'middles', 'point', 'spaced'):
        e['flat'] = r.random() < 0.5
        if q != 'middles' and not neat(pl, e['flat']):
            return None
        d = seglen(pl, e['flat']) if q != 'middles' else [1]
        if not any(d):
            return None
        den = math.lcm(*[x for x in d if x])

        def fn():
            if q == 'lengths':
                e['obs'] = {'n': ns, 'full': near(o.full_length(in_xy = e['flat'])), 'seg': [near(o.segment_length(i, in_xy = e['flat'])) for i in range(ns)]}
            elif q == 'middles':
                e['obs'] = [near(o.segment_midpoint(i), 2) for i in range(ns)]
            elif q == 'point':
                e['b'] = r.choice([1, 2, 3, 4, 5])
                e['a'] = r.randint(0, e['b'])
                e['den'] = den * e['b']
                e['obs'] = near(o.interpolated_point(e['a'] / e['b'], in_xy = e['flat']), e['den'])
            else:
                e['n'] = r.choice([2, 3, 4, 6])
                e['den'] = den * (e['n'] if c else e['n'] - 1)
                e['obs'] = near(o.equidistant_points(e['n'], in_xy = e['flat']), e['den'])
    elif q in ('centre', 'scaled'):
        if not neat(pl, False):
            return None
        e['den'] = 2 * sum(seglen(pl))

        def fn():
            if q == 'centre':
                e['obs'] = near(o.balanced_centre(cache = r.random() < 0.7), e['den'])
            else:
                e['f'] = r.choice([1, 2, 3, -1])
                w = rql.Polyline.from_scaled_polyline(o, float(e['f']))
                e['obs'] = {'p': near(w.coordinates, e['den']), 'c': bool(w.isclosed)}
                assert w.title == o.title
    elif q == 'closest':
        if big > 10:
            return None
        e['at'] = pt()

        def fn():
            s, d = o.closest_segment_and_distance_to_point_xy(e['at'] if r.random() < 0.5 else e['at'] + [3.0])
            a, b = p[s], p[(s + 1) % len(p)]
            e['den'] = max((a[0] - b[0])**2 + (a[1] - b[1])**2, 1)
            e['obs'] = {'seg': int(s), 'd2': near(d * d, e['den'])}
    elif q == 'snap':
        e['seg'], e['at'] = r.randrange(ns), pt()
        a, b = p[e['seg']], p[(e['seg'] + 1) % len(p)]
        den = (a[0] - b[0])**2 + (a[1] - b[1])**2
        if not den:
            return None

        def fn():
            e['obs'] = near(o.point_snapped_to_segment_xy(e['seg'], np.array(e['at'], dtype = float)), den)
    elif q == 'onseg':
        e['seg'] = r.randrange(ns)
        a, b = p[e['seg']], p[(e['seg'] + 1) % len(p)]
        if a[:2] == b[:2]:
            return None
        e['b'] = 4
        e['a'] = r.randint(0, 4)

        def fn():
            f = e['a'] / 4
            e['obs'] = near(o.segment_xyz_from_xy(e['seg'], a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1])), 4)
    elif q == 'first':
        e['at'], e['half'] = [pt() + [0], pt() + [0]], r.random() < 0.5
        x, y = e['at']
        if x == y:
            return None

        def fn():
            s, fx, fy = o.first_line_intersection(*[float(v) for v in (x[:2] + y[:2])], half_segment = e['half'])
            if s is None:
                e['obs'] = {'seg': -1}
            else:
                a, b = p[s], p[(s + 1) % len(p)]
                e['den'] = (y[0] - x[0]) * (b[1] - a[1]) - (y[1] - x[1]) * (b[0] - a[0])
                e['obs'] = {'seg': int(s), 'p': near([fx, fy], e['den'])}
    elif q == 'crossings':
        k = r.randrange(len(pls))
        if k == n or big > 20 or max(abs(x) for v in pls[k]['p'] for x in v) > 20:
            return None
        e['with'] = k + 1

        def fn():
            e['obs'] = [about(x) for x in o.xy_crossings(objs[k][0])]
    elif q in ('convex', 'clockwise', 'normal', 'area', 'normalised'):
        if q != 'convex' and not c:
            return None
        tm = {} if r.random() < 0.5 else {'trust_metadata': False}
        if q == 'area' and min(max(v[k] for v in p) - min(v[k] for v in p) for k in (0, 1)) == 0:
            return None
        if q == 'normal':
            e['seg'] = r.randrange(ns)
            a, b = p[e['seg']], p[(e['seg'] + 1) % len(p)]
            d = (a[0] - b[0])**2 + (a[1] - b[1])**2
            if not d or math.isqrt(d)**2 != d:
                return None
        if q == 'normalised':
            e['at'] = [r.randint(-8, 8) for _ in range(2)] if r.random() < 0.8 else p[0][:2]
            e['mode'] = r.choice(['perimeter', 'circle'])
            t = [turn(p[i - 2], p[i - 1], p[i]) for i in range(len(p))]
            w = [turn(p[i - 1], p[i], e['at']) for i in range(len(p))]
            if not (all(x > 0 for x in t) or all(x < 0 for x in t)) or not (all(x > 0 for x in w) or all(x < 0 for x in w)):
                return None

        def fn():
            if q == 'convex':
                e['obs'] = bool(o.is_convex(**tm))
            elif q == 'clockwise':
                e['obs'] = bool(o.is_clockwise(**tm))
            elif q == 'normal':
                v = o.segment_normal(e['seg'])
                e['obs'] = about(v, 1000 * math.isqrt(d))
            elif q == 'area':
                e['obs'] = about(o.area(), 2000)
            else:
                x, y = o.normalised_xy(float(e['at'][0]), float(e['at'][1]), mode = e['mode'])
                v = o.denormalised_xy(x, y, mode = e['mode'])
                e['obs'] = {'range': bool(-1e-9 <= x <= 1.0 + 1e-9 and -1e-9 <= y <= 1.0 + 1e-9), 'p': about(v)}
    elif q == 'splined':
        if len({tuple(v) for v in p}) != len(p) or c and len(p) < 3:
            return None
        e['least'] = r.choice([1, 2, 3])

        def fn():
            k = {'max_segment_length': float(r.randint(2, 6))} if r.random() < 0.4 else {}
            w = o.splined(tangent_weight = r.choice(['linear', 'square', 'cube']), min_subdivisions = e['least'], max_degrees_per_knot = r.choice([5.0, 30.0, None]), **k)
            at, j = [], 0
            for v in p:
                while j < len(w.coordinates) and not np.allclose(w.coordinates[j], v):
                    j += 1
                at.append(j + 1 if j < len(w.coordinates) else 0)
                j += 1
            e['obs'] = {'n': len(w.coordinates), 'at': at, 'c': bool(w.isclosed)}
    elif q == 'hull':
        if not c or not simple(p):
            return None

        def fn():
            w = rql.Polyline.convex_hull_from_closed_polyline(o, 'h', mode = r.choice(['crossing', 'winding']))
            e['obs'] = {'p': near(w.coordinates), 'c': bool(w.isclosed)}
    else:
        if not sets:
            return None
        k = r.randrange(len(sets))
        e['of'], e['at'], e['mode'] = k + 1, [[r.randint(-6, 6) for _ in range(2)] for _ in range(16)], r.choice(['crossing', 'winding'])

        def fn():
            x = [sobjs[k][0].poly_index_containing_point_in_xy(v, mode = e['mode']) for v in e['at']]
            e['obs'] = [-1 if i is None else int(i) for i in x]
    return e, fn


def some_points(r, n):
    how = r.choice(['any', 'any', 'wide', 'grid', 'small'])
    w = {'any': 12, 'wide': 40, 'grid': 3, 'small': 5}[how]
    q = set()
    for _ in range(n):
        q.add((r.randint(0, w), r.randint(0, w)))
    q = list(q)
    r.shuffle(q)
    if len(hull_of(q)) < 3:
        return some_points(r, n + 1)
    return [[x, y, r.randint(-6, 6)] for x, y in q]


def cell_holds(cell, x):
    n, inside = len(cell), False
    for i in range(n):
        a, b = cell[i - 1], cell[i]
        if (a[1] > x[1]) != (b[1] > x[1]) and x[0] < a[0] + (x[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]):
            inside = not inside
    return inside


def centre_of(a, b, c):
    d = 2 * turn(a, b, c)
    bx, by, cx, cy = b[0] - a[0], b[1] - a[1], c[0] - a[0], c[1] - a[1]
    bb, cc = bx * bx + by * by, cx * cx + cy * cy
    return a[0] + (cy * bb - by * cc) / d, a[1] + (bx * cc - cx * bb) / d


def triangulation(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    even, down = r.random() < 0.7, r.random() < 0.5
    crs = rqc.Crs(m, z_inc_down = down, xy_units = 'm', z_units = 'm' if even else 'cm')
    crs.create_xml()
    zf = 1.0 if even else 100.0
    p, t, fresh = None, [], False

    def add(e, fn):
        ev.append(e)
        e['obs'] = {}
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    def ints(a, d = 0):
        return (np.asarray(a, dtype = int) + d).tolist()

    def arr(w = 3):
        return np.array(p, dtype = float)[:, :w]

    for step in range(r.randint(5, 12)):
        x = r.random()
        if p is None or x < 0.12:
            p, t, fresh = some_points(r, r.choice([3, 4, 5, 6, 8, 10, 12])), [], False
            if not add({'op': 'points', 'p': p}, lambda: None):
                return
            continue
        if not t or x < 0.2:
            if r.random() < 0.75:
                e = {'op': 'dt', 'alg': r.choice(['scipy', 'scipy', 'simple']), 'hull': r.random() < 0.6}

                def fn():
                    a = arr(r.choice([2, 3]))
                    k = a.copy()
                    y = tri.dt(a, return_hull = e['hull'], **({'algorithm': e['alg']} if e['alg'] == 'simple' or r.random() < 0.5 else {}))
                    assert np.all(a == k)
                    e['obs'] = {'t': ints(y[0] if e['hull'] else y, 1), 'b': ints(y[1], 1) if e['hull'] else []}
                if not add(e, fn):
                    return
                t, fresh = e['obs']['t'], e['alg'] == 'scipy'
            else:
                n = len(p)
                t, w, u = [], {}, []
                for _ in range(r.randint(1, 8)):
                    q = r.sample(range(1, n + 1), 3)
                    z = [frozenset(d) for d in ((q[0], q[1]), (q[1], q[2]), (q[2], q[0]))]
                    if set(q) in u or any(w.get(d, 0) > 1 for d in z) or turn(*[p[i - 1] for i in q]) == 0:
                        continue
                    u.append(set(q))
                    t.append(q)
                    for d in z:
                        w[d] = w.get(d, 0) + 1
                fresh = False
                if not t:
                    continue
                if not add({'op': 'tris', 't': t}, lambda: None):
                    return
            continue
        ta = np.array(t, dtype = r.choice([np.int32, np.int64])) - 1
        n = len(p)
        q = r.choice(['edges', 'rim', 'inner', 'rims', 'rims', 'point', 'edge', 'each', 'lengths', 'clockwise', 'cells', 'cells', 'cells', 'fan', 'reorient', 'ring', 'flange', 'flange'])
        e = {'op': 'ask', 'q': q}

        def surf():
            s = rqs.Surface(m, crs_uuid = crs.uuid, title = 's')
            s.set_from_triangles_and_points(ta.copy(), arr() * np.array((1.0, 1.0, zf)))
            return s
        if q == 'edges':
            def fn():
                y = r.choice([0, 1, 2])
                if y == 0:
                    g, c = tri.edges(ta)
                else:
                    g, c = surf().distinct_edges_and_counts()
                    if y == 2:
                        assert np.all(surf().distinct_edges() == g)
                e['obs'] = {'e': ints(g, 1), 'n': ints(c)}
        elif q in ('rim', 'inner'):
            def fn():
                g, c = tri.edges(ta)
                e['obs'] = ints((tri.rim_edges if q == 'rim' else tri.internal_edges)(g, c), 1)
        elif q == 'rims':
            # three or more triangles at a point with other edges of its rim: walks are not unique, but all are closed
            def fn():
                g = tri.rim_edges(*tri.edges(ta))
                a, b = tri.rims(g)
                e['obs'] = {'g': ints(g, 1), 'e': [ints(y, 1) for y in a], 'p': [ints(y, 1) for y in b]}
        elif q == 'point':
            e['at'] = r.randint(1, n)

            def fn():
                e['obs'] = ints(tri.triangles_using_point(ta, e['at'] - 1), 1)
        elif q == 'edge':
            e['at'] = r.sample(range(1, n + 1), 2)

            def fn():
                e['obs'] = ints(tri.triangles_using_edge(ta, e['at'][0] - 1, e['at'][1] - 1), 1)
        elif q == 'each':
            e['at'] = [r.sample(range(1, n + 1), 2) for _ in range(r.randint(1, 5))]

            def fn():
                e['obs'] = ints(tri.triangles_using_edges(ta, np.array(e['at'], dtype = int) - 1), 1)
        elif q == 'lengths':
            def fn():
                u = r.choice([None, 'm', 'cm', 'km'])
                y = surf().edge_lengths(**({'required_uom': u} if u else {}))
                e['obs'] = about(y / {None: 1.0, 'm': 1.0, 'cm': 100.0, 'km': 0.001}[u])
        elif q == 'clockwise':
            def fn():
                if r.random() < 0.5:
                    y = ta.copy()
                    z = tri.make_all_clockwise_xy(y, arr())
                    assert np.all(z == y)
                else:
                    s = surf()
                    s.make_all_clockwise_xy()
                    y = s.triangles
                e['obs'] = ints(y, 1)
        elif q == 'cells':
            if not fresh:
                continue
            W = max(max(v[0] for v in p), max(v[1] for v in p))
            d = r.choice([1, 1 + W // 3, 3 * W, 10 * W])
            a = [[-d, -d], [-d, W + d], [W + d, W + d], [W + d, -d]]
            if r.random() < 0.5:      # cut corners
                h = W // 2
                a = [[-d, h], [-d + (h + d) // 2, W + d], [h, W + d + 1 + d // 3], [W + d, W + d - d // 2], [W + d, -d // 2], [h, -d - 1]]
                hh = hull_of([tuple(v) for v in a])
                a = [list(v) for v in hh[::-1]]
                if any(turn(a[i - 1], a[i], v) >= 0 for i in range(len(a)) for v in p):
                    continue
            inside = lambda v: all(turn(a[i - 1], a[i], v) < 0 for i in range(len(a)))
            far = not all(inside(centre_of(*[p[i - 1] for i in w])) for w in t)
            if far:
                e['q'] = 'cells_far'
            e['aoi'] = a
            lo, hi = min(min(v) for v in a), max(max(v) for v in a)
            e['at'] = [v for v in ([r.randint(lo, hi), r.randint(lo, hi)] for _ in range(12)) if inside(v)] + [[r.randint(0, W), r.randint(0, W)] for _ in range(8)]
            e['at'] = [v for v in e['at'] if inside(v)]

            def fn():
                b = tri.dt(arr(), return_hull = True)[1]
                k = r.randrange(len(a))
                o = rql.Polyline(m, set_coord = np.array([v + [0.0] for v in a[k:] + a[:k]], dtype = float), is_closed = True, set_crs = crs.uuid, title = 'aoi')
                c, v = tri.voronoi(arr(r.choice([2, 3])), ta, b, o)
                cells = [[tuple(c[i]) for i in w] for w in v]
                e['obs'] = {'n': len(v), 'in': [[i + 1 for i in range(len(v)) if cell_holds(cells[i], y)] for y in e['at']],
                            'clockwise': all(sum(w[i - 1][0] * w[i][1] - w[i][0] * w[i - 1][1] for i in range(len(w))) < 0.0 for w in cells)}
        elif q == 'fan':
            e['n'] = n
            e['v'] = []
            for _ in range(r.randint(1, 4)):
                z = r.sample(range(n), min(n, r.randint(3, 6)))
                h = hull_of([tuple(p[i][:2]) for i in z])
                if len(h) > 2:
                    w = [1 + next(i for i in z if tuple(p[i][:2]) == y) for y in h]
                    e['v'].append(w[::-1] if r.random() < 0.5 else w)
            if not e['v']:
                continue

            def fn():
                d = r.choice([2, 3])
                cc = np.array([[r.randint(0, 9) for _ in range(d)] for _ in e['v']], dtype = float) if r.random() < 0.5 else None
                a = arr(d)
                pp, y = tri.triangulated_polygons(a, [[i - 1 for i in w] for w in e['v']], **({'centres': cc} if cc is not None else {}))
                if cc is not None:
                    ok = np.all(pp[n:] == cc)
                else:
                    ok = True
                    for i, w in enumerate(e['v']):
                        g = [turn(p[w[k - 1] - 1], p[w[k] - 1], pp[n + i]) for k in range(len(w))]
                        ok = ok and (min(g) > 0 or max(g) < 0)
                e['obs'] = {'t': ints(y, 1), 'n': len(pp), 'same': bool(np.all(pp[:n] == a)), 'centres': bool(ok)}
        elif q == 'reorient':
            e['planar'] = r.random() < 0.6
            e['exact'] = r.random() < 0.6
            e['dip'] = r.choice([0, 0, 0, 10, 30])
            if e['planar']:
                u, w = [[r.randint(-3, 3) for _ in range(3)] for _ in range(2)]
                if not any(np.cross(u, w)):
                    continue
                a = np.array([[i * u[k] + j * w[k] + 5 for k in range(3)] for i, j in [(0, 0), (1, 0), (0, 1)] + [(r.randint(-4, 4), r.randint(-4, 4)) for _ in range(6)]], dtype = float)
            else:
                a = arr()
            if e['dip']:
                e['planar'] = False

            def fn():
                k = a.copy()
                z = {'max_dip': e['dip']} if e['dip'] else {}
                if not e['exact']:
                    z['use_linalg'] = False
                    z['rough'] = r.random() < 0.8
                aa = a.reshape((1, -1, 3)) if r.random() < 0.2 and not e['planar'] else a
                y, nv, R = tri.reorient(aa, **z)
                y = y.reshape((-1, 3))
                tip = R @ nv
                e['obs'] = {'rotation': bool(np.allclose(R @ R.T, np.eye(3)) and np.linalg.det(R) > 0.0),
                            'applied': bool(np.allclose(y, a @ R.T)), 'original': bool(np.all(a == k)),
                            'up': bool(nv[2] > -1e-6 and np.allclose(tip / np.linalg.norm(tip) * (1.0 if e['exact'] else np.sign(tip[2])), (0, 0, 1), atol = 1e-5)),
                            'level': bool(np.ptp(y[:, 2]) < 1e-6),
                            'dip': int(round(1000 * math.degrees(math.acos(min(1.0, abs((R.T @ np.array((0.0, 0.0, 1.0)))[2]))))))}
        elif q == 'ring':
            e['count'], e['inner'] = r.randint(3, 14), r.random() < 0.4
            f = r.choice([2.0, 1.5, 10.0])
            dist = r.choice([None, 3.0, 500.0])
            sa = r.choice([None, None, 0.0, 20.0, -45.0])

            def fn():
                y = tri.surrounding_xy_ring(arr(), count = e['count'], radial_factor = f, inner_ring = e['inner'], radial_distance = dist, saucer_angle = sa)
                c = np.mean(arr(), axis = 0)
                parts = [y[:-e['count']], y[-e['count']:]] if e['inner'] else [y]
                rad = lambda v: np.hypot(v[:, 0] - c[0], v[:, 1] - c[1])
                big = np.sqrt(np.sum(np.max(np.abs(arr() - c), axis = 0)[:2]**2))
                far = np.max(rad(arr()))
                outer = np.mean(rad(parts[-1]))
                ok = lambda v: np.allclose(v[:, 2], c[2] - rad(v) * math.tan(math.radians(sa or 0.0)))
                gap = lambda v: np.hypot(*np.diff(np.concatenate((v, v[:1])), axis = 0)[:, :2].T)
                e['obs'] = {'n': len(y), 'circle': bool(all(np.ptp(rad(v)) < 1e-6 for v in parts) and abs(outer - max(f * big, dist or 0.0)) < 1e-6),
                            'level': bool(all(ok(v) for v in parts)), 'apart': bool(all(np.ptp(gap(v)) < 1e-6 and np.min(gap(v)) > 1e-6 for v in parts)),
                            'outside': bool(all(np.min(rad(v)) > far for v in parts))}
        else:
            e['way'] = r.choice(['xy', 'plane'])
            e['flange'], e['inner'], e['count'], e['cw'] = r.random() < 0.5, r.random() < 0.4, r.randint(4, 12), r.random() < 0.6
            e['even'] = even
            if e['way'] == 'plane' and np.linalg.matrix_rank(arr() - arr()[0], tol = 1e-6) < 2:
                continue
            sp = r.choice([None, 30.0, -30.0]) if e['way'] == 'plane' and e['flange'] else None

            def fn():
                a = arr() * np.array((1.0, 1.0, zf))
                b = a.copy()
                if r.random() < 0.25:
                    b = np.insert(b, r.randint(0, n), np.array((1.0, np.nan, 2.0)), axis = 0)
                ps = rqs.PointSet(m, points_array = b, crs_uuid = crs.uuid, title = 'ps')
                s = rqs.Surface(m, crs_uuid = crs.uuid, title = 's')
                k = {}
                if e['flange']:
                    k = {'extend_with_flange': True, 'flange_point_count': e['count'], 'flange_inner_ring': e['inner'], 'flange_radial_factor': r.choice([3.0, 10.0])}
                    if sp is not None:
                        k['saucer_parameter'] = sp
                y = s.set_from_point_set(ps, reorient = e['way'] == 'plane', make_clockwise = e['cw'], **k)
                ts, pp = s.triangles_and_points()
                assert np.array_equal(ps.full_array_ref(), b, equal_nan = True)
                e['obs'] = {'t': ints(ts, 1), 'n': len(pp), 'same': bool(np.allclose(pp[:n], a)), 'f': [] if y is None else [bool(v) for v in y],
                            'normal': about(s.normal()) if e['way'] == 'plane' else [0, 0, 0]}
        if not add(e, fn):
            return
    m.h5_release()


PARTS = {'lines': (lines, 'LinesTrace'), 'triangulation': (triangulation, 'DelaunayTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    for x in ('MCLines', 'MCDelaunay'):
        c.model(x, x + ('.cfg' if quick else '_thorough.cfg'))
    base = vlib.seed() * 1000003
    for part, n, many in (('lines', 2500, 40000), ('triangulation', 2500, 40000)):
        c.conform(part, PARTS[part][0], [{'seed': base + i} for i in range(n if quick else many)], PARTS[part][1])
