"""C20: blocked wells."""
import vlib
from rqutil import *
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.rq_import as rqi
import resqpy.well as rqw
import resqpy.olio.wellspec_keywords as wsk
import math
import os
import random
import pandas as pd


def ms(x):
    x = float(x)
    return 99999999 if not math.isfinite(x) or abs(x) > 2e6 else int(math.floor(x * 1000 + 0.5))


def some_grid(r):
    nk, nj, ni = r.randint(1, 4), r.randint(1, 3), r.randint(1, 3)
    regular = r.random() < 0.2

    def edges(n, lo, sizes):
        q = [lo]
        for _ in range(n):
            q.append(q[-1] + r.choice(sizes))
        return q
    xs = edges(ni, r.randint(0, 20), [10, 15, 20, 30])
    ys = edges(nj, r.randint(0, 20), [10, 15, 20, 30])
    if r.random() < 0.4:
        ys.reverse()
    zs = edges(nk, 100, [5, 8, 10, 14] + ([0] if r.random() < 0.25 else []))
    if zs[0] == zs[-1]:
        zs[-1] += 8
    thr = [[0] * ni for _ in range(nj)]
    if regular:
        dx, dy, dz = r.choice([10, 15, 20, 30]), r.choice([10, 15, 20, 30, -10, -20]), r.choice([5, 8, 10, 14])
        xs, ys, zs = [dx * i for i in range(ni + 1)], [dy * j for j in range(nj + 1)], [dz * k for k in range(nk + 1)]
    elif r.random() < 0.5:
        for _ in range(r.randint(1, 2)):
            d = r.choice([-12, -7, -3, 3, 4, 9, 17, 40])
            cut = r.choice('ij')
            p = r.randint(0, (ni if cut == 'i' else nj))
            for j in range(nj):
                for i in range(ni):
                    if (i if cut == 'i' else j) >= p:
                        thr[j][i] += d
    dead = [[k, j, i] for k in range(nk) for j in range(nj) for i in range(ni) if r.random() < 0.2] if r.random() < 0.5 else []
    return {'xs': xs, 'ys': ys, 'zs': zs, 'thr': thr, 'regular': regular, 'down': r.random() < 0.7, 'dead': dead,
            'perm': [[[r.randint(1, 500) for i in range(ni)] for j in range(nj)] for k in range(nk)],
            'reg': [[[r.randint(1, 3) for i in range(ni)] for j in range(nj)] for k in range(nk)]}


def make_grid(m, g, crs, title):
    nk, nj, ni = len(g['zs']) - 1, len(g['ys']) - 1, len(g['xs']) - 1
    if g['regular']:
        grid = grr.RegularGrid(m, extent_kji = (nk, nj, ni), dxyz = (float(g['xs'][1]), float(g['ys'][1]), float(g['zs'][1]) * (1 if g['down'] else -1)), crs_uuid = crs.uuid,
                               set_points_cached = True, title = title)
        lattice = not g['dead']
        grid.inactive = np.zeros((nk, nj, ni), dtype = bool)
        for c in g['dead']:
            grid.inactive[tuple(c)] = True
        grid.all_inactive = bool(np.all(grid.inactive))
        if lattice:
            grid.create_xml(use_lattice = True, write_active = True, add_cell_length_properties = False)
        else:
            grid.write_hdf5()
            grid.create_xml(write_geometry = True, use_lattice = False, write_active = True, add_cell_length_properties = False)
        return grid
    cp = np.empty((nk, nj, ni, 2, 2, 2, 3))
    for k in range(nk):
        for j in range(nj):
            for i in range(ni):
                for kp in range(2):
                    for jp in range(2):
                        for ip in range(2):
                            z = g['zs'][k + kp] + g['thr'][j][i]
                            cp[k, j, i, kp, jp, ip] = (g['xs'][i + ip], g['ys'][j + jp], z if g['down'] else -z)
    act = np.ones((nk, nj, ni), dtype = bool)
    for c in g['dead']:
        act[tuple(c)] = False
    grid = rqi.grid_from_cp(m, cp, crs.uuid, active_mask = act, dot_tolerance = 0.0, morse_tolerance = 1000.0, max_z_void = 0.1,
                            ijk_handedness = 'right' if (g['ys'][0] < g['ys'][-1]) == g['down'] else 'left')
    grid.title = title
    grid.write_hdf5()
    grid.create_xml(write_geometry = True, write_active = True, title = title)
    return grid


def some_path(r, g):
    """Knots above, through and beyond the grid, passing no nearer than 0.4 to any edge of a cell."""
    x0, x1, y0, y1 = min(g['xs']), max(g['xs']), min(g['ys']), max(g['ys'])
    t = [v for q in g['thr'] for v in q]
    z0, z1 = g['zs'][0] + min(t), g['zs'][-1] + max(t)
    for _ in range(60):
        n = r.randint(1, 5)
        wide = r.choice([0, 0, 20])
        pts = [[r.randint(x0 - wide, x1 + wide), r.randint(y0 - wide, y1 + wide), z0 - r.randint(1, 60)]]
        for _ in range(n):
            how = r.random()
            if how < 0.15:
                p = [pts[-1][0], pts[-1][1], r.randint(z0 - 10, z1 + 20)]
            elif how < 0.3 and pts[-1][2] > z0:
                p = [r.randint(x0 - wide, x1 + wide), r.randint(y0 - wide, y1 + wide), pts[-1][2]]
            else:
                p = [r.randint(x0 - wide, x1 + wide), r.randint(y0 - wide, y1 + wide), r.randint(z0 - 10, z1 + 20)]
            pts.append(p)
        if any(p == q for p, q in zip(pts, pts[1:])):
            continue
        if clear(g, pts):
            return pts
    return None


def clear(g, pts):
    def near(v, q, d):
        return any(abs(v - e) < d for e in q)
    zz = sorted(set(z + t for z in g['zs'] for row in g['thr'] for t in row))
    lo = [min(g['xs']), min(g['ys']), zz[0]]
    hi = [max(g['xs']), max(g['ys']), zz[-1]]
    for p in pts[1:]:
        if near(p[0], g['xs'], 0.6) or near(p[1], g['ys'], 0.6) or near(p[2], zz, 0.6):
            return False
    if near(pts[0][0], g['xs'], 0.6) or near(pts[0][1], g['ys'], 0.6):
        return False
    for p, q in zip(pts, pts[1:]):
        cross = []
        for ax, es in ((0, g['xs']), (1, g['ys']), (2, zz)):
            if p[ax] == q[ax]:
                continue
            for e in es:
                f = (e - p[ax]) / (q[ax] - p[ax])
                if 0.0 <= f <= 1.0:
                    at = [p[k] + f * (q[k] - p[k]) for k in range(3)]
                    if all(lo[k] - 1 <= at[k] <= hi[k] + 1 for k in range(3)):
                        cross.append((f, ax, at))
        for f, ax, at in cross:
            for ax2, es in ((0, g['xs']), (1, g['ys']), (2, zz)):
                if ax2 != ax and near(at[ax2], es, 0.6):
                    return False
        d = math.dist(p, q)
        fs = sorted(f for f, _, _ in cross)
        if any((b - a) * d < 0.5 for a, b in zip(fs, fs[1:])):
            return False
    return True


def state_of(b):
    """What a blocked well holds."""
    if not b.node_count or b.node_mds is None:
        return {'md': [], 'inc': True, 'gi': [], 'cells': [], 'faces': []}
    md = [float(v) for v in b.node_mds]
    assert b.node_count == len(md) and b.cell_count == len(b.cell_indices) == len(b.face_pair_indices) and len(b.grid_indices) == len(md) - 1
    cells = [[int(v) for v in c] for c in b.cell_indices_kji0()] if b.cell_count else []
    return {'md': [ms(v) for v in md], 'inc': all(p < q for p, q in zip(md, md[1:])), 'gi': [int(v) for v in b.grid_indices], 'cells': cells,
            'faces': [[int(v) for v in np.array(f).flatten()] for f in b.face_pair_array()] if b.cell_count else []}


def drill(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    W, T = {}, {}
    cur = {'m': m}

    def add(e, fn):
        ev.append(e)
        e['obs'] = {}
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        return k == 'ok'

    g = some_grid(r)
    nk, nj, ni = len(g['zs']) - 1, len(g['ys']) - 1, len(g['xs']) - 1
    crs = rqc.Crs(m, z_inc_down = g['down'])
    crs.create_xml()
    grid = make_grid(m, g, crs, 'main')
    gu = grid.uuid
    cur['grid'] = grid
    if grid.inactive is None:
        g['dead'] = []
    else:
        g['dead'] = [[int(v) for v in c] for c in np.argwhere(grid.inactive)]
    ev.append({'op': 'grid', 'g': g, 'res': {'k': 'ok', 'what': ''}, 'obs': {}})
    P = {}

    def gr():
        if 'grid' in cur and r.random() < 0.5:
            return cur['grid']
        return cur['m'].grid(uuid = gu)

    def nat(c):
        return (c[0] * nj + c[1]) * ni + c[2]

    def block():
        pts = some_path(r, g)
        if pts is None:
            return
        mds = [r.choice([0, 0, 10, 30])]
        for p, q in zip(pts, pts[1:]):
            mds.append(mds[-1] + max(1, int(math.dist(p, q)) + r.choice([0, 1, 1, 3])))
        n = 'T%d' % (len(W) + 1)
        same = r.random() < 0.6
        off = [0, 0] if same else [r.randint(-30, 30), r.randint(-30, 30)]
        flip = (not same) and r.random() < 0.5
        e = {'op': 'block', 'n': n, 'mds': mds, 'pts': pts, 'live': r.random() < 0.3, 'off': off, 'flip': flip, 'way': r.choice(['make', 'compute'])}

        def fn():
            mm = cur['m']
            down = g['down'] != flip
            if same:
                cu = gr().crs_uuid
            else:
                c = rqc.Crs(mm, x_offset = float(off[0]), y_offset = float(off[1]), z_inc_down = down)
                c.create_xml()
                cu = c.uuid
            loc = [[float(p[0] - off[0]), float(p[1] - off[1]), float(p[2] if down else -p[2])] for p in pts]
            md = rqw.MdDatum(mm, crs_uuid = cu, location = tuple(loc[0]), md_reference = 'kelly bushing')
            md.create_xml()
            tj = rqw.Trajectory(mm, md_datum = md, length_uom = 'm', well_name = n, data_frame = pd.DataFrame(
                {'MD': [float(v) for v in mds], 'X': [p[0] for p in loc], 'Y': [p[1] for p in loc], 'Z': [p[2] for p in loc]}))
            tj.write_hdf5()
            tj.create_xml()
            if r.random() < 0.5:
                tj = rqw.Trajectory(mm, uuid = tj.uuid)
            if e['way'] == 'make' and not e['live']:
                b = rqw.BlockedWell(mm, grid = gr(), trajectory = tj, well_name = n)
            else:
                b = rqw.BlockedWell(mm, well_name = n)
                b.compute_from_trajectory(tj, gr(), active_only = e['live'], quad_triangles = r.random() < 0.8, use_single_layer_tactics = r.random() < 0.7)
            e['obs'] = state_of(b)
            if e['obs']['cells']:
                keep(n, b)
        return add(e, fn)

    def faces_of(cells):
        q = []
        for n, c in enumerate(cells):
            def towards(x, y):
                d = [y[k] - x[k] for k in range(3)]
                if d[1] == 0 and d[2] == 0:
                    return (0, 1 if d[0] >= 0 else 0)
                if abs(d[1]) > abs(d[2]):
                    return (1, 1 if d[1] >= 0 else 0)
                return (2, 1 if d[2] >= 0 else 0)
            into = (0, 1) if n == 0 else towards(cells[n - 1], c)
            out = into if n == len(cells) - 1 else towards(c, cells[n + 1])
            q.append((into[0], 1 - into[1]) == out)
        return q

    def some_cells(straight):
        """Cells to be visited, no two alike in succession and none left by the face of entry."""
        solid = [k for k in range(nk) if g['zs'][k] != g['zs'][k + 1]]
        for _ in range(40):
            if straight:
                j, i = r.randint(0, nj - 1), r.randint(0, ni - 1)
                k = r.randint(0, len(solid) - 1)
                cells = [[q, j, i] for q in solid[k:k + r.randint(1, 4)]]
                return cells
            cells = [[r.choice(solid), r.randint(0, nj - 1), r.randint(0, ni - 1)]]
            for _ in range(r.randint(0, 6)):
                c = list(cells[-1])
                if r.random() < 0.8:
                    ax = r.randint(0, 2)
                    c[ax] += r.choice([1, 1, -1])
                else:
                    c = [r.choice(solid), r.randint(0, nj - 1), r.randint(0, ni - 1)]
                if c != cells[-1] and c[0] in solid and 0 <= c[1] < nj and 0 <= c[2] < ni:
                    cells.append(c)
            if not any(faces_of(cells)):
                return cells
        return [[solid[0], 0, 0]]

    def knots_of(b):
        t = b.trajectory
        return {'kmd': [ms(v) for v in t.measured_depths], 'kpt': [[int(math.floor(2 * float(v) + 0.5)) for v in q] for q in t.control_points]}

    def keep(n, b):
        b.write_hdf5()
        b.create_xml()
        W[n] = b

    def cells():
        n = 'C%d' % (len(W) + 1)
        way = r.choice(['list', 'list', 'frame', 'file', 'file', 'angles', 'angles', 'column'])
        e = {'op': 'cells', 'n': n, 'way': way, 'uom': r.choice(['', '', 'm', 'ft']), 'skip': False}
        if way == 'column':
            e['skip'] = r.random() < 0.7
            j, i = r.randint(0, nj - 1), r.randint(0, ni - 1)
            e['cells'] = [[k, j, i] for k in range(nk)]
            if all(g['zs'][k] == g['zs'][k + 1] or (e['skip'] and [k, j, i] in g['dead']) for k in range(nk)):
                return
        else:
            e['cells'] = some_cells(way == 'angles')
            if way == 'file' and len(set(map(tuple, e['cells']))) < len(e['cells']):
                way = e['way'] = 'frame'
        uom = e['uom'] or None
        centres = way != 'angles' or r.random() < 0.5
        with_angles = way == 'angles' or (way == 'file' and r.random() < 0.3 and all(x[1:] == e['cells'][0][1:] and x[0] > w[0] for w, x in zip(e['cells'], e['cells'][1:])))

        def fn():
            mm = cur['m']
            G = gr()
            b = None
            if way == 'list':
                if r.random() < 0.5:
                    b = rqw.BlockedWell(mm, well_name = n)
                    b.derive_from_cell_list(np.array(e['cells']), n, G, length_uom = uom)
                else:
                    b = rqw.BlockedWell(mm)
                    assert b.derive_from_cell_list(np.array(e['cells']), n, G, uom) is b and b.well_name == n
            elif way == 'column':
                j, i = e['cells'][0][1:]
                if e['skip'] and uom is None and r.random() < 0.4:
                    b = rqw.BlockedWell(mm, grid = G, column_ji0 = (j, i), well_name = n)
                else:
                    b = rqw.BlockedWell(mm, well_name = n)
                    b.set_for_column(n, G, (j, i), skip_inactive = e['skip'], length_uom = uom)
            else:
                rows = [[c[2] + 1, c[1] + 1, c[0] + 1] for c in e['cells']]
                cols = ['IW', 'JW', 'L']
                if with_angles:
                    cols += ['ANGLV', 'ANGLA']
                    rows = [q + [0.0, 0.0] for q in rows]
                if way == 'file' or (way == 'angles' and r.random() < 0.5):
                    check = r.random() < 0.6
                    if check:
                        cols.append('GRID')
                        rows = [q + [r.choice(['main', 'MAIN', 'Main'])] for q in rows]
                        for _ in range(r.choice([0, 0, 1, 3])):
                            rows.insert(r.randint(0, len(rows)), [1, 1, 1] + ([0.0, 0.0] if with_angles else []) + ['other'])
                    with open('w.dat', 'w') as f:
                        f.write('! wells\n')
                        if r.random() < 0.5:
                            f.write('WELLSPEC ELSE\nIW JW L RADW\n 1 1 1 0.5\n\n')
                        f.write('WELLSPEC %s\n%s\n' % (n, ' '.join(cols)))
                        for q in rows:
                            f.write(' '.join(str(v) for v in q) + (' ! note' if r.random() < 0.2 else '') + '\n')
                        if r.random() < 0.5:
                            f.write('\nWELLSPEC LATER\nIW JW L\n 1 1 1\n')
                    if r.random() < 0.5 or uom is not None:
                        b = rqw.BlockedWell(mm, well_name = n)
                        b.derive_from_wellspec('w.dat', n, G, check_grid_name = check, use_face_centres = centres, add_properties = False, length_uom = uom)
                    else:
                        b = rqw.BlockedWell(mm, grid = G, wellspec_file = 'w.dat', well_name = n, check_grid_name = check, use_face_centres = centres)
                else:
                    b = rqw.BlockedWell(mm, well_name = n)
                    b.derive_from_dataframe(pd.DataFrame(rows, columns = cols), n, G, use_face_centres = centres, length_uom = uom)
            e['obs'] = dict(state_of(b), **knots_of(b))
            keep(n, b)
        return add(e, fn)

    def some():
        return r.choice(sorted(W)) if W else None

    def where():
        n = some()
        if n is None:
            return
        b = W[n]
        N = b.node_count - 1
        at = [[r.randint(0, N - 1), r.randint(1, 3)] for _ in range(4)]
        e = {'op': 'where', 'n': n, 'at': at}

        def fn():
            def res(md):
                c, f = b.wb_cell_for_md(md)
                return [int(c), ms(f)]
            q = b.node_mds
            e['obs'] = {'v': [res(q[i] + (q[i + 1] - q[i]) * h * 0.25) for i, h in at], 'before': res(q[0] - 0.5), 'beyond': res(q[-1] + 0.5)}
        return add(e, fn)

    def maps():
        n = some()
        if n is None:
            return
        b = W[n]
        e = {'op': 'maps', 'n': n}

        def fn():
            kji, gl = b.cell_indices_and_grid_list()
            assert all(x.uuid == gu for x in gl) and b.number_of_grids() == 1 and b.single_grid().uuid == gu
            e['obs'] = {'map': [int(v) for v in b.map_cell_and_grid_indices()], 'comp': [int(v) for v in b.compressed_grid_indices()],
                        'ee': [[ms(v) for v in b.entry_and_exit_mds(c)] for c in range(b.cell_count)], 'iv': [int(b.interval_for_cell(c)) for c in range(b.cell_count)],
                        'kji': [[int(v) for v in c] for c in kji], 'kju': [[int(v) for v in c] for c in b.cell_indices_for_grid_uuid(r.choice([gu, str(gu)]))],
                        'box': [[int(v) for v in q] for q in b.box(r.choice([None, gu]))]}
        return add(e, fn)

    def table():
        n = some()
        if n is None:
            return
        b = W[n]
        way = r.choice(['frame', 'frame', 'file'])
        if len(set(b.cell_indices)) < len(b.cell_indices):    # repeated rows are dropped when a file is read
            way = 'frame'
        f = lambda p: r.random() < p
        o = {'one': f(0.6), 'mink': r.randint(0, nk - 1) if f(0.15) else -1, 'maxk': r.randint(0, nk - 1) if f(0.15) else -1, 'hask': f(0.15), 'ks': sorted(r.sample(range(nk), r.randint(1, nk))),
             'act': f(0.3), 'deep': 4 * r.randint(g['zs'][0], g['zs'][-1]) + 1 if f(0.25) else 0, 'hasr': f(0.2), 'rs': sorted(r.sample([1, 2, 3], r.randint(1, 2))),
             'minl': r.choice([500, 1500, 4000, 8000]) if f(0.2) else 0, 'perf': [], 'uom': r.choice(['', '', 'm', 'ft']), 'mode': r.choice(['MD', 'MD', 'straight']),
             'face': f(0.3), 'dd': f(0.4), 'kh': f(0.5)}
        if o['mink'] >= 0 and o['maxk'] >= 0 and o['mink'] > o['maxk']:
            o['maxk'] = -1
        if way == 'file':
            o['one'], o['face'] = True, False
        if o['face']:
            o['mode'] = 'straight'
        if f(0.3):
            lo, hi = int(b.node_mds[0]), int(b.node_mds[-1]) + 1
            cuts = sorted(r.sample(range(lo - 5, hi + 20), 2 * r.randint(1, 3)))
            o['perf'] = [[cuts[q], cuts[q + 1]] for q in range(0, len(cuts), 2)]
            r.shuffle(o['perf'])
        e = {'op': 'table', 'n': n, 'way': way, 'o': o}

        def fn():
            cols = ['LENGTH', 'MD', 'X', 'Y', 'DEPTH'] + (['PPERF'] if o['perf'] else []) + (['KH'] if o['kh'] else [])
            if way == 'frame':
                r.shuffle(cols)
            kw = {'extra_columns_list': cols, 'active_only': o['act'], 'min_k0': o['mink'] if o['mink'] >= 0 else None, 'max_k0': o['maxk'] if o['maxk'] >= 0 else None,
                  'k0_list': o['ks'] if o['hask'] else None, 'max_depth': o['deep'] / 4.0 if o['deep'] else None, 'region_list': o['rs'] if o['hasr'] else None, 'region_uuid': P['reg'],
                  'min_length': o['minl'] / 1000.0 if o['minl'] else None, 'perforation_list': [tuple(p) for p in o['perf']] if o['perf'] else None, 'length_uom': o['uom'] or None,
                  'length_mode': o['mode'], 'depth_inc_down': True if o['dd'] else r.choice([False, None]), 'perm_i_uuid': P['perm'] if o['kh'] else None}
            if way == 'frame':
                df = b.dataframe(one_based = o['one'], use_face_centres = o['face'], **kw)
            else:
                b.write_wellspec('x.dat', well_name = n, mode = 'w', **kw)
                df = wsk.load_wellspecs('x.dat', well = n, column_list = ['IW', 'JW', 'L'] + cols).get(n, [])
            rows = []
            for q in range(len(df)):
                x = df.iloc[q]
                rows.append([int(x['IW']), int(x['JW']), int(x['L'])] + [ms(x[c]) for c in ('LENGTH', 'MD', 'X', 'Y', 'DEPTH')] +
                            [ms(x['PPERF']) if o['perf'] else 1000, ms(x['KH']) if o['kh'] else 0])
            e['obs'] = {'rows': rows, 'skh': 0}
            if o['kh'] and way == 'frame':
                kw.pop('extra_columns_list')
                kw.pop('depth_inc_down')
                e['obs']['skh'] = ms(b.static_kh(use_face_centres = o['face'], **kw))
        return add(e, fn)

    def prop():
        n = some()
        if n is None or n in has_prop:
            return
        b = W[n]
        e = {'op': 'prop', 'n': n}

        def fn():
            has_prop.add(n)
            b.add_grid_property_to_blocked_well([P['perm'], P['reg']])
            pc = b.extract_property_collection(refresh = True)
            e['obs'] = {'perm': [ms(v / 1000.0) for v in pc.single_array_ref(citation_title = 'perm')], 'reg': [int(v) for v in pc.single_array_ref(citation_title = 'reg')]}
        return add(e, fn)

    def wframe():
        n = some()
        if n is None:
            return
        b = W[n]
        lo, hi = int(b.node_mds[0]), int(b.node_mds[-1]) + 2
        q = [r.randint(lo - 10, hi)]
        for _ in range(r.randint(1, 6)):
            q.append(q[-1] + r.randint(3, 120))
        if r.random() < 0.3:      # a boundary shared with the cells
            at = r.randint(0, b.node_count - 1)
            q = sorted(set(v for v in q if abs(v - b.node_mds[at]) > 2.0) | {float(b.node_mds[at])})
            if len(q) < 2 or any(y - x > 250 for x, y in zip(q, q[1:])):
                return
        e = {'op': 'frame', 'n': n, 'mds': [ms(v) for v in q]}

        def fn():
            w = rqw.WellboreFrame(cur['m'], trajectory = b.trajectory, mds = np.array(q, dtype = float), title = 'f', represented_interp = b.wellbore_interpretation)
            w.write_hdf5()
            w.create_xml()
            e['obs'] = {'v': [[[int(i), ms(x), ms(y)] for i, x, y in c] for c in b.frame_contributions_list(w)]}
        return add(e, fn)

    def reload():
        e = {'op': 'reload', 'v': {}}
        if not W:
            return

        def fn():
            mm = cur['m']
            mm.store_epc()
            mm.h5_release()
            mm = rq.Model('a.epc')
            cur['m'] = mm
            cur.pop('grid', None)
            for n in sorted(W):
                W[n] = rqw.BlockedWell(mm, uuid = W[n].uuid)
            e['obs'] = {'v': {n: state_of(W[n]) for n in W}, 'name': {n: str(W[n].well_name) for n in W}}
        return add(e, fn)

    has_prop = set()
    for k in ('perm', 'reg'):
        p = rqp.Property.from_array(m, np.array(g[k], dtype = float if k == 'perm' else int), 'x', k, gu, property_kind = 'permeability rock' if k == 'perm' else 'region initialization',
                                    indexable_element = 'cells', uom = 'mD' if k == 'perm' else None, discrete = k != 'perm', null_value = -1)
        P[k] = p.uuid
    OPS = {'block': block, 'cells': cells, 'where': where, 'maps': maps, 'table': table, 'prop': prop, 'frame': wframe, 'reload': reload}
    for _ in range(r.randint(1, 3)):
        if OPS[r.choice(['block', 'cells'])]() is False:
            return
    for _ in range(r.randint(0, 5)):
        if OPS[r.choice(['block', 'cells', 'where', 'maps', 'table', 'table', 'table', 'prop', 'frame', 'reload'])]() is False:
            break


PARTS = {'drill': (drill, 'DrillTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCDrill', 'MCDrill' + ('.cfg' if quick else '_thorough.cfg'))
    base = vlib.seed() * 1000003
    for part, n, many in (('drill', 1500, 30000),):
        c.conform(part, PARTS[part][0], [{'seed': base + i} for i in range(n if quick else many)], PARTS[part][1])
