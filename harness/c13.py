"""C13: geometry of grids made from other grids."""
import vlib
from rqutil import *
import resqpy.grid as grr
import resqpy.property as rqp
import resqpy.olio.fine_coarse as fc
import resqpy.derived_model as rqdm
import random


def ints(v):
    return [int(x) for x in v]


def whole(v, den):
    w = np.asarray(v, dtype = float) * den
    o = np.rint(w)
    return np.where(np.abs(w - o) < 1e-3, o, -999999).astype(int)


def pillared(r, x, gaps = True, split = True, undef = True, like = None):
    """Planes of points and pillars of columns."""
    nk, nj, ni = x
    if like is None:
        any_gap = gaps and r.random() < 0.4
        gap = [any_gap and r.random() < 0.5 for _ in range(nk - 1)]
    else:
        gap = like['gap']
    base = [(12 * i, 12 * j) for j in range(nj + 1) for i in range(ni + 1)]
    shear, wobble, flat = r.randint(0, 3), r.randint(0, 4), r.random()
    base = [(px + r.randint(0, wobble) + 100, py + r.randint(0, wobble) + 100) for px, py in base]
    z = [r.randint(0, 6) for _ in base]
    lean = [r.randint(-1, 2) for _ in base]
    pts = []
    for k in range(nk):
        for b in (0, 1):
            if k == 0 and b == 0:
                pass
            elif b == 0:
                if not gap[k - 1]:
                    continue
                z = [v + r.randint(0, 4) if r.random() < 0.8 else v for v in z]
                if all(v == pts[-1][p][2] for p, v in enumerate(z)):
                    z[0] += 2
            else:
                z = [v + (r.choice([0, 3]) if r.random() < flat / 3 else r.randint(1, 6)) for v in z]
            n = len(pts)
            pts.append([[px + shear * n + lean[p] * n, py, z[p]] for p, (px, py) in enumerate(base)])
    pil = [[j * (ni + 1) + i, j * (ni + 1) + i + 1, (j + 1) * (ni + 1) + i, (j + 1) * (ni + 1) + i + 1] for j in range(nj) for i in range(ni)]
    spl = []     # primary pillar, columns
    if like is not None:
        for p, cols in like['spl']:
            spl.append((p, cols))
    elif split and nj * ni > 1 and r.random() < 0.5:
        for p in range(len(base)):
            pj, pi = divmod(p, ni + 1)
            cols = [j * ni + i for j in (pj - 1, pj) for i in (pi - 1, pi) if 0 <= j < nj and 0 <= i < ni]
            if len(cols) > 1 and r.random() < 0.6:
                r.shuffle(cols)
                own = cols[1:]
                while own and r.random() < 0.7:
                    n = r.randint(1, len(own))
                    spl.append((p, sorted(own[:n])))
                    own = own[n:]
    for n, (p, cols) in enumerate(spl):
        dx, dz = r.choice([0, 0, 1]), r.choice([-5, -2, 1, 3, 6, 9])
        for pl in pts:
            pl.append([pl[p][0] + dx, pl[p][1], pl[p][2] + dz])
        for c in cols:
            pil[c][pil[c].index(p)] = len(base) + n
    ncell = nk * nj * ni
    deaf = undef and not spl and r.random() < 0.25
    dead_pil = set(p for p in range(len(base)) if deaf and r.random() < 0.15)
    deft = []
    for c in range(ncell):
        col = c % (nj * ni)
        deft.append(not any(p in dead_pil for p in pil[col]) and not (deaf and r.random() < 0.15))
    dead = r.random() < 0.6
    ina = [bool(dead and r.random() < 0.3) for _ in range(ncell)]
    return {'x': x, 'pts': pts, 'pil': pil, 'gap': gap, 'def': deft, 'ina': ina, 'spl': spl, 'dead_pil': sorted(dead_pil), 'has_ina': dead, 'deaf': deaf}


def build(m, crs, d, title, right = True, lines = False):
    nk, nj, ni = d['x']
    g = grr.Grid(m)
    g.grid_representation = 'IjkGrid'
    g.extent_kji = np.array(d['x'], dtype = int)
    g.nk, g.nj, g.ni = d['x']
    g.k_direction_is_down, g.grid_is_right_handed, g.pillar_shape = True, right, 'curved'
    g.crs_uuid, g.crs = crs.uuid, crs
    if any(d['gap']):
        g.k_gaps = sum(d['gap'])
        g.k_gap_after_array = np.array(d['gap'], dtype = bool)
        g._set_k_raw_index_array()
    else:
        g.k_gaps = None
    p = np.array(d['pts'], dtype = float)
    for q in d['dead_pil']:
        p[:, q] = np.nan
    n = (nj + 1) * (ni + 1)
    g.has_split_coordinate_lines = bool(d['spl'])
    if d['spl']:
        g.split_pillar_indices_cached = np.array([q for q, _ in d['spl']], dtype = int)
        g.cols_for_split_pillars = np.array([c for _, cs in d['spl'] for c in cs], dtype = int)
        g.cols_for_split_pillars_cl = np.cumsum([len(cs) for _, cs in d['spl']])
        g.split_pillars_count = len(d['spl'])
        g.points_cached = p
    else:
        g.split_pillars_count = None
        g.points_cached = p.reshape((len(p), nj + 1, ni + 1, 3))
    g.geometry_defined_for_all_cells_cached = all(d['def'])
    g.array_cell_geometry_is_defined = np.array(d['def'], dtype = bool).reshape(d['x'])
    g.geometry_defined_for_all_pillars_cached = not d['dead_pil']
    if d['dead_pil']:
        q = np.ones(n, dtype = bool)
        q[d['dead_pil']] = False
        g.array_pillar_geometry_is_defined = q.reshape((nj + 1, ni + 1))
    g.inactive = np.array(d['ina'], dtype = bool).reshape(d['x']) if d['has_ina'] else None
    g.write_hdf5(use_parametric_lines = lines)
    g.create_xml(title = title, use_parametric_lines = lines)
    return g


def see(m, uuid, den, names):
    """A grid as it is in the package."""
    g = grr.Grid(m, uuid = uuid, find_properties = True)
    deft = g.cell_geometry_is_defined_ref()
    deft = np.ones(g.extent_kji, dtype = bool) if deft is None else np.array(deft, dtype = bool)
    cp = whole(np.nan_to_num(g.corner_points(), nan = -77777.0), den)
    ina = g.extract_inactive_mask()
    x = ints(g.extent_kji)
    gap = [bool(b) for b in g.k_gap_after_array] if g.k_gaps else [False] * (x[0] - 1)
    g.extract_parent()
    w = g.parent_window
    pw = {'p': 0, 'fine': True, 'lo': [], 'hi': [], 'r': []}
    if w is not None:
        b = w.within_coarse_box if g.is_refinement else w.within_fine_box
        other = w.within_fine_box if g.is_refinement else w.within_coarse_box
        pw = {'p': names.get(str(g.parent_grid_uuid), -1) if other is None else -2, 'fine': bool(g.is_refinement), 'lo': ints(b[0]), 'hi': ints(b[1]),
              'r': [[int(w.ratio(a, c)) for c in range(w.coarse_extent_kji[a])] for a in range(3)]}
    crs = m.uuids(obj_type = 'LocalDepth3dCrs')
    ok = len(crs) == 1 and str(crs[0]) == str(g.crs_uuid) and g.grid_is_right_handed and g.k_direction_is_down and x == [g.nk, g.nj, g.ni]
    flat = deft.flatten()
    return {'x': x, 'cp': [[ints(p) for p in c.reshape((8, 3))] if flat[n] else [] for n, c in enumerate(cp.reshape((-1, 8, 3)))], 'gap': gap, 'def': [bool(b) for b in flat],
            'ina': [bool(b) for b in np.array(ina, dtype = bool).flatten()], 'pw': pw, 'ok': bool(ok)}


def driver(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('a.epc')
    crs = rqc.Crs(m, z_inc_down = True)
    crs.create_xml()
    G = []              # per grid: uuid, extent, den, faulted, gaps, whole, title
    names = {}
    props = {}          # zone properties: grid -> (uuid, title, values)

    def add(e, fn):
        ev.append(e)
        k, y = call(fn)
        e['res'] = {'k': k, 'what': y if k == 'exc' else ''}
        e.setdefault('obs', [])
        return k == 'ok'

    def put(uuid, x, den, faulted, gap, wh, d = None, window = 0):
        names[str(uuid)] = len(G) + 1
        G.append({'uuid': uuid, 'x': ints(x), 'den': den, 'spl': faulted, 'gap': gap, 'whole': wh, 'd': d, 'win': window})

    def make(like = None):
        x = [r.choice([1, 2, 3, 4]), r.choice([1, 2, 3]), r.choice([1, 2, 2])]
        if like is not None:
            x = list(like['x'])
        d = pillared(r, x, like = like if like is not None and r.random() < 0.7 else None, undef = like is None)
        e = {'op': 'make', 'x': x, 'pts': d['pts'], 'pil': d['pil'], 'gap': d['gap'], 'def': d['def'], 'ina': d['ina']}

        def fn():
            mm = rq.Model('a.epc') if G else m
            g = build(mm, crs if mm is m else rqc.Crs(mm, uuid = crs.uuid), d, 'grid %d' % (len(G) + 1))
            if r.random() < 0.7:
                zone(mm, g)
            mm.store_epc()
            mm.h5_release()
            put(g.uuid, x, 1, bool(d['spl']), any(d['gap']), all(d['def']), d)
            mm = rq.Model('a.epc')
            e['obs'] = see(mm, g.uuid, 1, names)
            mm.h5_release()
        return add(e, fn)

    def zone(mm, g):
        nk, nj, ni = ints(g.extent_kji)
        z, q = r.randint(20, 25), []
        for k in range(nk):
            if k and r.random() < 0.5:
                z = r.randint(0, 9) if r.random() < 0.2 else z + r.choice([1, -1, 2])
            q += [z] * (nj * ni)
        if r.random() < 0.3:
            for c in range(len(q)):
                if r.random() < 0.2:
                    q[c] += r.choice([1, 2])
        p = rqp.Property.from_array(mm, np.array(q, dtype = int).reshape((nk, nj, ni)), 'src', 'zq', g.uuid, property_kind = 'zone', discrete = True, null_value = -1)
        props[len(G) + 1] = (p.uuid, 'zq', q)

    def src(mm, i):
        """The grid, as given to a function."""
        if len(G) == 1 and r.random() < 0.25:
            return None
        return grr.Grid(mm, uuid = G[i - 1]['uuid'], find_properties = True)

    def derive(e, fn, den, x, faulted, gap, wh, window = 0):
        """fn(source_model, keyword arguments) returns the new grid."""
        away = e['away'] = r.random() < 0.1
        f = 'b%d.epc' % len(ev) if away else None

        def go():
            mm = rq.Model('a.epc')
            g = fn(mm, dict(new_epc_file = f) if away else {})
            uuid = g.uuid
            g.model.h5_release()
            mm.h5_release()
            if not away:
                put(uuid, x, den, faulted, gap, wh, None, window)
            m2 = rq.Model(f or 'a.epc')
            e['obs'] = see(m2, uuid, den, names)
            if not away:
                G[-1]['spl'] = bool(grr.Grid(m2, uuid = uuid).has_split_coordinate_lines)
            m2.h5_release()
        return add(e, go)

    def weights(x, total):
        out = []
        for n in x:
            same = r.random() < 0.4
            c0 = r.randint(1, min(3, total))
            w = []
            for _ in range(n):
                c = c0 if same else r.randint(1, min(3, total))
                cut = sorted(r.sample(range(1, total), c - 1))
                if r.random() < 0.5 and total % c == 0:
                    cut = [total // c * k for k in range(1, c)]
                w.append([b - a for a, b in zip([0] + cut, cut + [total])])
            out.append(w)
        return out

    make()
    steps = r.choice([2, 3, 4])
    if r.random() < 0.25 and G and not make(G[0]['d']):
        return
    pair = len(G) > 1
    while len(ev) < steps + 1 + pair:
        i = r.randint(1, len(G))
        g = G[i - 1]
        x, den = g['x'], g['den']
        small = den < 40
        y = r.random() if not pair or r.random() < 0.6 else 0.9
        title = None if r.random() < 0.5 else 'tt'
        if not G:
            return
        if y < 0.2:
            lo = [r.randint(0, n - 1) for n in x]
            hi = [r.randint(l, n - 1) for l, n in zip(lo, x)]
            if r.random() < 0.06:
                a = r.randint(0, 2)
                lo[a], hi[a] = r.choice([(1, 0), (-1, hi[a]), (0, x[a])])
            bx = [h - l + 1 for l, h in zip(lo, hi)]
            more = [r.random() < 0.3 for _ in range(max(0, bx[0] * bx[1] * bx[2]))] if r.random() < 0.4 and min(bx) > 0 else []
            e = {'op': 'box', 'g': i, 'lo': lo, 'hi': hi, 'more': more, 'parent': r.choice(['none', 'parent', 'parent'])}

            def fn(mm, k):
                bi = np.array(more, dtype = bool).reshape(bx) if more else None
                keep = None if bi is None else bi.copy()
                b = np.array([lo, hi])
                if e['parent'] == 'none' or k or r.random() < 0.5:
                    k['set_parent_window'] = e['parent'] != 'none'
                o = rqdm.extract_box('a.epc', src(mm, i), box = b, box_inactive = bi, new_grid_title = title, **k)
                if b.tolist() != [lo, hi] or (bi is not None and not np.all(bi == keep)):
                    raise ValueError('arguments changed')
                return o
            derive(e, fn, den, bx, g['spl'], g['gap'], g['whole'], 2 if e['parent'] != 'none' else 0)
        elif y < 0.4:
            if not small or not g['whole']:
                continue
            T = r.choice([1, 2, 3, 4, 6] if den == 1 else [1, 2, 3])
            w = weights(x, T)
            if r.random() < 0.04:
                w[r.randint(0, 2)].append([T])
            e = {'op': 'refine', 'g': i, 'w': w, 'T': T, 'parent': r.choice(['none', 'parent', 'parent', 'grandparent'])}
            fx = [sum(len(c) for c in a) for a in w]
            if fx[0] * fx[1] * fx[2] > 60 and r.random() < 0.8:
                continue

            def fn(mm, k):
                f = fc.FineCoarse(tuple(fx), tuple(len(a) for a in w), within_coarse_box = np.array([(0, 0, 0), [n - 1 for n in x]]) if r.random() < 0.2 else None)
                for a in range(3):
                    f.set_ratio_vector(a, np.array([len(c) for c in w[a]]))
                    f.set_proportions_list_of_vectors(a, [np.array(c) for c in w[a]])
                if e['parent'] != 'parent' or k or r.random() < 0.5:
                    k['set_parent_window'] = False if e['parent'] == 'none' else e['parent'] if r.random() < 0.5 or e['parent'] == 'grandparent' else True
                s = src(mm, i)
                if s is None and r.random() < 0.5:
                    k['source_grid_uuid'] = g['uuid']
                if s is not None and g['win'] and e['parent'] == 'grandparent':
                    s.extract_parent()
                return rqdm.refined_grid('a.epc', s, f, new_grid_title = title, **k)
            derive(e, fn, den * T**3, fx, g['spl'], g['gap'], True, 1)
        elif y < 0.55:
            if not g['whole']:
                continue
            w = []
            for n in x:
                v = []
                while sum(v) < n:
                    v.append(r.randint(1, min(3, n - sum(v))))
                w.append(v)
            if r.random() < 0.04:
                w[r.randint(0, 2)].append(1)
            e = {'op': 'coarsen', 'g': i, 'w': w, 'parent': r.choice(['none', 'parent', 'parent', 'grandparent']), 'faulted': g['spl']}

            def fn(mm, k):
                f = fc.FineCoarse(tuple(sum(v) for v in w), tuple(len(v) for v in w), within_fine_box = np.array([(0, 0, 0), [n - 1 for n in x]]) if r.random() < 0.2 else None)
                for a in range(3):
                    f.set_ratio_vector(a, np.array(w[a]))
                f.set_all_proportions_equal()
                if e['parent'] != 'parent' or k or r.random() < 0.5:
                    k['set_parent_window'] = False if e['parent'] == 'none' else e['parent'] if r.random() < 0.5 or e['parent'] == 'grandparent' else True
                s = src(mm, i)
                if s is not None and g['win'] and e['parent'] == 'grandparent':
                    s.extract_parent()
                return rqdm.coarsened_grid('a.epc', s, f, new_grid_title = title, **k)
            derive(e, fn, den, [len(v) for v in w], False, False, True, 1)
        elif y < 0.72:
            if not g['whole']:
                continue
            z = r.random() if i not in props or r.random() < 0.5 else 0
            lax = r.random() < 0.5
            if z < 0.45 and i in props:
                e = {'op': 'zones', 'g': i, 'q': props[i][2], 'lo': 0, 'hi': x[0] - 1, 'dom': r.random() < 0.4, 'lax': lax}
                if r.random() < 0.3:
                    e['lo'] = r.randint(0, x[0] - 1)
                    e['hi'] = r.randint(e['lo'], x[0] - 1)
                k0 = dict(k0_min = e['lo'], k0_max = e['hi'], use_dominant_zone = e['dom'], **(dict(zone_title = 'zq') if r.random() < 0.5 else dict(zone_uuid = props[i][0])))
            elif z < 0.75:
                e = {'op': 'listed', 'g': i, 'lax': lax}
                cut = sorted(r.sample(range(x[0] + 1), r.randint(2, min(4, x[0] + 1))))
                e['z'] = [[a, b - 1] for a, b in zip(cut, cut[1:])]
                k0 = dict(zone_layer_range_list = [(a, b, r.randint(0, 9)) for a, b in e['z']])
            else:
                e = {'op': 'single', 'g': i, 'lo': 0, 'hi': x[0] - 1, 'lax': lax}
                k0 = {}
                if r.random() < 0.6:
                    e['lo'] = r.randint(0, x[0] - 1)
                    e['hi'] = r.randint(e['lo'], x[0] - 1)
                    if r.random() < 0.08:
                        e['lo'], e['hi'] = r.choice([(-1, 0), (0, x[0]), (1, 0)])
                    k0 = dict(k0_min = e['lo'], k0_max = e['hi'])

            def fn(mm, k):
                f = rqdm.single_layer_grid if e['op'] == 'single' and r.random() < 0.7 else rqdm.zonal_grid
                if not lax or r.random() < 0.5:
                    k['inactive_laissez_faire'] = lax
                return f('a.epc', source_grid = src(mm, i), new_grid_title = title, **k0, **k)
            # the extent of the result is only needed for later steps
            if e['op'] == 'zones':
                n0 = len(G)
                if derive(e, fn, den, x, g['spl'], False, True) and len(G) > n0:
                    G[-1]['x'] = e['obs']['x']
            else:
                derive(e, fn, den, [len(e['z']) if e['op'] == 'listed' else 1] + x[1:], g['spl'], False, True)
        elif y < 0.78:
            e = {'op': 'copy', 'g': i, 'away': False}

            def go():
                mm = rq.Model('a.epc')
                away = r.random() < 0.3
                e['away'] = away
                if away:
                    mt = rq.new_model('b%d.epc' % len(ev))
                    if r.random() < 0.5:
                        mt.copy_uuid_from_other_model(mm, crs.uuid)
                        o = rqdm.copy_grid(grr.Grid(mm, uuid = g['uuid']), mt, copy_crs = False)
                        o.crs = rqc.Crs(mt, uuid = crs.uuid)
                    else:
                        o = rqdm.copy_grid(grr.Grid(mm, uuid = g['uuid']), mt)
                else:
                    mt = mm
                    o = rqdm.copy_grid(grr.Grid(mm, uuid = g['uuid']), mm if r.random() < 0.5 else None)
                o.write_hdf5()
                o.create_xml(title = 'copy')
                mt.store_epc()
                mt.h5_release()
                mm.h5_release()
                if not away:
                    put(o.uuid, x, den, g['spl'], g['gap'], g['whole'])
                m2 = rq.Model(mt.epc_file)
                e['obs'] = see(m2, o.uuid, den, names)
                m2.h5_release()
            add(e, go)
        elif y < 0.85:
            if not g['whole'] or not small or (not g['spl'] and r.random() < 0.9):
                continue
            e = {'op': 'unsplit', 'g': i, 'faulted': g['spl']}
            derive(e, lambda mm, k: rqdm.unsplit_grid('a.epc', src(mm, i), new_grid_title = title, **k), den * 4, x, False, g['gap'], True)
        elif y < 0.93:
            if not g['d'] or not g['whole']:
                continue
            same = [n for n, h in enumerate(G, 1) if h['whole'] and h['x'] == x and h['den'] < 40 and n != i]
            if not same or r.random() < 0.3:
                if len(G) < 4:
                    if not make(g['d']):
                        return
                continue
            b = r.choice(same)
            h = G[b - 1]
            if (h['gap'] or g['gap']) and not (h['gap'] and g['gap'] and h['d'] and h['d']['gap'] == g['d']['gap'] and h['d']['spl'] == g['d']['spl']):
                continue        # gaps are closed unless the grids have the same structure
            d = r.choice([1, 2, 4, 5, 8])
            e = {'op': 'between', 'a': i, 'b': b, 'n': r.randint(0, d), 'd': d}
            if r.random() < 0.05:
                e['n'] = r.choice([-1, d + 1])

            def fn(mm, k):
                if e['d'] != 2 * e['n'] or r.random() < 0.5:
                    k['a_to_b_0_to_1'] = e['n'] / d
                return rqdm.interpolated_grid('a.epc', grr.Grid(mm, uuid = g['uuid']), grr.Grid(mm, uuid = G[b - 1]['uuid']), new_grid_title = title, **k)
            derive(e, fn, d * den * G[b - 1]['den'], x, g['spl'] or G[b - 1]['spl'], g['gap'], True)
        elif y < 0.97 and i in props:
            bl = r.random() < 0.5
            e = {'op': 'bylayer' if bl else 'ranges', 'g': i, 'q': props[i][2], 'lo': 0, 'hi': x[0] - 1, 'dom': r.random() < 0.4, 'null': r.choice([-1, 99])}
            if not bl and r.random() < 0.4:
                e['lo'] = r.randint(0, x[0] - 1)
                e['hi'] = r.randint(e['lo'], x[0] - 1)

            def go():
                mm = rq.Model('a.epc')
                if bl:
                    # every cell counts, active or not
                    mm.h5_release()
                    v, u = rqdm.add_zone_by_layer_property('a.epc', grid_uuid = g['uuid'], zone_by_cell_property_uuid = props[i][0], use_dominant_zone = e['dom'], null_value = e['null'])
                    mm = rq.Model('a.epc')
                    p = rqp.Property(mm, uuid = u)
                    e['obs'] = {'v': ints(v), 'stored': ints(p.array_ref().flatten()), 'of': names.get(str(p.collection.support_uuid), -1), 'el': p.indexable_element()}
                    mm.h5_release()
                    return
                gg = grr.Grid(mm, uuid = g['uuid'], find_properties = True)
                gg.extract_inactive_mask()
                a = gg.property_collection.cached_part_array_ref(mm.part(uuid = props[i][0]), masked = True)
                k = {} if (e['lo'], e['hi']) == (0, x[0] - 1) and r.random() < 0.5 else dict(min_k0 = e['lo'], max_k0 = e['hi'])
                e['obs'] = [ints(q) for q in rqdm.zone_layer_ranges_from_array(a, use_dominant_zone = e['dom'], **k)]
                mm.h5_release()
            add(e, go)
        else:
            e = {'op': 'look', 'g': i}

            def go():
                mm = rq.Model('a.epc')
                e['obs'] = see(mm, g['uuid'], den, names)
                mm.h5_release()
            add(e, go)


PARTS = {'geometry': (driver, 'DerivedTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCDerived', 'MCDerived.cfg' if quick else 'MCDerived_thorough.cfg')
    base = vlib.seed() * 1000003
    c.conform('geometry', driver, [{'seed': base + i} for i in range(1200 if quick else 20000)], 'DerivedTrace')
