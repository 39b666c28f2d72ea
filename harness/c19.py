"""C19: datums, deviation surveys, trajectories, frames and markers of wells."""
import vlib
from rqutil import *
import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.well as rqw
import resqpy.organize as rqo
import lasio
import math
import os
import random
import pandas as pd

STEPS = [(3, 4), (-4, 3), (0, 5), (5, 0), (0, 0), (-5, 0), (8, -6), (0, -2), (1, 0), (0, 0), (-3, -4)]
TYPES = ['fault', 'geobody', 'horizon', 'gas down to', 'oil up to', 'water up to', 'free water contact', 'gas oil contact', 'seal', 'Horizon', 'FAULT']
REFS = ['kelly bushing', 'mean sea level', 'ground level', 'rotary table', 'arbitrary point']


def ints(x, den = 1):
    """Numbers as whole ones of the given fraction."""
    o = np.rint(np.asarray(x, dtype = float) * den)
    assert np.all(np.isfinite(o)), 'not a number'
    return o.astype(int).tolist()


def exact(x, den = 1):
    x = np.asarray(x, dtype = float) * den
    o = np.rint(x)
    return np.where(np.abs(x - o) < 1e-6 * den, o, -99999999).astype(int).tolist()


def some_mds(r, n, start = None):
    md = [r.choice([0, 0, 1, 3, 8, 20]) if start is None else start]
    while len(md) < n:
        md.append(md[-1] + r.choice([1, 2, 3, 4, 5, 7, 8, 10, 16, 25]))
    return md


def some_points(r, n, loc):
    p = [tuple(loc)]
    while len(p) < n:
        a, b = r.choice(STEPS)
        p.append((p[-1][0] + a, p[-1][1] + b, p[-1][2] + r.choice([0, 1, 2, 4, 5, 10, -3])))
        if p[-1] == p[-2]:
            p[-1] = (p[-1][0], p[-1][1], p[-1][2] + 4)
    return [list(x) for x in p]


def plain(a1, i1, a2, i2):
    """Two stations whose directions are not (nearly) opposite."""
    c = lambda x: math.cos(math.radians(x))
    return c(i1) * c(i2) + c(90 - i1) * c(90 - i2) * c(a1 - a2) > -0.88


def some_angles(r, n):
    az, inc = [r.choice([0, 30, 60, 90, 180, 210, 270, 330])], [r.choice([0, 0, 30, 60, 90])]
    while len(az) < n:
        a = r.choice([az[-1], az[-1], az[-1] + 360, az[-1] - 360, az[-1] + 180, 30 * r.randint(-2, 14)])
        i = r.choice([inc[-1], inc[-1], 0, 30, 60, 90, 90, 120, 150, 180])
        if plain(az[-1], inc[-1], a, i):
            az.append(a)
            inc.append(i)
    return az, inc


def wells(params, tr):
    r = random.Random(params['seed'])
    ev = tr['events']
    m = new_model('w.epc')
    ids, objs, facts = {}, {}, {}
    kinds = {'crs': [], 'datum': [], 'survey': [], 'traj': [], 'frame': [], 'markers': [], 'interp': []}
    classes = {'crs': rqc.Crs, 'datum': rqw.MdDatum, 'survey': rqw.DeviationSurvey, 'traj': rqw.Trajectory, 'frame': rqw.WellboreFrame, 'markers': rqw.WellboreMarkerFrame,
               'interp': rqo.WellboreInterpretation}
    serial = [0]

    def add(e, fn):
        e.setdefault('obs', 0)
        k, v = vlib.call(fn)
        e['res'] = {'k': 'ok' if k == 'ok' else v}
        if e['obs'] == 0 and k == 'ok' and v is not None and e['op'].startswith(('seen', 'at', 'same', 'tilt', 'interval', 'find', 'pick')):
            e['obs'] = v
        ev.append(e)
        return k == 'ok'

    def new_id(kind):
        serial[0] += 1
        return f'{kind[0]}{serial[0]}'

    def keep(kind, n, x, **facts_of):
        ids[str(x.uuid)] = n
        objs[n] = x
        kinds[kind].append(n)
        facts[n] = facts_of

    def name_of(x, fallback = '?'):
        """Name by which the checks know an object of the model."""
        if x is None:
            return ''
        u = str(getattr(x, 'uuid', x))
        return ids.get(u, fallback)

    def interp_of(x):
        """Interpretation of an object: its name, or its title when made along with the object."""
        i = x.wellbore_interpretation
        return '' if i is None else ids.get(str(i.uuid), 't:' + str(i.title))

    def get(n):
        """Object in memory, or loaded again."""
        if r.random() < 0.6 and objs.get(n) is not None:
            return objs[n]
        kind = next(k for k in kinds if n in kinds[k])
        u = next(u for u, x in ids.items() if x == n)
        x = classes[kind](m, uuid = u)
        objs[n] = x
        return x

    def some(kind):
        return r.choice(kinds[kind])

    def new_crs():
        n = new_id('crs')
        xy = r.choice(['m', 'm', 'ft'])
        z = xy if r.random() < 0.8 else ('ft' if xy == 'm' else 'm')
        down = r.random() < 0.7
        e = {'op': 'crs', 'id': n, 'down': down, 'xy': xy, 'z': z}

        def fn():
            c = rqc.Crs(m, z_inc_down = down, xy_units = xy, z_units = z, title = n)
            c.create_xml(reuse = False)
            keep('crs', n, c, down = down, xy = xy, z = z)
        return add(e, fn)

    def new_datum():
        n = new_id('datum')
        crs = some('crs')
        loc = [r.choice([0, 8, 100, 400001]), r.choice([0, 16, -40, 1600003]), r.choice([0, 0, -16, 24])]
        ref = r.choice(REFS)
        e = {'op': 'datum', 'id': n, 'crs': crs, 'loc': loc, 'ref': ref}

        def fn():
            d = rqw.MdDatum(m, crs_uuid = get(crs).uuid, location = tuple(float(x) for x in loc), md_reference = ref, title = n)
            d.create_xml()
            keep('datum', n, d, crs = crs, loc = loc, ref = ref)
        return add(e, fn)

    def new_interp():
        n = new_id('interp')
        e = {'op': 'interp', 'id': n}

        def fn():
            f = rqo.WellboreFeature(m, feature_name = n)
            f.create_xml()
            i = rqo.WellboreInterpretation(m, wellbore_feature = f, is_drilled = False, title = n)
            i.create_xml()
            keep('interp', n, i)
        return add(e, fn)

    def maybe_interp():
        return some('interp') if kinds['interp'] and r.random() < 0.5 else ''

    def new_survey():
        n = new_id('survey')
        k = r.choice([2, 3, 3, 4, 5])
        d = some('datum')
        az, inc = some_angles(r, k)
        md = some_mds(r, k)
        first = list(facts[d]['loc'])
        way = r.choice(['arrays', 'frame', 'csv', 'space'])
        e = {'op': 'survey', 'id': n, 'datum': d, 'md': md, 'az': az, 'inc': inc, 'uom': r.choice(['m', 'ft']), 'first': first, 'final': way != 'arrays' or r.random() < 0.5,
             'interp': maybe_interp(), 'title': r.choice([n, 'well ' + n])}
        rad = r.random() < 0.4
        own_cols = r.random() < 0.4

        def fn():
            f = math.radians if rad else float
            aa, ii = [f(x) for x in az], [f(x) for x in inc]
            kw = dict(md_datum = get(d), md_uom = e['uom'], angle_uom = 'rad' if rad else 'dega', title = e['title'],
                      represented_interp = get(e['interp']) if e['interp'] else None)
            if way == 'arrays':
                s = rqw.DeviationSurvey(m, measured_depths = [float(x) for x in md], azimuths = aa, inclinations = ii, first_station = tuple(float(x) for x in first),
                                        is_final = e['final'], **kw)
            else:
                names = ['DEPTH', 'AZ', 'DEV', 'EAST', 'NORTH', 'TVD'] if own_cols else ['MD', 'AZIM_GN', 'INCL', 'X', 'Y', 'Z']
                df = pd.DataFrame(dict(zip(names, [md, aa, ii] + [[first[j]] + [first[j] + 7] * (k - 1) for j in range(3)])))
                if own_cols:
                    kw.update(zip(['md_col', 'azimuth_col', 'inclination_col', 'x_col', 'y_col', 'z_col'], names))
                if way == 'frame':
                    s = rqw.DeviationSurvey.from_data_frame(m, df, **kw)
                else:
                    with open('s.txt', 'w') as fp:
                        if r.random() < 0.6:
                            fp.write('# a survey\n')
                        df.to_csv(fp, sep = ' ' if way == 'space' else ',', index = False)
                    s = rqw.DeviationSurvey.from_ascii_file(m, 's.txt', space_separated_instead_of_csv = way == 'space', **kw)
            s.write_hdf5()
            s.create_xml()
            keep('survey', n, s, md = md, az = az, inc = inc, first = first, datum = d, title = e['title'])
        return add(e, fn)

    def register_traj(n, t, e, given, **kw):
        t.write_hdf5()
        t.create_xml()
        keep('traj', n, t, md = e['md'], given = given, **kw)
        if str(t.md_datum.uuid) not in ids:
            ids[str(t.md_datum.uuid)] = 'own'

    def fly():
        n = new_id('traj')
        s = some('survey')
        f = facts[s]
        title = r.choice(['', n])
        tang = r.random() < 0.3
        interp = maybe_interp()
        e = {'op': 'fly', 'id': n, 'survey': s, 'title': title, 'tang': tang, 'domain': r.choice(['', 'driller', 'logger']), 'interp': interp,
             'obs': {'hops': [], 'pts': []}}
        own = not interp and r.random() < 0.4
        if own:
            e['interp'] = 't:' + (title or f['title'])

        def fn():
            t = rqw.Trajectory(m, deviation_survey = get(s), well_name = title or None, set_tangent_vectors = tang, md_domain = e['domain'] or None,
                               represented_interp = get(interp) if interp else None)
            if own:
                t.create_feature_and_interpretation()
            g = {'md': f['md']}
            register_traj(n, t, g, False, uom = None, pts = None, dloc = facts[f['datum']]['loc'], crs = facts[f['datum']]['crs'])
            d = (t.control_points[1:] - t.control_points[:-1]) / (np.array(f['md'][1:]) - np.array(f['md'][:-1]))[:, np.newaxis]
            e['obs'] = {'hops': ints(d, 10000), 'pts': ints(t.control_points, 1000)}
        return add(e, fn)

    def new_traj():
        n = new_id('traj')
        k = r.choice([2, 2, 3, 4, 5, 6])
        d = some('datum') if r.random() < 0.75 else ''
        crs = facts[d]['crs'] if d else some('crs')
        md = some_mds(r, k)
        loc = facts[d]['loc'] if d else [r.choice([0, 4, 30, 500009]), 0, r.choice([0, 10])]
        if not d and md[0] > 0 and r.random() < 0.5:
            md = some_mds(r, k, 0)
        first = loc if md[0] == 0 or not d else [loc[0] + r.choice([0, 4]), loc[1] + r.choice([0, -8]), loc[2] + 8]
        pts = some_points(r, k, first)
        way = r.choice(['arrays', 'lists', 'frame', 'csv', 'space', 'wells'])
        interp = maybe_interp()
        tang = r.random() < 0.3
        e = {'op': 'traj', 'id': n, 'md': md, 'pts': pts, 'datum': d, 'crs': crs, 'uom': r.choice(['m', 'ft']), 'domain': r.choice(['', 'driller', 'logger']),
             'interp': interp, 'title': n, 'tang': tang}
        own = not interp and r.random() < 0.4
        if own:
            e['interp'] = 't:' + n

        def fn():
            kw = dict(crs_uuid = get(crs).uuid, md_datum = get(d) if d else None, length_uom = e['uom'], md_domain = e['domain'] or None, well_name = n,
                      set_tangent_vectors = tang, represented_interp = get(interp) if interp else None)
            a = np.array(pts, dtype = float)
            df = pd.DataFrame({'MD': md, 'X': a[:, 0], 'Y': a[:, 1], 'Z': a[:, 2]})
            if way == 'arrays':
                b, c = np.array(md, dtype = float), a.copy()
                t = rqw.Trajectory(m, mds = b, control_points = c, **kw)
                b[:] = -5.0  # the trajectory holds its own copy
                c[:] = 77.0
            elif way == 'lists':
                t = rqw.Trajectory(m, mds = md, control_points = pts, **kw)
            elif way == 'frame':
                t = rqw.Trajectory(m, data_frame = df, **kw)
            else:
                if way == 'wells':
                    other = df + 1
                    df['WELLNAME'], other['WELLNAME'] = n, n + 'x'
                    df = pd.concat([other, df] if r.random() < 0.5 else [df, other])
                with open('t.txt', 'w') as fp:
                    if r.random() < 0.6:
                        fp.write('# points\n')
                    df.to_csv(fp, sep = ' ' if way == 'space' else ',', index = False)
                t = rqw.Trajectory(m, ascii_trajectory_file = 't.txt', survey_file_space_separated = way == 'space', **kw)
            if own:
                t.create_feature_and_interpretation()
            register_traj(n, t, e, True, uom = e['uom'], pts = pts, dloc = loc, crs = crs)
        return add(e, fn)

    def see_traj(n, extra = None):
        e = {'op': 'seen_traj', 'id': n}

        def fn():
            t = get(n)
            if r.random() < 0.25:
                space = r.random() < 0.5
                t.write_to_ascii_file('o.txt', space_separated_instead_of_csv = space, md_col = 'DEPTH')
                df = pd.read_csv('o.txt', sep = ' ' if space else ',')
                md, p = df['DEPTH'].values, df[['X', 'Y', 'Z']].values
            elif r.random() < 0.4:
                df = t.dataframe()
                md, p = df['MD'].values, df[['X', 'Y', 'Z']].values
                q = t.dataframe(md_col = None)
                assert list(q.columns) == ['X', 'Y', 'Z'] and np.array_equal(q.values, p)
            else:
                md, p = t.measured_depths, t.control_points
            return {'md': exact(md), 'pts': ints(p, 1000), 'uom': t.md_uom, 'domain': t.md_domain or '', 'n': int(t.knot_count), 'start': exact(t.start_md), 'finish': exact(t.finish_md),
                    'dloc': exact(t.md_datum.location, 1000), 'dref': t.md_datum.md_reference, 'datum': name_of(t.md_datum), 'crs': name_of(t.crs_uuid),
                    'interp': interp_of(t), 'survey': name_of(t.deviation_survey), 'title': t.title, 'tang': t.tangent_vectors is not None,
                    'frames': sorted(name_of(f) for f in t.iter_wellbore_frames())}
        return add(e, fn)

    def new_frame():
        n = new_id('frame')
        t = some('traj')
        f = facts[t]
        top = f['md'][-1]
        md = sorted(r.sample(range(top + 3), r.randint(2, min(6, top + 2))))
        interp = maybe_interp()
        e = {'op': 'frame', 'id': n, 'traj': t, 'md': md, 'interp': interp, 'title': n}
        own = not interp and r.random() < 0.4
        if own:
            e['interp'] = 't:' + n

        def fn():
            b = np.array(md, dtype = float)
            w = rqw.WellboreFrame(m, trajectory = get(t), mds = b, represented_interp = get(interp) if interp else None, title = n)
            if own:
                w.create_feature_and_interpretation()
            w.write_hdf5()
            w.create_xml()
            keep('frame', n, w, md = md)
        return add(e, fn)

    def new_markers():
        n = new_id('markers')
        t = some('traj')
        top = facts[t]['md'][-1]
        k = r.randint(1, 5)
        col = r.random() < 0.85
        rows = []
        for i in range(k):
            ty = r.choice(TYPES)
            rows.append({'md': r.randint(0, top), 'type': ty.lower(), 'title': r.choice(['pick ', 'm']) + str(i), 'interp': r.choice(['h1', 'h2', 'gg'])})
            rows[-1]['as'] = ty
            if i and r.random() < 0.35:  # a surface met again
                rows[-1].update({q: rows[0][q] for q in ('type', 'interp', 'as')})
        own = r.random() < 0.4
        e = {'op': 'markers', 'id': n, 'traj': t, 'rows': [{k: v for k, v in x.items() if k != 'as'} for x in rows], 'col': col, 'title': n}

        def fn():
            names = ['DEPTH', 'KIND', 'PICK', 'SURF'] if own else ['MD', 'Boundary_Feature_Type', 'Marker_Citation_Title', 'Interp_Citation_Title']
            df = pd.DataFrame({names[0]: [float(x['md']) for x in rows], names[1]: [x['as'] for x in rows], names[2]: [x['title'] for x in rows]})
            if col:
                df[names[3]] = [x['interp'] if x['type'] in ('fault', 'geobody', 'horizon') else None for x in rows]
            if r.random() < 0.4:
                df.index = [10 * i + 3 for i in range(k)]
            kw = dict(zip(['md_col', 'boundary_feature_type_col', 'marker_citation_title_col', 'interp_citation_title_col'], names)) if own else {}
            w = rqw.WellboreMarkerFrame.from_dataframe(m, get(t).uuid, df, title = n, **kw)
            w.write_hdf5()
            w.create_xml()
            keep('markers', n, w, rows = rows)
        return add(e, fn)

    def see_markers(n):
        def fn():
            w = get(n)
            df = w.dataframe()
            rows = []
            for i, x in enumerate(df.to_dict('records')):
                k = w.marker_list[i]
                assert k.marker_type == x['Boundary_Feature_Type'] and k.title == x['Marker_Citation_Title']
                ti = x['Interp_Citation_Title']
                if k.interpretation_uuid is not None:
                    want = {'fault': 'FaultInterpretation', 'horizon': 'HorizonInterpretation', 'geobody': 'GeobodyBoundaryInterpretation'}[k.marker_type]
                    assert m.type_of_uuid(k.interpretation_uuid, strip_obj = True) == want
                rows.append({'md': exact(x['MD']), 'type': x['Boundary_Feature_Type'], 'title': x['Marker_Citation_Title'], 'interp': ti if isinstance(ti, str) else '',
                             'index': k.marker_index, 'xyz': ints([x['X'], x['Y'], x['Z']], 1000)})
            return {'rows': rows, 'title': w.title, 'traj': name_of(w.trajectory)}
        return add({'op': 'seen_markers', 'id': n}, fn)

    def do_import():
        crs = some('crs')
        ws = []
        serial[0] += 1
        for i in range(r.randint(1, 3)):
            k = r.randint(2, 4)
            md = some_mds(r, k)
            ws.append({'name': f'W{serial[0]}' + ['', 'a', 'ab'][i], 'md': md, 'pts': some_points(r, k, [r.randint(0, 20), 5 * i, 0 if md[0] == 0 else 12])})
        e = {'op': 'import', 'wells': ws, 'uom': r.choice(['m', 'ft']), 'domain': r.choice(['', 'driller']), 'crs': crs, 'obs': {}}
        own = r.random() < 0.4
        space = r.random() < 0.4

        def fn():
            names = ['BORE', 'DEPTH', 'EAST', 'NORTH', 'TVD'] if own else ['WELL', 'MD', 'X', 'Y', 'Z']
            rows = [[w['name'], a] + list(p) for w in ws for a, p in zip(w['md'], w['pts'])]
            df = pd.DataFrame(rows, columns = names)
            with open('w.txt', 'w') as fp:
                if r.random() < 0.6:
                    fp.write('# wells\n')
                df.to_csv(fp, sep = ' ' if space else ',', index = False)
            kw = dict(zip(['well_col', 'md_col', 'x_col', 'y_col', 'z_col'], names)) if own else {}
            fs, is_, ts, ds = rqw.add_wells_from_ascii_file(m, get(crs).uuid, 'w.txt', space_separated_instead_of_csv = space, length_uom = e['uom'], md_domain = e['domain'] or None,
                                                            drilled = r.random() < 0.5, **kw)
            for t in ts:
                w = next(w for w in ws if w['name'] == t.title)
                keep('traj', t.title, t, md = w['md'], given = True, uom = e['uom'], pts = w['pts'], crs = crs)
            for d in ds:
                ids[str(d.uuid)] = 'own'
            e['obs'] = {'features': [x.feature_name for x in fs], 'interps': [x.title for x in is_], 'trajs': [x.title for x in ts], 'datums': [x.title for x in ds]}
        return add(e, fn)

    def do_las():
        ts = [t for t in kinds['traj'] if interp_named(t)]
        if not ts:
            return True
        t = r.choice(ts)
        n = new_id('frame')
        md = some_mds(r, r.randint(2, 5))
        cs = [(c, u, [r.randint(0, 50) for _ in md]) for c, u in r.sample([('GR', 'gAPI'), ('NPHI', 'v/v'), ('ZZ', 'm')], r.randint(1, 3))]
        e = {'op': 'las', 'id': n, 'traj': t, 'md': md, 'unit': r.choice(['m', 'ft']), 'logs': [[c, v] for c, _, v in sorted(cs)], 'obs': {}}

        def fn():
            las = lasio.LASFile()
            las.well['WELL'] = lasio.HeaderItem('WELL', value = 'any')
            las.append_curve('DEPT', [float(x) for x in md], unit = e['unit'])
            for c, u, v in cs:
                las.append_curve(c, [float(x) for x in v], unit = u)
            las.write('l.las', version = 2.0)
            coll, fr = rqw.add_las_to_trajectory(lasio.read('l.las'), get(t))
            ids[str(fr.uuid)] = n
            g = rqw.WellboreFrame(m, uuid = fr.uuid)
            lg = g.logs
            e['obs'] = {'md': ints(g.node_mds, 1000), 'interp': interp_of(g), 'logs': sorted([x.title, exact(x.values())] for x in lg.iter_logs())}
        return add(e, fn)

    def interp_named(t):
        return interps.get(t, '') != ''

    interps = {}

    def note():
        """Which trajectories have an interpretation."""
        for e in ev:
            if e['op'] in ('fly', 'traj') and e['res']['k'] == 'ok':
                interps[e['id']] = e['interp']
            if e['op'] == 'import' and e['res']['k'] == 'ok':
                for w in e['wells']:
                    interps[w['name']] = 't:' + w['name']

    def reopen():
        nonlocal m

        def fn():
            nonlocal m
            m.store_epc()
            m.h5_release()
            m = rq.Model('w.epc')
            objs.clear()
        return add({'op': 'reopen'}, fn)

    def spline():
        ts = [t for t in kinds['traj'] if facts[t]['given'] and facts[facts[t]['crs']]['xy'] == facts[facts[t]['crs']]['z'] == facts[t]['uom']]
        if not ts:
            return True
        a = r.choice(ts)
        least = r.choice([1, 1, 2, 3])
        e = {'op': 'spline', 'from': a, 'least': least, 'title': a + 's', 'obs': {}}

        def fn():
            t = get(a)
            had = t.tangent_vectors
            s = t.splined_trajectory(a + 's', min_subdivisions = least, max_segment_length = r.choice([None, 3.0]), max_degrees_per_knot = r.choice([5.0, 60.0]),
                                     use_tangents_if_present = r.random() < 0.5, store_tangents_if_calculated = False)
            assert t.tangent_vectors is had
            p = s.control_points
            at, j = [], 0
            for x in t.control_points:
                while j < len(p) and not np.allclose(p[j], x, rtol = 0.0, atol = 1e-6):
                    j += 1
                at.append(j + 1)
            e['obs'] = {'pts': ints(p, 1000), 'at': at, 'md': ints(s.measured_depths, 1000), 'steps': ints(np.linalg.norm(p[1:] - p[:-1], axis = 1), 1000),
                        'start': ints(s.start_md, 1000), 'finish': ints(s.finish_md, 1000), 'interp': interp_of(s)}
        return add(e, fn)

    ok = new_crs() and new_datum() and (r.random() < 0.5 or new_datum()) and (r.random() < 0.5 or new_crs()) and (r.random() < 0.4 or new_interp())
    if not ok:
        return
    for _ in range(r.randint(8, 16)):
        what = r.choice(['survey', 'fly', 'fly', 'traj', 'traj', 'frame', 'frame', 'markers', 'import', 'las', 'spline', 'reopen', 'reopen', 'at', 'at', 'at', 'tilt', 'tilt', 'interval', 'interval', 'markers', 'find',
                         'datum', 'same', 'look', 'look', 'find', 'find'])
        if what == 'survey':
            ok = new_survey()
        elif what == 'fly':
            ok = (bool(kinds['survey']) and r.random() < 0.6 or new_survey()) and fly()
        elif what == 'traj':
            ok = new_traj()
        elif what == 'import':
            ok = do_import()
        elif what == 'reopen':
            ok = reopen()
        elif what == 'datum':
            ok = new_datum() if r.random() < 0.5 else add({'op': 'seen_datum', 'id': (d := some('datum'))}, lambda: {
                'loc': exact(get(d).location, 1000), 'ref': get(d).md_reference, 'crs': name_of(get(d).crs_uuid)})
        elif what == 'same':
            a, b = some('datum'), some('datum')
            if r.random() < 0.6 and len(kinds['datum']) < 5:
                f = facts[a]
                c = new_id('datum')
                loc = list(f['loc'])
                if r.random() < 0.3:
                    loc[r.randint(0, 2)] += 1
                crs = f['crs'] if r.random() < 0.7 else some('crs')
                ref = f['ref'] if r.random() < 0.7 else r.choice(REFS)

                def fn():
                    x = rqw.MdDatum(m, crs_uuid = get(crs).uuid, location = tuple(loc), md_reference = ref, title = c)
                    x.create_xml()
                    keep('datum', c, x, crs = crs, loc = loc, ref = ref)
                ok = add({'op': 'datum', 'id': c, 'crs': crs, 'loc': loc, 'ref': ref}, fn)
                b = c
            ok = ok and add({'op': 'same', 'a': a, 'b': b}, lambda: bool(get(a).is_equivalent(get(b))))
        elif kinds['traj']:
            t = some('traj')
            f = facts[t]
            if what == 'frame':
                ok = new_frame()
            elif what == 'markers':
                ok = new_markers()
            elif what == 'las':
                note()
                ok = do_las()
            elif what == 'spline':
                ok = spline()
            elif what == 'at':
                top = 4 * f['md'][-1]
                q = r.choice([r.randint(0, top), 4 * r.choice(f['md']), 4 * r.choice(f['md']), r.choice([-1, -4]), r.randint(0, 4 * f['md'][0]), top + 1, top + 9])

                def fn():
                    x = get(t).xyz_for_md(q / 4.0)
                    return [] if x is None else ints(x, 1000)
                ok = add({'op': 'at', 'id': t, 'q': q}, fn)
            elif what == 'tilt':
                ts = [x for x in kinds['traj'] if facts[x]['given']]
                if ts:
                    t = r.choice(ts)

                    def fn():
                        tj = get(t)
                        before = tj.control_points.copy()
                        a = np.radians(tj.inclinations())
                        assert np.array_equal(before, tj.control_points)
                        return ints(np.stack((np.cos(a), np.sin(a)), axis = -1), 10000)
                    ok = add({'op': 'tilt', 'id': t}, fn)
            elif what == 'interval' and kinds['frame']:
                n = some('frame')
                md = facts[n]['md']
                q = r.choice([r.randint(4 * md[0], 4 * md[-1]), 4 * r.choice(md), 4 * r.choice(md), 4 * md[0] - 1, 4 * md[-1] + 3])

                def fn():
                    i, x = get(n).interval_for_md(q / 4.0)
                    return [int(i), ints(x, 10000)]
                ok = add({'op': 'interval', 'id': n, 'q': q}, fn)
            elif what == 'find' and kinds['markers']:
                n = some('markers')
                if r.random() < 0.5:
                    k = r.randint(0, 5)

                    def fn():
                        x = get(n).find_marker_from_index(k)
                        return '' if x is None else x.title
                    ok = add({'op': 'pick', 'id': n, 'n': k}, fn)
                else:
                    h = r.choice([x['interp'] for x in facts[n]['rows'] if x['type'] in ('fault', 'geobody', 'horizon')] or ['h1'])
                    ty = [x['type'] for x in facts[n]['rows'] if x['interp'] == h and x['type'] in ('fault', 'geobody', 'horizon')]
                    if ty:

                        def fn():
                            u = None
                            for q in (str.capitalize(ty[0]) + 'Interpretation',) if ty[0] != 'geobody' else ('GeobodyBoundaryInterpretation',):
                                u = m.uuid(obj_type = q, title = h)
                            x = None if u is None else get(n).find_marker_index_from_interp(u if r.random() < 0.5 else str(u))
                            return -1 if x is None else int(x)
                        ok = add({'op': 'find', 'id': n, 'interp': h, 'type': ty[0]}, fn)
            else:
                n = r.choice(kinds['traj'] + kinds['survey'] + kinds['frame'] + kinds['markers'])
                if n in kinds['traj']:
                    ok = see_traj(n)
                elif n in kinds['markers']:
                    ok = see_markers(n)
                elif n in kinds['frame']:
                    def fn():
                        w = get(n)
                        return {'md': exact(w.node_mds), 'traj': name_of(w.trajectory), 'crs': name_of(w.extract_crs_uuid()), 'interp': interp_of(w), 'title': w.title}
                    ok = add({'op': 'seen_frame', 'id': n}, fn)
                else:
                    def fn():
                        s = get(n)
                        d = (lambda x: exact(x)) if s.angles_in_degrees else (lambda x: exact(np.degrees(x)))
                        return {'md': exact(s.measured_depths), 'az': d(s.azimuths), 'inc': d(s.inclinations), 'uom': s.md_uom, 'n': int(s.station_count), 'first': exact(s.first_station, 1000),
                                'final': bool(s.is_final), 'datum': name_of(s.md_datum), 'interp': interp_of(s), 'title': s.title}
                    ok = add({'op': 'seen_survey', 'id': n}, fn)
        if not ok:
            return
    if reopen():
        for n in kinds['traj'] + kinds['survey'][-1:]:
            if n in kinds['traj'] and not see_traj(n):
                return
        for n in kinds['markers'][-1:]:
            if not see_markers(n):
                return
    m.h5_release()


PARTS = {'wells': (wells, 'WellsTrace')}


def main(c):
    quick = vlib.tier() == 'quick'
    c.model('MCWells', 'MCWells' + ('.cfg' if quick else '_thorough.cfg'))
    base = vlib.seed() * 1000003
    for part, n, many in (('wells', 1600, 30000),):
        c.conform(part, PARTS[part][0], [{'seed': base + i} for i in range(n if quick else many)], PARTS[part][1])
