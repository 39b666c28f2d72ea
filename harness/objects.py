"""Objects described wholly by their xml: made from choices, read back as strings (C06, C07)."""
from objs import *
import resqpy.well as rqw

TITLES = ['t', 'u', 'a & b', '<x> "q"', "it's é", 'a  b']
COMP = ['None', 'organic', 'carbonate', 'sedimentary turbidite']
IMPL = ['None', 'autochtonous', 'allochtonous']
DOMS = ['depth', 'time', 'mixed']
REL = ['None', 'conformable', 'unconformable below and above', 'unconformable above+unconformable below']
UOM = ['m', 'ft']
NUM = ['None', '10.0', '30.5', '0.001', '123456.75']

# class: attributes (name, choices as strings), classes referred to, constructor takes a suffix, title may be left to the feature
KINDS = {
    'OrganizationFeature': ([('kind', ['earth model', 'structural', 'fluid', 'stratigraphic'])], [], False, False),
    'GeobodyFeature': ([], [], False, False),
    'BoundaryFeature': ([], [], False, False),
    'FrontierFeature': ([], [], False, False),
    'GeologicUnitFeature': ([], [], False, False),
    'WellboreFeature': ([], [], False, False),
    'StratigraphicUnitFeature': ([], [], False, False),
    'FluidBoundaryFeature': ([('kind', ['free water contact', 'gas oil contact', 'gas water contact', 'seal', 'water oil contact'])], [], False, False),
    'TectonicBoundaryFeature': ([('kind', ['fault', 'fracture'])], [], False, False),
    'GeneticBoundaryFeature': ([('kind', ['horizon', 'geobody boundary']), ('age', ['None', '-1000', '-2000', '0', '1950'])], [], False, False),
    'RockFluidUnitFeature': ([('phase', ['aquifer', 'gas cap', 'oil column', 'seal'])], ['BoundaryFeature', 'BoundaryFeature'], False, False),
    'FaultInterpretation': ([('listric', ['None', 'False', 'True']), ('throw', NUM), ('azimuth', ['None', '0.0', '90.0', '180.0', '359.5']), ('dip', ['None', '45.0', '80.0']), ('domain', DOMS)],
                            ['TectonicBoundaryFeature'], True, True),
    'EarthModelInterpretation': ([('domain', DOMS)], ['OrganizationFeature'], True, True),
    'HorizonInterpretation': ([('domain', DOMS), ('rel', REL), ('seq', ['None', 'flooding', 'ravinement', 'maximum flooding', 'transgressive'])], ['GeneticBoundaryFeature'], True, True),
    'GeobodyBoundaryInterpretation': ([('domain', DOMS), ('rel', REL)], ['GeneticBoundaryFeature'], True, True),
    'GeobodyInterpretation': ([('domain', DOMS), ('comp', COMP), ('impl', IMPL), ('shape', ['None', 'dyke', 'fan', 'wedge'])], ['GeobodyFeature'], True, True),
    'WellboreInterpretation': ([('domain', DOMS), ('drilled', ['True', 'False'])], ['WellboreFeature'], True, True),
    'BoundaryFeatureInterpretation': ([('domain', DOMS)], ['BoundaryFeature'], False, True),
    'GenericFeatureInterpretation': ([('domain', DOMS)], ['BoundaryFeature'], False, True),
    'GeologicUnitInterpretation': ([('domain', DOMS), ('comp', COMP), ('impl', IMPL)], ['GeologicUnitFeature'], False, True),
    'StratigraphicUnitInterpretation': ([('domain', DOMS), ('comp', COMP), ('impl', IMPL), ('mode', ['proportional between top and bottom', 'parallel to bottom', 'parallel to top']),
                                         ('min', NUM), ('max', NUM), ('uom', UOM)], ['StratigraphicUnitFeature'], False, True),
    'LocalDepth3dCrs': ([('xy', ['m', 'ft', 'ft[US]']), ('z', UOM), ('down', ['True', 'False']),
                         ('order', ['easting northing', 'northing easting', 'westing southing', 'southing westing', 'northing westing', 'westing northing']),
                         ('x', ['0.0', '10.0', '-3000.5']), ('y', ['0.0', '-20.5']), ('zo', ['0.0', '3.0']), ('rot', ['0.0', '30.0', '1.5']), ('rotu', ['dega', 'rad']),
                         ('epsg', ['None', '27700', '4326'])], [], False, False),
    'LocalTime3dCrs': ([('xy', UOM), ('t', ['s', 'ms']), ('down', ['True', 'False']), ('order', ['easting northing', 'northing westing']), ('x', ['0.0', '10.0']), ('y', ['0.0', '7.25']), ('zo', ['0.0', '1.5']),
                        ('rot', ['0.0', '30.0'])], [], False, False),
    'MdDatum': ([('x', ['0.0', '12.5']), ('y', ['0.0', '-3.25']), ('z', ['0.0', '-40.0', '1e-05']), ('ref', ['mean sea level', 'kelly bushing', 'ground level', 'casing flange'])], ['LocalDepth3dCrs'], False, False),
    'PropertyKind': ([('abstract', ['False', 'True']), ('uom', ['m', 'ft', 'Euc']), ('system', ['urn:a', 'urn:b?x=1&y=2']), ('parent', ['length', 'continuous', 'discrete'])], [], False, False),
    'StringTableLookup': ([('d', ['1:a;2:b', '1:a;2:c', '1:a;3:b', '1:a', '-4:neg;7:x & y;60:<z>', '0:zero', '9:late;2:early'])], [], False, False),
    'TimeSeries': ([('t', ['2020-01-01T00:00:00Z', '2020-01-01T00:00:00Z;2020-02-01T00:00:00Z', '2020-01-01T00:00:00Z;2020-03-01T00:00:00Z',
                           '1999-12-31T23:59:59Z;2020-02-01T12:30:00Z;2021-01-01T00:00:00Z'])], [], False, False),
    'GeologicTimeSeries': ([('t', ['-1000000', '-300000;-200000;-1', '-65000000;-64000000', '-300000;0'])], [], False, False),
    'StratigraphicColumnRankInterpretation': ([('domain', DOMS), ('index', ['0', '1', '7']), ('older', ['None', 'baselap', 'proportional']), ('younger', ['None', 'erosion', 'extended'])], None, False, False),
    'StratigraphicColumn': ([], None, False, False),
}
HODS = ['EarthModelInterpretation', 'HorizonInterpretation', 'GeobodyBoundaryInterpretation', 'GeobodyInterpretation', 'BoundaryFeatureInterpretation',
        'GenericFeatureInterpretation', 'FaultInterpretation', 'GeologicUnitInterpretation', 'StratigraphicUnitInterpretation', 'StratigraphicColumnRankInterpretation']
EXTRA_KINDS = ['StratigraphicColumnRankInterpretation', 'StratigraphicColumn', 'MdDatum', 'GeologicTimeSeries']
CLASS = {'LocalDepth3dCrs': rqc.Crs, 'LocalTime3dCrs': rqc.Crs, 'MdDatum': rqw.MdDatum, 'PropertyKind': rqp.PropertyKind, 'StringTableLookup': rqp.StringLookup,
         'TimeSeries': rts.TimeSeries, 'GeologicTimeSeries': rts.GeologicTimeSeries, 'GenericFeatureInterpretation': rqo.GenericInterpretation,
         'StratigraphicUnitFeature': rqst.StratigraphicUnitFeature, 'GeologicUnitInterpretation': rqst.GeologicUnitInterpretation,
         'StratigraphicUnitInterpretation': rqst.StratigraphicUnitInterpretation, 'StratigraphicColumnRankInterpretation': rqst.StratigraphicColumnRank,
         'StratigraphicColumn': rqst.StratigraphicColumn}
FEATURE = {'FaultInterpretation': 'tectonic_boundary_feature', 'EarthModelInterpretation': 'organization_feature', 'HorizonInterpretation': 'genetic_boundary_feature',
           'GeobodyBoundaryInterpretation': 'genetic_boundary_feature', 'GeobodyInterpretation': 'geobody_feature', 'WellboreInterpretation': 'wellbore_feature',
           'BoundaryFeatureInterpretation': 'boundary_feature', 'GeologicUnitInterpretation': 'geologic_unit_feature',
           'StratigraphicUnitInterpretation': 'geologic_unit_feature'}


def cls(kind):
    return CLASS[kind] if kind in CLASS else getattr(rqo, kind)


def _f(x):
    return None if x == 'None' else float(x)


def _s(x):
    return None if x == 'None' else x


def _l(x):
    return None if x == 'None' else x.split('+')


def construct(m, kind, title, vary, em, refs, hod, orig):
    """The object, not yet stored; refs and hod are uuids."""
    v = dict(zip([a for a, _ in KINDS[kind][0]], vary))
    k = {'extra_metadata': dict(em) if em else None}
    if orig:
        if kind not in ('StratigraphicUnitFeature', 'GeologicUnitInterpretation', 'StratigraphicUnitInterpretation', 'StratigraphicColumnRankInterpretation', 'StratigraphicColumn'):
            k['originator'] = orig
    title = title or None
    C = cls(kind)
    if kind == 'OrganizationFeature':
        o = C(m, organization_kind = v['kind'], feature_name = title, **k)
    elif kind in ('GeobodyFeature', 'BoundaryFeature', 'FrontierFeature', 'GeologicUnitFeature', 'WellboreFeature'):
        o = C(m, feature_name = title, **k)
    elif kind == 'StratigraphicUnitFeature':
        o = C(m, title = title, **k)
    elif kind in ('FluidBoundaryFeature', 'TectonicBoundaryFeature'):
        o = C(m, kind = v['kind'], feature_name = title, **k)
    elif kind == 'GeneticBoundaryFeature':
        o = C(m, kind = v['kind'], feature_name = title, absolute_age = None if v['age'] == 'None' else ('2020-01-01T00:00:00Z', int(v['age'])), **k)
    elif kind == 'RockFluidUnitFeature':
        o = C(m, phase = v['phase'], feature_name = title, top_boundary_feature = rqo.BoundaryFeature(m, uuid = refs[0]), base_boundary_feature = rqo.BoundaryFeature(m, uuid = refs[1]), **k)
    elif kind == 'GenericFeatureInterpretation':
        o = C(m, title = title, feature_uuid = refs[0], domain = v['domain'], **k)
    elif kind in FEATURE:
        fk = KINDS[kind][1][0]
        a = {'stratigraphic_unit_feature' if kind == 'StratigraphicUnitInterpretation' else FEATURE[kind]: cls(fk)(m, uuid = refs[0]), 'domain': v['domain']}
        if kind == 'FaultInterpretation':
            li = v['listric']
            a.update(is_normal = li == 'None', is_listric = None if li == 'None' else li == 'True', maximum_throw = _f(v['throw']), mean_azimuth = _f(v['azimuth']), mean_dip = _f(v['dip']))
        if 'rel' in v:
            a['boundary_relation_list'] = _l(v['rel'])
        if 'seq' in v:
            a['sequence_stratigraphy_surface'] = _s(v['seq'])
        if 'comp' in v:
            a.update(composition = _s(v['comp']), material_implacement = _s(v['impl']))
        if 'shape' in v:
            a['geobody_shape'] = _s(v['shape'])
        if 'drilled' in v:
            a['is_drilled'] = v['drilled'] == 'True'
        if 'mode' in v:
            a.update(deposition_mode = _s(v['mode']), min_thickness = _f(v['min']), max_thickness = _f(v['max']), thickness_uom = v['uom'])
        o = C(m, title = title, **a, **k)
    elif kind == 'LocalDepth3dCrs':
        o = C(m, title = title, xy_units = v['xy'], z_units = v['z'], z_inc_down = v['down'] == 'True', axis_order = v['order'], x_offset = float(v['x']), y_offset = float(v['y']),
              z_offset = float(v['zo']), rotation = float(v['rot']), rotation_units = v['rotu'], epsg_code = _s(v['epsg']), **k)
    elif kind == 'LocalTime3dCrs':
        o = C(m, title = title, xy_units = v['xy'], time_units = v['t'], z_inc_down = v['down'] == 'True', axis_order = v['order'], x_offset = float(v['x']), y_offset = float(v['y']),
              z_offset = float(v['zo']), rotation = float(v['rot']), **k)
    elif kind == 'MdDatum':
        o = C(m, title = title, crs_uuid = refs[0], location = (float(v['x']), float(v['y']), float(v['z'])), md_reference = v['ref'], **k)
    elif kind == 'PropertyKind':
        o = C(m, title = title, is_abstract = v['abstract'] == 'True', example_uom = v['uom'], naming_system = v['system'], parent_property_kind = v['parent'], **k)
    elif kind == 'StringTableLookup':
        o = C(m, int_to_str_dict = {int(x.split(':')[0]): x.split(':')[1] for x in v['d'].split(';')}, title = title, **k)
    elif kind == 'TimeSeries':
        t = v['t'].split(';')
        o = C(m, first_timestamp = t[0], title = title, **k)
        for x in t[1:]:
            o.add_timestamp(x)
    elif kind == 'GeologicTimeSeries':
        o = C.from_year_list(m, [int(x) for x in v['t'].split(';')], title = title, **k) if 'originator' not in k else C.from_year_list(m, [int(x) for x in v['t'].split(';')], title = title, **k)
    elif kind == 'StratigraphicColumnRankInterpretation':
        n = len(refs) // 2
        o = C(m, title = title, domain = v['domain'], rank_index = int(v['index']), earth_model_feature_uuid = refs[0], strata_uuid_list = refs[1:n + 1], **k)
        o.set_contacts_from_horizons(refs[n + 1:], older_contact_mode = _s(v['older']), younger_contact_mode = _s(v['younger']))
    elif kind == 'StratigraphicColumn':
        o = C(m, title = title, rank_uuid_list = refs, **k)
    if hod:
        p = (str(hod[0]), str(hod[1]))
        if kind == 'FaultInterpretation':
            o.main_has_occurred_during = p
        else:
            o.has_occurred_during = p
    return o


def store(o, kind, reuse, suffix, orig):
    k = {}
    if suffix:
        k['title_suffix'] = suffix
    if kind in ('StratigraphicUnitFeature', 'GeologicUnitInterpretation', 'StratigraphicUnitInterpretation', 'StratigraphicColumnRankInterpretation', 'StratigraphicColumn') and orig:
        k['originator'] = orig
    if kind != 'MdDatum':
        k['reuse'] = reuse
    return o.create_xml(**k)


def load(m, kind, uuid):
    return cls(kind)(m, uuid = uuid)


def read_vary(o, kind):
    g = {
        'OrganizationFeature': lambda: [o.organization_kind], 'FluidBoundaryFeature': lambda: [o.kind], 'TectonicBoundaryFeature': lambda: [o.kind],
        'GeneticBoundaryFeature': lambda: [o.kind, None if o.absolute_age is None else o.absolute_age[1] if o.absolute_age[0] == '2020-01-01T00:00:00Z' else o.absolute_age],
        'RockFluidUnitFeature': lambda: [o.phase],
        'FaultInterpretation': lambda: [o.is_listric if o.is_normal == (o.is_listric is None) else 'inconsistent', o.maximum_throw, o.mean_azimuth, o.mean_dip, o.domain],
        'EarthModelInterpretation': lambda: [o.domain], 'BoundaryFeatureInterpretation': lambda: [o.domain], 'GenericFeatureInterpretation': lambda: [o.domain],
        'HorizonInterpretation': lambda: [o.domain, _rel(o), o.sequence_stratigraphy_surface], 'GeobodyBoundaryInterpretation': lambda: [o.domain, _rel(o)],
        'GeobodyInterpretation': lambda: [o.domain, o.composition, o.implacement, o.geobody_shape], 'WellboreInterpretation': lambda: [o.domain, o.is_drilled],
        'GeologicUnitInterpretation': lambda: [o.domain, o.composition, o.material_implacement],
        'StratigraphicUnitInterpretation': lambda: [o.domain, o.composition, o.material_implacement, o.deposition_mode, o.min_thickness, o.max_thickness,
                                                    o.thickness_uom],
        'LocalDepth3dCrs': lambda: [o.xy_units, o.z_units, o.z_inc_down, o.axis_order, o.x_offset, o.y_offset, o.z_offset, o.rotation, o.rotation_units, o.epsg_code],
        'LocalTime3dCrs': lambda: [o.xy_units, o.time_units, o.z_inc_down, o.axis_order, o.x_offset, o.y_offset, o.z_offset, o.rotation],
        'MdDatum': lambda: list(o.location) + [o.md_reference], 'PropertyKind': lambda: [o.is_abstract, o.example_uom, o.naming_system, o.parent_kind],
        'StringTableLookup': lambda: [';'.join(f'{a}:{b}' for a, b in o.as_dict().items())],
        'TimeSeries': lambda: [';'.join(o.datetimes() and [o.timestamp(i) for i in range(o.number_of_timestamps())])],
        'GeologicTimeSeries': lambda: [';'.join(str(o.timestamp(i, as_string = False)) for i in range(o.number_of_timestamps()))],
        'StratigraphicColumnRankInterpretation': lambda: [o.domain, o.index] + _modes(o)}.get(kind, lambda: [])
    return [str(x) for x in g()]


def _rel(o):
    return None if not o.boundary_relation_list else '+'.join(o.boundary_relation_list)


def _modes(o):
    s = {(c.subject_contact_mode, c.direct_object_contact_mode) for c in o.iter_contacts()} or {('none', 'none')}
    return list(s.pop()) if len(s) == 1 else [str(s), str(s)]


def read_refs(o, kind):
    """The uuids of the objects it refers to."""
    if kind in FEATURE:
        return [getattr(o, FEATURE[kind]).uuid]
    if kind == 'GenericFeatureInterpretation':
        return [o.feature_uuid]
    if kind == 'RockFluidUnitFeature':
        return [o.top_boundary_feature.uuid, o.base_boundary_feature.uuid]
    if kind == 'MdDatum':
        return [o.crs_uuid]
    if kind == 'StratigraphicColumnRankInterpretation':
        us = [u.uuid for u in o.iter_units()]
        if [o.unit_for_unit_index(i).uuid for i in range(len(us))] != us:
            return []
        for i, c in enumerate(o.iter_contacts()):
            if c.index != i or not bu.matching_uuids(c.subject_uuid, us[i]) or not bu.matching_uuids(c.direct_object_uuid, us[i + 1]) or \
               (c.contact_relationship, c.verb, c.subject_contact_side, c.direct_object_contact_side) != ('stratigraphic unit to stratigraphic unit', 'stops at', 'older', 'younger'):
                return []
        return [o.feature_uuid] + us + [c.part_of_uuid for c in o.iter_contacts()]
    if kind == 'StratigraphicColumn':
        return [r.uuid for r in o.iter_ranks()]
    return []


def read_hod(o, kind):
    p = (None, None)
    if kind == 'FaultInterpretation':
        p = o.main_has_occurred_during
    elif kind in HODS:
        p = o.has_occurred_during
    return [] if p is None or p[0] is None else list(p)


def gen_history(seed, kinds, steps_n, mode):
    """mode: 'load' reading everything back, 'reuse' asking for equivalents."""
    import random
    r = random.Random(seed)
    ks = r.sample(kinds, min(len(kinds), r.choice([2, 3, 4, 6])))
    have = []      # (kind, index)
    steps = []
    few = mode == 'reuse'
    titles = r.sample(TITLES, 2) if few else TITLES
    ranks = {}

    def pick(k):
        return [c[0] if (few and r.random() < (0.8 if len(KINDS[k][0]) < 6 else 0.9)) else r.choice(c) for _, c in KINDS[k][0]]

    def new(k, again = None):
        refs = []
        if k == 'StratigraphicColumnRankInterpretation':
            nu = r.choice([1, 2, 3])
            refs = [of(('OrganizationFeature'))] + [of('StratigraphicUnitInterpretation') for _ in range(nu)] + [of('HorizonInterpretation') for _ in range(nu - 1)]
        elif k == 'StratigraphicColumn':
            refs = [of('StratigraphicColumnRankInterpretation') for _ in range(r.choice([1, 1, 2]))]
            refs = sorted(set(refs), key = lambda i: (int(ranks[i]), i))
            if len({ranks[i] for i in refs}) < len(refs):
                refs = refs[:1]
        else:
            refs = [of(rk) for rk in KINDS[k][1]]
        spec = KINDS[k]
        vary = pick(k)
        if k == 'LocalDepth3dCrs' and few and r.random() < 0.4:
            vary[7] = '30.0'
        if k == 'StratigraphicUnitInterpretation' and vary[4] == 'None' and vary[5] == 'None':
            vary[4] = '10.0'
        if k == 'StratigraphicColumnRankInterpretation' and len(refs) == 2:
            vary[2:] = ['none', 'none']
        if k == 'GenericFeatureInterpretation' and False:
            pass
        hod = []
        if k in HODS and r.random() < 0.2 and have:
            b = [i for x, i in have if x in ('BoundaryFeature', 'OrganizationFeature')]
            if b:
                hod = [r.choice(b), r.choice(b)]
        t = r.choice(titles)
        s = {'op': 'make', 'kind': k, 'title': '' if spec[3] and r.random() < 0.25 else t, 'sfx': r.choice(['', '', 'two']) if spec[2] else '', 'vary': vary,
             'ex': 0 if r.random() < (0.8 if few else 0.5) else r.randrange(len(EM)), 'refs': refs, 'hod': hod, 'orig': r.choice(['', '', 'me & you']),
             'reuse': k != 'MdDatum' and r.random() < (0.7 if few else 0.1)}
        if again:
            s.update({x: again[x] for x in ('title', 'sfx', 'vary', 'ex', 'refs', 'hod')})
            if r.random() < 0.3 and s['refs'] and KINDS[k][1]:
                j = r.randrange(len(s['refs']))
                s['refs'] = s['refs'][:j] + [of(KINDS[k][1][j])] + s['refs'][j + 1:]
            if r.random() < 0.5:
                x = r.choice(['title', 'sfx', 'ex', 'vary', 'vary', 'vary', 'hod'])
                if x == 'vary' and s['vary'] and k != 'StratigraphicColumnRankInterpretation':
                    j = r.randrange(len(s['vary']))
                    s['vary'] = list(s['vary'])
                    s['vary'][j] = r.choice(KINDS[k][0][j][1])
                    if k == 'StratigraphicUnitInterpretation' and s['vary'][4] == 'None' and s['vary'][5] == 'None':
                        s['vary'][4] = '10.0'
                elif x == 'title':
                    s['title'] = r.choice(titles)
                elif x == 'sfx' and spec[2]:
                    s['sfx'] = r.choice(['', 'two'])
                elif x == 'ex':
                    s['ex'] = r.randrange(len(EM))
                elif x == 'hod':
                    s['hod'] = []
        steps.append(s)
        have.append((k, len(steps)))        # the object is known by the number of the step that made it
        if k == 'StratigraphicColumnRankInterpretation':
            ranks[len(steps)] = s['vary'][1]
        return len(steps)

    def of(k):
        c = [i for x, i in have if x == k]
        return r.choice(c) if c and r.random() < 0.6 else new(k)

    for _ in range(r.randint(3, steps_n)):
        x = r.random()
        if x < 0.45 or not have:
            if have and few and r.random() < 0.5:
                k, i = r.choice([h for h in have])
                new(k, steps[i - 1])
            else:
                new(r.choice(ks))
        elif x < 0.7:
            steps.append({'op': 'load', 'i': r.choice(have)[1]})
        elif x < 0.93 and few:
            k = r.choice(have)[0]
            c = [i for y, i in have if y == k]
            steps.append({'op': 'eq', 'a': r.choice(c), 'b': r.choice(c), 'deep': r.random() < 0.8})
        elif x < 0.93:
            steps.append({'op': 'load', 'i': r.choice(have)[1]})
        else:
            steps.append({'op': 'reopen'})
    for k, i in have:
        steps.append({'op': 'load', 'i': i})
    return steps


def driver(params, tr, mode, length):
    steps = gen_history(params['seed'], list(KINDS), length, mode)
    m = new_model('o.epc')
    at, ids = {}, {}

    def idx(u):
        return ids.get(bu.uuid_from_string(u).int, 0) if u is not None else -1
    for n, s in enumerate(steps, 1):
        e = dict(s)
        if s['op'] == 'make':
            k = s['kind']
            e['extra'] = sorted([a, b] for a, b in (EM[s['ex']] or {}).items())
            e['id'] = n
            e['refs'] = [x for x in s['refs']]
            refs = [at.get(x) for x in s['refs']]
            hod = [at.get(x) for x in s['hod']]
            before = m.number_of_parts()

            def act():
                o = construct(m, k, s['title'], s['vary'], EM[s['ex']], refs, hod, s['orig'])
                store(o, k, s['reuse'], s['sfx'], s['orig'])
                return o.uuid
            st, v = call(act)
            if st == 'ok':
                new = bu.uuid_from_string(v).int not in ids
                if new:
                    ids[bu.uuid_from_string(v).int] = n
                at[n] = v
                e['res'] = {'k': 'ok', 'id': idx(v), 'added': m.number_of_parts() - before}
            else:
                at[n] = None
                e['res'] = {'k': st, 'id': 0, 'added': m.number_of_parts() - before, 'what': v}
            tr['events'].append(e)
            if st != 'ok':
                break
        elif s['op'] == 'load':
            i = s['i']
            k = steps[i - 1]['kind']

            def act():
                o = load(m, k, at[i])
                em = dict(o.extra_metadata or {})
                if em.get('timeframe') in ('human', 'geologic') and k in ('TimeSeries', 'GeologicTimeSeries'):
                    em.pop('timeframe')
                return {'title': o.title, 'orig': o.originator or '', 'vary': read_vary(o, k), 'extra': sorted([a, b] for a, b in em.items()),
                        'refs': [idx(u) for u in read_refs(o, k)], 'hod': [idx(u) for u in read_hod(o, k)],
                        'kind': k if (k, m.type_of_uuid(at[i], strip_obj = True)) == ('GeologicTimeSeries', 'TimeSeries') else m.type_of_uuid(at[i], strip_obj = True)}
            st, v = call(act)
            e['res'] = {'k': st, 'what': '' if st == 'ok' else v}
            e['obs'] = v if st == 'ok' else {}
            tr['events'].append(e)
        elif s['op'] == 'eq':
            ka, kb = steps[s['a'] - 1]['kind'], steps[s['b'] - 1]['kind']

            def act():
                a, b = load(m, ka, at[s['a']]), load(m, kb, at[s['b']])
                if s['deep']:
                    return [a == b, b == a, not (a != b)]
                return [bool(a.is_equivalent(b, check_extra_metadata = False)), bool(b.is_equivalent(a, check_extra_metadata = False))]
            if not s['deep'] and (ka not in NOEX or kb not in NOEX):
                e['deep'] = s['deep'] = True
            st, v = call(act)
            e['res'] = {'k': st, 'v': [bool(x) for x in v] if st == 'ok' else [], 'what': '' if st == 'ok' else v}
            tr['events'].append(e)
        else:
            m.store_epc()
            m = rq.Model('o.epc')
            e['res'] = {'k': 'ok'}
            tr['events'].append(e)


def load_driver(params, tr):
    driver(params, tr, 'load', 10)


def reuse_driver(params, tr):
    driver(params, tr, 'reuse', 16)


# the classes whose comparison can be told to leave the extra metadata aside
NOEX = [k for k in KINDS if k not in ('LocalDepth3dCrs', 'LocalTime3dCrs', 'TimeSeries', 'GeologicTimeSeries', 'StringTableLookup', 'MdDatum', 'StratigraphicColumn',
                                      'StratigraphicColumnRankInterpretation', 'RockFluidUnitFeature', 'GeologicUnitInterpretation', 'StratigraphicUnitInterpretation')]
