"""Objects of the classes that have a notion of equivalence, made through the public interface from small tuples of choices."""
from rqutil import *
import resqpy.property as rqp
import resqpy.time_series as rts
import resqpy.surface as rqs
import resqpy.strata as rqst

EM = [None, {'k': 'v1'}, {'k': 'v2'}, {'k': 'v1', 'j': 'w'}]
DOMAINS = ['depth', 'time', 'mixed']

# for each class: the choices for every attribute that matters, the classes of the objects referred to, the factory
TABLE = {
    'OrganizationFeature': ([['earth model', 'structural', 'fluid']], []),
    'GeobodyFeature': ([], []),
    'BoundaryFeature': ([], []),
    'FrontierFeature': ([], []),
    'GeologicUnitFeature': ([], []),
    'FluidBoundaryFeature': ([['gas oil contact', 'water oil contact', 'seal']], []),
    'RockFluidUnitFeature': ([['aquifer', 'gas cap']], ['BoundaryFeature', 'BoundaryFeature']),
    'TectonicBoundaryFeature': ([['fault', 'fracture']], []),
    'GeneticBoundaryFeature': ([['horizon', 'geobody boundary'], [None, ('0000-01-01T00:00:00Z', -1000), ('0000-01-01T00:00:00Z', -2000)]], []),
    'WellboreFeature': ([], []),
    'FaultInterpretation': ([[True, False], [None, 10.0, 30.0], [None, 90.0, 180.0], [None, 45.0, 80.0], DOMAINS[:2]], ['TectonicBoundaryFeature']),
    'EarthModelInterpretation': ([DOMAINS], ['OrganizationFeature']),
    'HorizonInterpretation': ([DOMAINS[:2], [None, ['conformable'], ['unconformable above'], ['unconformable above', 'conformable']], [None, 'flooding', 'ravinement']], ['GeneticBoundaryFeature']),
    'GeobodyBoundaryInterpretation': ([DOMAINS[:2], [None, ['conformable'], ['unconformable above']]], ['GeneticBoundaryFeature']),
    'GeobodyInterpretation': ([DOMAINS[:2], [None, 'organic', 'carbonate'], [None, 'autochtonous'], [None, 'dyke', 'fan']], ['GeobodyFeature']),
    'WellboreInterpretation': ([DOMAINS[:2], [True, False]], ['WellboreFeature']),
    'LocalDepth3dCrs': ([['m', 'ft'], ['m', 'ft'], [True, False], ['easting northing', 'northing easting'], [0.0, 10.0], [0.0, -20.5], [0.0, 3.0], [0.0, 30.0]], []),
    'LocalTime3dCrs': ([['s', 'ms'], ['m', 'ft'], [0.0, 10.0]], []),
    'TimeSeries': ([[('2020-01-01',), ('2020-01-01', '2020-02-01'), ('2020-01-01', '2020-03-01'), ('2020-01-01', '2020-02-01', '2021-01-01')]], []),
    'StringTableLookup': ([[{1: 'a', 2: 'b'}, {1: 'a', 2: 'c'}, {1: 'a', 3: 'b'}, {1: 'a'}]], []),
    'PropertyKind': ([[False, True], ['m', 'ft'], ['urn:a', 'urn:b'], ['length', 'continuous']], []),
    'BoundaryFeatureInterpretation': ([DOMAINS[:2]], ['BoundaryFeature']),
    'GenericFeatureInterpretation': ([DOMAINS[:2]], ['BoundaryFeature']),
    'StratigraphicUnitFeature': ([], []),
    'GeologicUnitInterpretation': ([DOMAINS[:2], [None, 'organic'], [None, 'autochtonous']], ['GeologicUnitFeature']),
}


def prepare(model, kind, title, pick, extra, refs, uuid = None):
    """The object (no xml yet), from the indexes of the attributes picked."""
    ch, _ = TABLE[kind]
    v = [c[i] for c, i in zip(ch, pick)]
    em = dict(EM[extra]) if EM[extra] else None
    k = {'extra_metadata': em}
    m = model
    if kind == 'OrganizationFeature':
        return rqo.OrganizationFeature(m, organization_kind = v[0], feature_name = title, **k)
    if kind in ('GeobodyFeature', 'BoundaryFeature', 'FrontierFeature', 'GeologicUnitFeature', 'WellboreFeature'):
        return getattr(rqo, kind)(m, feature_name = title, **k)
    if kind in ('FluidBoundaryFeature', 'TectonicBoundaryFeature'):
        return getattr(rqo, kind)(m, kind = v[0], feature_name = title, **k)
    if kind == 'RockFluidUnitFeature':
        return rqo.RockFluidUnitFeature(m, phase = v[0], feature_name = title, top_boundary_feature = rqo.BoundaryFeature(m, uuid = refs[0]),
                                        base_boundary_feature = rqo.BoundaryFeature(m, uuid = refs[1]), **k)
    if kind == 'GeneticBoundaryFeature':
        return rqo.GeneticBoundaryFeature(m, kind = v[0], feature_name = title, absolute_age = v[1], **k)
    if kind == 'FaultInterpretation':
        return rqo.FaultInterpretation(m, title = title, tectonic_boundary_feature = rqo.TectonicBoundaryFeature(m, uuid = refs[0]), is_normal = v[0],
                                       is_listric = None if v[0] else False, maximum_throw = v[1], mean_azimuth = v[2], mean_dip = v[3], domain = v[4], **k)
    if kind == 'EarthModelInterpretation':
        return rqo.EarthModelInterpretation(m, title = title, organization_feature = rqo.OrganizationFeature(m, uuid = refs[0]), domain = v[0], **k)
    if kind == 'HorizonInterpretation':
        return rqo.HorizonInterpretation(m, title = title, genetic_boundary_feature = rqo.GeneticBoundaryFeature(m, uuid = refs[0]), domain = v[0],
                                         boundary_relation_list = v[1], sequence_stratigraphy_surface = v[2], **k)
    if kind == 'GeobodyBoundaryInterpretation':
        return rqo.GeobodyBoundaryInterpretation(m, title = title, genetic_boundary_feature = rqo.GeneticBoundaryFeature(m, uuid = refs[0]), domain = v[0],
                                                 boundary_relation_list = v[1], **k)
    if kind == 'GeobodyInterpretation':
        return rqo.GeobodyInterpretation(m, title = title, geobody_feature = rqo.GeobodyFeature(m, uuid = refs[0]), domain = v[0], composition = v[1],
                                         material_implacement = v[2], geobody_shape = v[3], **k)
    if kind == 'WellboreInterpretation':
        return rqo.WellboreInterpretation(m, title = title, wellbore_feature = rqo.WellboreFeature(m, uuid = refs[0]), domain = v[0], is_drilled = v[1], **k)
    if kind == 'LocalDepth3dCrs':
        return rqc.Crs(m, title = title, xy_units = v[0], z_units = v[1], z_inc_down = v[2], axis_order = v[3], x_offset = v[4], y_offset = v[5], z_offset = v[6],
                       rotation = v[7], **k)
    if kind == 'LocalTime3dCrs':
        return rqc.Crs(m, title = title, time_units = v[0], xy_units = v[1], x_offset = v[2], **k)
    if kind == 'TimeSeries':
        ts = rts.TimeSeries(m, first_timestamp = v[0][0], title = title, **k)
        for t in v[0][1:]:
            ts.add_timestamp(t)
        return ts
    if kind == 'StringTableLookup':
        return rqp.StringLookup(m, int_to_str_dict = v[0], title = title, **k)
    if kind == 'PropertyKind':
        return rqp.PropertyKind(m, title = title, is_abstract = v[0], example_uom = v[1], naming_system = v[2], parent_property_kind = v[3], **k)
    if kind == 'BoundaryFeatureInterpretation':
        return rqo.BoundaryFeatureInterpretation(m, title = title, boundary_feature = rqo.BoundaryFeature(m, uuid = refs[0]), domain = v[0], **k)
    if kind == 'GenericFeatureInterpretation':
        return rqo.GenericInterpretation(m, title = title, feature_uuid = refs[0], domain = v[0], **k)
    if kind == 'StratigraphicUnitFeature':
        return rqst.StratigraphicUnitFeature(m, title = title, **k)
    if kind == 'GeologicUnitInterpretation':
        return rqst.GeologicUnitInterpretation(m, title = title, geologic_unit_feature = rqo.GeologicUnitFeature(m, uuid = refs[0]), domain = v[0],
                                               composition = v[1], material_implacement = v[2], **k)
    raise ValueError(kind)


def make_obj(model, kind, title, pick, extra, refs, uuid = None, reuse = False):
    o = prepare(model, kind, title, pick, extra, refs)
    if uuid is not None:
        o.uuid = uuid
    o.create_xml(reuse = reuse)
    return o.uuid


def point_set(model, title, arrs, crs_uuids, extra = 0):
    """A point set with one patch for each array of three integers; every patch refers to a crs."""
    ps = rqs.PointSet(model, points_array = np.array([arrs[0]], dtype = float), crs_uuid = crs_uuids, title = title, extra_metadata = EM[extra])
    for a in arrs[1:]:
        ps.add_patch(np.array([a], dtype = float))
    ps.write_hdf5()
    ps.create_xml()
    return ps.uuid


def vary_of(kind, pick):
    return [str(x) for x in pick]
