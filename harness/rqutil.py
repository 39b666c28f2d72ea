"""Helpers shared by the drivers: building objects through the public interface, observing them."""
import os, sys, uuid as _uuid, random
import numpy as np
import resqpy.model as rq
import resqpy.crs as rqc
import resqpy.organize as rqo
import resqpy.olio.uuid as bu
import resqpy.olio.xml_et as rqet
from vlib import call


def new_model(name = 'm.epc'):
    return rq.new_model(name, quiet = True)


def generic_part(model, kind, uuid, title, extra, ref_uuids, rel, sub = None):
    """A part of an arbitrary class made with the same public steps that every resqpy class uses."""
    root = model.new_obj_node(kind)
    root.attrib['uuid'] = str(uuid)
    model.create_citation(root = root, title = title)
    if extra:
        rqet.create_metadata_xml(node = root, extra_metadata = extra)
    refs = []
    for r in ref_uuids:
        p = model.part_for_uuid(r)
        model.create_ref_node('Reference', model.title_for_part(p), r, content_type = model.type_of_part(p), root = root)
        refs.append(p)
    model.add_part('obj_' + kind, uuid, root, epc_subdir = sub)
    if rel:
        for p in refs:
            model.create_reciprocal_relationship(root, 'destinationObject', model.root_for_part(p), 'sourceObject')
    return root


def make_part(model, kind, title, extra, ref_uuids, rel, uuid = None, sub = None):
    """Creates an object of the given class referring to the given objects; returns its uuid."""
    ex = dict(extra) if extra else None
    if kind == 'TectonicBoundaryFeature':
        o = rqo.TectonicBoundaryFeature(model, kind = 'fault', feature_name = title, extra_metadata = ex)
        o.create_xml(reuse = False)
    elif kind == 'GeneticBoundaryFeature':
        o = rqo.GeneticBoundaryFeature(model, kind = 'horizon', feature_name = title, extra_metadata = ex)
        o.create_xml(reuse = False)
    elif kind == 'OrganizationFeature':
        o = rqo.OrganizationFeature(model, organization_kind = 'earth model', feature_name = title, extra_metadata = ex)
        o.create_xml(reuse = False)
    elif kind == 'WellboreFeature':
        o = rqo.WellboreFeature(model, feature_name = title, extra_metadata = ex)
        o.create_xml(reuse = False)
    elif kind == 'FaultInterpretation':
        f = rqo.TectonicBoundaryFeature(model, uuid = ref_uuids[0])
        o = rqo.FaultInterpretation(model, title = title, is_normal = True, tectonic_boundary_feature = f, domain = 'depth', extra_metadata = ex)
        o.create_xml(add_relationships = rel, reuse = False)
    elif kind == 'HorizonInterpretation':
        f = rqo.GeneticBoundaryFeature(model, uuid = ref_uuids[0])
        o = rqo.HorizonInterpretation(model, title = title, genetic_boundary_feature = f, domain = 'depth', extra_metadata = ex)
        o.create_xml(add_relationships = rel, reuse = False)
    elif kind == 'EarthModelInterpretation':
        f = rqo.OrganizationFeature(model, uuid = ref_uuids[0])
        o = rqo.EarthModelInterpretation(model, title = title, organization_feature = f, domain = 'depth', extra_metadata = ex)
        o.create_xml(add_relationships = rel, reuse = False)
    elif kind == 'WellboreInterpretation':
        f = rqo.WellboreFeature(model, uuid = ref_uuids[0])
        o = rqo.WellboreInterpretation(model, title = title, is_drilled = True, wellbore_feature = f, extra_metadata = ex)
        o.create_xml(add_relationships = rel, reuse = False)
    elif kind == 'LocalDepth3dCrs':
        o = rqc.Crs(model, title = title, extra_metadata = ex)
        o.create_xml(reuse = False)
    elif kind == 'MdDatum':
        import resqpy.well as rqw
        o = rqw.MdDatum(model, title = title, crs_uuid = ref_uuids[0], location = (1.0, 2.0, 3.0), extra_metadata = ex)
        o.create_xml(add_relationships = rel)
    else:
        u = bu.new_uuid() if uuid is None else uuid
        generic_part(model, kind, u, title, ex, ref_uuids, rel, sub)
        return u
    return o.uuid
