#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state = (), observe = ()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mech],
            'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Model catalogue stays consistent under any history of edits',
     'After any sequence of creating, copying, relating, editing the extra metadata of and removing objects in a model, and of saving and reopening it, '
     'every object is listed exactly once and its part name, uuid, class, title and extra metadata agree however they are looked up, while removed objects are gone. '
     'The relations reported for an object (those it refers to, those that refer to it, those only softly related) are exactly the ones established and still present, '
     'are mutually exclusive, and always hold in both directions; relationship entries follow the same history.',
     ['histories'], 'every finite history of create / copy / relate / remove / edit metadata / save / reopen over any reference graph',
     'The tests apply one or two edits to one fixture model and look at a single catalogue query; the catalogue is four redundant dictionaries plus xml, and disagreement needs particular orders of edits.',
     ['resqpy/model/_model.py', 'resqpy/model/_forestry.py', 'resqpy/model/_catalogue.py', 'resqpy/model/_xml.py'],
     [('add / remove / copy part', 'resqpy/model/_forestry.py:_add_part,_remove_part,_copy_part'), ('relation bookkeeping', 'resqpy/model/_forestry.py:_add_uuid_relations,_del_uuid_relations'), ('reciprocal relationships', 'resqpy/model/_xml.py:_create_reciprocal_relationship')],
     [('parts_forest, uuid_part_dict, object_parts', 'the catalogue and its indexes', 'resqpy/model/_model.py'), ('uuid_rels_dict, rels_forest', 'relations, in memory and as xml', 'resqpy/model/_model.py')],
     ['Model.parts, uuids_as_int_*, check_catalogue_dictionaries, relationships parts'])

prop('C02', 'Object queries return exactly the matching objects',
     'A query of a model for parts, uuids, titles or roots returns exactly the objects that satisfy every criterion given (subset list, class, uuid, title with its matching mode and case rule, '
     'citation metadata, extra metadata, relation to another object and its mode), each once, in the order asked for. '
     'The single object forms return that object when one matches, nothing when none does, and follow the stated policy (exception, none, first, newest, oldest) when several do, and all the query forms agree with each other.',
     ['inputs', 'histories'], 'every combination of query arguments over every catalogue',
     'A few dozen argument combinations are asserted on two or three fixture models; the interaction of filters, modes and multiple-match policies is not.',
     ['resqpy/model/_catalogue.py', 'resqpy/model/_model.py'],
     [('filters', 'resqpy/model/_catalogue.py:_parts,_filtered_by_*'), ('sorting', 'resqpy/model/_catalogue.py:_sorted_parts_list,_sort_parts_list_by_timestamp'), ('single object forms', 'resqpy/model/_catalogue.py:_part')],
     [('parts_forest', 'objects and their xml', 'resqpy/model/_model.py')], ['Model.parts/part/uuids/uuid/titles/title/roots/root'])

prop('C03', 'Saving and reopening a model preserves it as a well formed package',
     'After a model is saved, under its own or another name, the file is a well formed package in which every part appears once, every part is declared with its content type and every relationship target that is inside the package exists; '
     'reopening it (fully, lazily, as a copy of the dataset, or through the context manager in any mode) gives the same objects, xml content, relations and array data as were saved. '
     'Saving only when modified writes exactly when something changed since the last save, and reading never changes the files.',
     ['histories', 'configurations'], 'every history of edits, saves, saves under another name and reopenings in every mode',
     'Tests save and reopen a handful of models once and check one or two objects; package level agreement and repeated cycles are not examined.',
     ['resqpy/model/_forestry.py', 'resqpy/model/_context.py', 'resqpy/model/_model.py', 'resqpy/olio/xml_et.py'],
     [('store and load', 'resqpy/model/_forestry.py:_store_epc,_load_epc'), ('dataset copy', 'resqpy/model/_forestry.py:_copy_dataset_if_requested'), ('context manager', 'resqpy/model/_context.py:ModelContext')],
     [('epc zip and paired h5', 'the dataset on disk', 'filesystem'), ('modified', 'unsaved changes flag', 'resqpy/model/_model.py')], ['zip members, [Content_Types].xml, _rels, h5 datasets, Model()'])

prop('C04', 'Copying objects between models brings exactly what they need',
     'Copying an object, or all objects, from one model into another makes the target contain each of them (or, when consolidating, an equivalent already resident object) together with everything they refer to, directly or indirectly, with identical content and array data, '
     'with every reference pointing at an object present in the target, and with relations equal to those of the source among the objects present. '
     'Objects not needed are not copied, nothing already resident is altered or duplicated, copying again changes nothing, and the source is unchanged.',
     ['histories', 'inputs'], 'every pair of models, every order of copying, with and without consolidation, forcing and realization numbering',
     'Tests copy a fixture grid model or two; reference graphs with sharing, equivalents at different depths and repeated copies are not explored.',
     ['resqpy/model/_forestry.py', 'resqpy/olio/consolidation.py', 'resqpy/olio/write_hdf5.py'],
     [('copy with closure', 'resqpy/model/_forestry.py:_copy_part_from_other_model,_copy_referenced_parts'), ('equivalence map', 'resqpy/olio/consolidation.py:Consolidation'), ('array copy', 'resqpy/olio/write_hdf5.py:copy_h5_path_list')],
     [('consolidation.map', 'immigrant to resident uuid map', 'resqpy/olio/consolidation.py')], ['Model.copy_part_from_other_model, copy_uuid_from_other_model, copy_all_parts_from_other_model'])

prop('C05', 'Stored arrays are read back exactly, whole or in part',
     'An array written for an object is read back with the same shape and values, and the requested or original type, whether read whole, as a slice, or element by element, and whatever chunking, compression, packing of bits or integer shortening was requested for it. '
     'Overwriting an array or part of one changes exactly that; appending, copying, filtered copying and uuid changes between array files move exactly the named arrays; and access works with any interleaving of open handles and modes without disturbing other arrays.',
     ['histories', 'inputs', 'configurations'], 'every history of writes, overwrites, copies and reads in any access mode over any shapes and types',
     'Tests write a few float arrays once and read them whole; type, shape, mode and access order combinations are not covered.',
     ['resqpy/olio/write_hdf5.py', 'resqpy/model/_hdf5.py', 'resqpy/olio/dataframe.py'],
     [('registered writes', 'resqpy/olio/write_hdf5.py:H5Register.write'), ('element and slice reads', 'resqpy/model/_hdf5.py:_h5_array_element,_h5_array_slice'), ('file copies', 'resqpy/olio/write_hdf5.py:copy_h5*')],
     [('h5 file content', 'datasets by path', 'filesystem'), ('h5_currently_open_*', 'cached file handle', 'resqpy/model/_model.py')], ['Model.h5_*, H5Register, copy_h5*'])
prop('C06', 'Objects are read back with the attributes they were made with',
     'A feature, interpretation, stratigraphic column, rank or unit, coordinate reference system, measured depth datum, time series, property kind or string lookup that has been stored is read back, '
     'in the same session or after saving and reopening, with the class, title (defaulted and suffixed as documented), originator, attributes (including absent ones, ages, periods of occurrence, ordered relations and contacts), extra metadata and references it was made with. '
     'A string lookup answers both ways with exactly the entries set so far, whatever their keys and the order of setting.',
     ['inputs', 'histories'], 'every class, every combination of attribute values, any text, any order of setting lookup entries',
     'Each class is tested with one or two instances; optional attributes absent together, unusual text and gaps in lookups are not.',
     ['resqpy/organize', 'resqpy/strata', 'resqpy/crs.py', 'resqpy/time_series', 'resqpy/property/string_lookup.py', 'resqpy/property/property_kind.py', 'resqpy/well/_md_datum.py', 'resqpy/olio/base.py'],
     [('generic object', 'resqpy/olio/base.py:BaseResqpy'), ('writing and reading of each class', 'create_xml, _load_from_xml'), ('period of occurrence', 'resqpy/organize/_utils.py')],
     [('xml of the object', 'what is stored', 'Model.root')], ['attributes of the loaded objects'])

prop('C07', 'Equivalent objects are recognised and reused, others are not',
     'Two objects of the same class compare equal exactly when they are the same object or agree in every attribute deemed to matter: class specific attributes, title (for the classes where it matters), extra metadata unless it is left aside, '
     'and the equivalence (or, for generic interpretations, identity) of the objects they refer to; comparison is symmetric and agrees with inequality. '
     'Storing an object with reuse takes the uuid of an equivalent stored object, adding nothing, when there is one, and otherwise adds it; so a model built with reuse never holds two equivalent objects.',
     ['histories', 'inputs'], 'every sequence of objects stored with or without reuse, differing in any combination of attributes',
     'Tests compare a few hand picked pairs; reuse is tried right after making an identical object and not among near misses.',
     ['resqpy/olio/base.py', 'resqpy/organize', 'resqpy/strata', 'resqpy/crs.py', 'resqpy/time_series', 'resqpy/property'],
     [('reuse', 'resqpy/olio/base.py:BaseResqpy.try_reuse'), ('comparison', 'is_equivalent of each class'), ('extra metadata', 'resqpy/organize/_utils.py:equivalent_extra_metadata')],
     [('model catalogue', 'stored objects', 'resqpy/model/_model.py')], ['uuid after create_xml, ==, is_equivalent'])

prop('C08', 'Property collections hold and select the right properties with right attributes',
     'A property added to a model, singly or in a batch or as similar to another, is reported by every collection it is in, in the session and after reopening, with the title, kind (standard, local, or derived from the title), facet, realization, time index and series, unit, lookup, '
     'indexable element, count, null and constant value, extremes (nulls left out), extra metadata and support it was made with. A collection for a support holds exactly the properties of that support; selection by any conjunction of criteria, including any and none values, title modes and related objects, '
     'gives exactly the members that satisfy all of them; lists and flags summarise exactly the members; adding, dropping, inheriting and property sets change the membership exactly as asked.',
     ['histories', 'inputs'], 'every set of properties, every conjunction of criteria, every history of building collections',
     'Tests filter a fixture collection by one or two criteria; combinations, absent values, several supports and order of addition are not covered.',
     ['resqpy/property'],
     [('selection', 'resqpy/property/_collection_add_part.py:_add_selected_part_from_other_dict'), ('membership', 'resqpy/property/property_collection.py'), ('xml', 'resqpy/property/_collection_create_xml.py')],
     [('collection.dict', 'attributes of each member', 'resqpy/property/property_collection.py'), ('property xml', 'stored attributes', 'Model.root')],
     ['PropertyCollection selection, list and inherit methods; Property.from_array; add_cached_array_to_imported_list'])
prop('C09', 'Property arrays are read, sliced, overwritten, stacked and normalized faithfully',
     'However a property array is written (element type, bit packing, chunking, compression, constants kept or expanded, batches, imported lists inherited from another collection), every later read of it, whole, by slice, as a Property or through any collection, has the shape its indexable element, direction, count and points flag call for and the values given, '
     'as last changed: an overwritten slice changes exactly those elements in the file, and in the cache of that collection when asked to; a cached array is handed out until uncached, and is private to its collection. Masks hold exactly the inactive elements and, when asked, the null values. Arrays over facets, realizations or times have each member at its place (sorted, or by number with gaps filled) '
     'and refuse ambiguous members; normalized arrays map the range (true, masked, trusted or with zero pinned) onto 0 to 1; sampled and face reordered arrays take each value from the right place.',
     ['histories', 'inputs'], 'every shape, type and option of writing, every history of reading, overwriting and uncaching over several collections',
     'Tests write and read a few arrays of one shape; the interplay of caches, overwrites, packing, counts, constants and gaps in stacks is not covered.',
     ['resqpy/property', 'resqpy/olio/write_hdf5.py', 'resqpy/model/_hdf5.py'],
     [('reading', 'resqpy/property/_collection_get_attributes.py:_cached_part_array_ref_get_array'), ('stacks, normalizing', 'resqpy/property/property_collection.py'), ('writing', 'resqpy/property/property_collection.py:write_hdf5_for_imported_list')],
     [('cached arrays', 'array held by a collection for a part', 'PropertyCollection.__dict__'), ('hdf5 datasets', 'stored array', 'the hdf5 file'), ('extremes', 'range of values', 'PropertyCollection.dict')],
     ['PropertyCollection cached_part_array_ref, single_array_ref, h5_slice, h5_overwrite_slice, *_array_ref, normalized_part_array, masked_array, combobulated_face_array; Property.array_ref, from_array; write_hdf5_for_imported_list'])
prop('C10', 'Time series keep, order, locate, measure and merge their timestamps exactly',
     'A time series holds exactly the timestamps it was given: starting and counted steps, appended or inserted ones (appending is refused unless later), extensions by days or durations, lists in any order (repeats refused), geologic years, and the steps of a nexus summary file. Written and loaded again it holds them in order of time, in human or geologic timeframe. '
     'For any timestamp, however formatted, the index equal to, not later than, not earlier than and closest to it are exact, and none where there is none; timestamps by positive or negative index, counts and iteration agree. Durations, days and steps between timestamps are calendar exact (leap years, centuries, month ends), as is a time after or before a duration; cleaned, simplified and colloquial forms are of the same moment. '
     'Merging gives the distinct moments of all, in order; selecting gives those chosen, in order; equivalence compares moment by moment within the tolerance.',
     ['inputs', 'histories'], 'all sequences of building, extending, querying, merging and reloading series in both timeframes, over all calendar dates and formats',
     'Tests look at a few evenly spaced series; calendar boundaries, mixed formats, searches outside the range, repeats and gaps are not covered.',
     ['resqpy/time_series'],
     [('human time', 'resqpy/time_series/_time_series.py'), ('merging', 'resqpy/time_series/_functions.py:merge_timeseries_from_uuid'), ('durations', 'resqpy/time_series/_time_duration.py')],
     [('timestamps', 'list of timestamps', 'AnyTimeSeries.timestamps'), ('timeframe', 'human or geologic', 'AnyTimeSeries.timeframe')],
     ['TimeSeries add_timestamp, extend_by_*, index_for_timestamp*, duration/days/step; GeologicTimeSeries.from_year_list; TimeDuration; time_series_from_list, selected_time_series, merge_timeseries_from_uuid, time_series_from_nexus_summary, any_time_series; cleaned/simplified_timestamp, colloquial_date'])
prop('C11', 'Grid connection sets hold, select, merge and export exactly their pairs of faces',
     'A grid connection set holds exactly the pairs of cells and faces given by face masks and sides, kelp strands, cell face indices (duplicates removed, properties in step), the skin of a cell set, a dataframe or simulator table of faces (external faces left out), with a feature for each name; written and loaded again it is the same, with its properties. '
     'Appending, merging, selecting by layers, cells or feature, and removing unused features keep each pair with its own feature and its own property values; inheriting features gives a pair the feature found on one of its faces. Column edge, combined mask and grid face arrays, combined multipliers, column maps, transmissibilities, triangulated surfaces and simulator files each show for every pair, and only for those, its own faces, feature and values. '
     'Connections across pinched out layers and closed K gaps are found exactly.',
     ['inputs', 'histories'], 'all grids, sets of faces, features and properties, and sequences of building, selecting, combining, writing and loading',
     'Tests use one or two faults on one small grid; several features, repeated faces, unused features, single limits, multipliers that vary and stacked pinchouts are not covered.',
     ['resqpy/fault'],
     [('connection sets', 'resqpy/fault/_grid_connection_set.py'), ('pinchouts, skins, maps, multipliers', 'resqpy/fault/_gcs_functions.py')],
     [('pairs', 'cell and face indices', 'GridConnectionSet.cell_index_pairs, face_index_pairs'), ('features', 'feature of each pair', 'GridConnectionSet.feature_indices, feature_list')],
     ['GridConnectionSet constructors, set_pairs_*, append, single_feature, filtered_by_*, inherit_*, get_*_arrays, grid_face_arrays, tr_property_array, write_simulator; pinchout_connection_set, k_gap_connection_set, cell_set_skin_connection_set, combined_tr_mult_from_gcs_mults, grid_columns_property_from_gcs_property'])
prop('C12', 'Refinement mappings put fine cells in their coarse slices; boxes trim to boxes',
     'A fine to coarse mapping whose ratios have been set, constant or by slice, with or without a window and at any time, puts each fine cell of an axis in the coarse slice given by the present ratios; its fine boxes, bases, first columns and pillars, proportions (normalised weights, or equal), interpolation fractions and CARTREF text follow the same ratios; settings that do not fit the extents are refused and leave the mapping as it was. '
     'A tartan refinement has the fovea ratio in the fovea, whole ratios of at least one that do not increase away from it, and the given linear or exponential decay, or for linear by default, on each side, a straight line from the fovea ratio to one at the outer edge of the grid. A mapping kept as the parent window of a grid, refined or coarsened, is the same when the grid is loaded. '
     'Extents, volumes, centres, texts, validity, unions and local indices of boxes agree with the cells in them; trimming a box by another, or to its mask, removes the fewest cells that leave one box, and the mask with it.',
     ['inputs', 'histories'], 'all extents, ratios, weights, windows, boxes and masks, and sequences of setting, asking, writing and loading',
     'Tests set each mapping once with one or two ratios and trim a few boxes; changing ratios after use, several windows, coarsening by slice and overlaps in the middle of a box are not covered.',
     ['resqpy/olio/fine_coarse.py', 'resqpy/olio/box_utilities.py', 'resqpy/grid'],
     [('mapping and tartan refinement', 'resqpy/olio/fine_coarse.py'), ('boxes', 'resqpy/olio/box_utilities.py'), ('parent window', 'resqpy/grid/_extract_functions.py, _create_grid_xml.py, _write_hdf5_from_caches.py')],
     [('ratios and proportions', 'per axis', 'FineCoarse.constant_ratios, vector_ratios, vector_proportions'), ('window', 'box in a larger grid', 'FineCoarse.within_coarse_box, within_fine_box')],
     ['FineCoarse, tartan_refinement, Grid.set_parent, Grid.extract_parent, functions of box_utilities'])
prop('C13', 'Geometry of boxed, refined, coarsened, zonal, copied and mended grids',
     'A grid made from another, in the same package or a new one, has for every cell the corners that the derivation says, exactly, and the same once the package is loaded again. extract_box: the corners, K gaps, defined flags and inactive flags of the box (and of box_inactive). '
     'refined_grid: corners of fine cells are trilinear in the coarse cell, by the proportions of the mapping, K gaps stay between the coarse layers. coarsened_grid: outer corners of the outer fine cells. '
     'zonal_grid and single_layer_grid: the top of the first layer and the base of the last layer of each zone, inactive if all (laissez faire) or any of its layers are; zone ranges, also by zone_layer_ranges_from_array and zone_layer_ranges, are those of the common or commonest zone of the active cells of each layer, layers without active cells going to the zone below. '
     'copy_grid is the same grid; unsplit_grid has at each pillar the mean of the columns around; interpolated_grid is linear between grids of the same split and inactive where both are. '
     'A parent window, and a grandparent window when asked for, is kept. Source grid, its properties and the arguments are left as they were. Extents that do not fit, coarsening of faulted grids or grids with gaps, unsplit of an unsplit grid and broken zones are refused.',
     ['inputs', 'histories'], 'all small grids with faults, K gaps, undefined and inactive cells, and chains of derivations from them',
     'Tests derive from a few regular or faulted grids and look at extents or a few points; unequal proportions by slice, boxes beside multiply split pillars, K gaps, chained derivations and parent windows are not covered.',
     ['resqpy/derived_model', 'resqpy/grid'],
     [('boxes', 'resqpy/derived_model/_extract_box.py'), ('refinement and coarsening', 'resqpy/derived_model/_refined_grid.py, _coarsened_grid.py'), ('zones', 'resqpy/derived_model/_zonal_grid.py, _zone_layer_ranges_from_array.py, _add_zone_by_layer_property.py'),
      ('others', 'resqpy/derived_model/_copy_grid.py, _unsplit_grid.py, _interpolated_grid.py')],
     [('corners', 'per cell', 'Grid.points_ref, corner_points'), ('gaps and flags', 'arrays', 'Grid.k_gap_after_array, inactive, cell_geometry_is_defined_ref'), ('window', 'mapping', 'Grid.parent_window, parent_grid_uuid')],
     ['extract_box, refined_grid, coarsened_grid, zonal_grid, single_layer_grid, copy_grid, unsplit_grid, interpolated_grid, zone_layer_ranges_from_array, add_zone_by_layer_property'])
prop('C14', 'Properties inherited by boxed, refined, coarsened and copied grids',
     'When a grid is made with inherit_properties (extract_box, refined_grid, coarsened_grid, tilted_grid, interpolated_grid, local_depth_adjustment, or extend_imported_list_copying_properties_from_other_grid_collection), the new grid has, in the package: with a realization given, only the properties of that realization; without, those without realization, or all if all realizations are asked for. '
     'Each has the title, kind, local kind, facet, uom, realization, time index and series, indexable element, count, null value, string lookup and constant of the source, and objects it refers to are in the package, also when that is a new one. '
     'Copies have the values of the source; a box has those of its cells, columns or layers (other elements are not inherited); a refined grid has, for single valued cell properties, that of the coarse cell, cell lengths scaled along their axis by the proportions; a coarsened grid has, for single valued cell properties, '
     'the sum of rock volume, net to gross weighted by rock volume, porosity and permeability by net volume, saturation by net pore volume (0 at zero weight), cell lengths summed along their axis and averaged across, other continuous ones weighted by rock volume, discrete ones those of the first fine cell. '
     'Weights are properties of the same realization, else (all realizations) those without, else geometric volumes and 1. Properties of the source grid are left as they were.',
     ['inputs', 'histories'], 'all small grids with properties of all classes, elements and realizations, and chains of derivations from them',
     'Tests inherit a few cell properties from regular grids by whole number ratios; realizations, facets, time indices, non-cell elements, constants, weights by realization, zero weights, unequal proportions and new packages are not covered together.',
     ['resqpy/property', 'resqpy/derived_model'],
     [('copying between collections', 'resqpy/property/_collection_add_part.py, grid_property_collection.py, _collection_get_attributes.py'), ('coarsening and refinement', 'resqpy/property/grid_property_collection.py'),
      ('inheritance by derived grids', 'resqpy/derived_model/_common.py, _extract_box.py, _refined_grid.py, _coarsened_grid.py')],
     [('parts of the collection', 'xml of properties', 'PropertyCollection.parts, ..._for_part'), ('values', 'arrays', 'PropertyCollection.cached_part_array_ref'), ('referenced objects', 'parts', 'Model.part_for_uuid')],
     ['extract_box, refined_grid, coarsened_grid, tilted_grid, interpolated_grid, local_depth_adjustment with inherit_properties', 'GridPropertyCollection.extend_imported_list_copying_properties_from_other_grid_collection'])
prop('C15', 'Conversion of points between coordinate reference systems',
     'A point converted from one coordinate reference system to another is the same place: axes (any valid axis order), a rotation (positive is clockwise from the parent, in degrees or radians), the origin given along the unrotated axes, z upwards or downwards and the units of xy, of z and of time are all applied, '
     'whether for one point or in situ for an array of any shape (also a view), by conversion to or from, and by local_to_global and global_to_local with any global axis order and z direction; conversions one after the other give what the direct one gives, and there and back gives the original. Systems of depth and of time are not converted into each other (refused). is_right_handed_xyz is right. '
     'change_crs of a point set or surface with any number of patches converts every point once, keeps patches and triangles, and notes the new system, in memory and once stored; a point set from polylines of different systems has all points in that of the first and leaves the polylines as they were. '
     "A grid's local_to_global_crs and global_to_local_crs agree with its system (easting northing axes) including global units and z direction, and xyz_box gives the least and greatest coordinates, local or global, whichever was asked for before.",
     ['inputs', 'histories'], 'all axis orders, directions, quarter turns and 3-4-5 rotations, small integer offsets, pairs and chains of systems',
     'Tests convert a few points between a few systems, mostly with rotations or offsets but not all together, and compare there and back rather than with an independent result.',
     ['resqpy/crs.py', 'resqpy/grid', 'resqpy/surface', 'resqpy/weights_and_measures'],
     [('systems', 'resqpy/crs.py'), ('grids', 'resqpy/grid/_xyz.py, _regular_grid.py'), ('point sets and surfaces', 'resqpy/surface/_pointset.py, _surface.py')],
     [('points', 'arrays', 'arguments and results of the conversions'), ('objects', 'patches', 'PointSet.single_patch_array_ref, Surface.triangles_and_points, crs_uuid')],
     ['Crs.convert_to, convert_from, convert_array_to, convert_array_from, local_to_global, global_to_local and array forms', 'PointSet.change_crs, Surface.change_crs, PointSet(polyset)', 'Grid.local_to_global_crs, global_to_local_crs, xyz_box'])
prop('C16', 'Geometry of grids follows from their points, whatever was asked before',
     'For a grid of any extent, with split pillars, gaps between layers, pillars or cells without geometry, cells of no thickness or columns of no extent, explicit or parametric points, either handedness and z direction and mixed units: corner points, points, centres of cells and faces, interface vectors and lengths, bounding boxes, outlines, interpolated points, thicknesses, '
     'pinched out flags and counts, signed volumes (cells with bilinear faces) in any unit, defined, inactive and count flags, horizons (plain, split and healed), cross sections (plain, with splits, with gaps), ends of coordinate lines, column pillar mapping, split faces of columns and distance to them, throws, pillar shape, natural indices, boxes, nearest pillar and cell for a point are exactly those that follow from its points, '
     'for one cell or all, cached or not, in whatever order they are asked; an earlier answer is not altered by later requests. Volumes and thicknesses stored as properties are used with their own units. set_cached_points_from_property gives the geometry, and where asked the active cells, of the property. '
     'A regular grid (aligned either way, general lattice, from mesh, as irregular, stored as lattice, by lengths or explicitly) answers as the grid of its points would; its origin is counted once.',
     ['inputs', 'histories'], 'extents up to 4 3 3, whole coordinates, any mixture of 45 kinds of request with their caching options',
     'Tests ask single questions of a few grids, mostly regular or unfaulted, with default caching; the answer to a question after others, with gaps, splits and undefined pillars together, is not sampled.',
     ['resqpy/grid', 'resqpy/olio/volume.py', 'resqpy/olio/grid_functions.py'],
     [('points', 'resqpy/grid/_points_functions.py, _defined_geometry.py'), ('cells', 'resqpy/grid/_grid.py, _cell_properties.py'), ('volumes', 'resqpy/olio/volume.py'), ('faults', 'resqpy/grid/_faults.py'), ('regular grids', 'resqpy/grid/_regular_grid.py')],
     [('points', 'coordinates of corners, centres and sections', 'points_ref, corner_points, ...'), ('measures', 'sizes of cells', 'volume, thickness, interface_length'), ('flags', 'state of cells', 'pinched_out, cell_inactive, ...')],
     ['Grid.corner_points, centre_point, face_centre, interface_vector, volume, thickness, pinched_out, point_areally, bounding_box, interpolated_points, horizon_points, x_section_corner_points, ...',
      'Grid.set_cached_points_from_property', 'RegularGrid and its conversion and storage', 'grid_functions.columns_to_nearest_split_face'])
prop('C17', 'Surfaces, meshes and point sets hold the triangles and points they should',
     'A triangulated surface made from triangles and points (one patch or several, also when it was something else before), a mesh (regular, irregular, sparse, torn; 2 or 4 triangles per quadrilateral), corner points of cells, a horizontal plane, a triangle, a pair, a GOCAD file, or by trimming to a box or convex polygon (triangles with a corner within are kept), splitting along a line or quartering, holds exactly those triangles and points in order; '
     'vertical rescaling, change of crs and making clockwise change just what they say; patches, composite arrays, counts, distinct edges and uses, edge lengths in any unit, normals, crossings of a plane, z at xy points by each handling of multiples, line intersection, column or cell face of a triangle, combined surfaces, NaN removal and distillation follow from them, after any earlier requests. '
     'A Mesh of any flavour (explicit, regular, reg&z, ref&z; from arguments, zmap or rms file, column property of regular grid) has the points given; a TriMesh likewise: triangle at a point, weights, interpolated z, triangle corners and numbering, nodes in triangles, crossings of a value in x, y or z, compatibility and stencils (plain or NaN aware, normalised or not). '
     'A PointSet holds the points of its patches, polylines or files; trimming, crs change and smallest rectangle apply to all. Stored objects read back with the same points, role, title, metadata and crs; a ref&z mesh is related to its supporting mesh.',
     ['inputs', 'histories'], 'up to 25 triangles in 3 patches, meshes up to 6 by 6, coordinates in eighths, up to 15 requests',
     'Tests build one surface or mesh each way from a few numbers and ask one question of it; caching across changes, several patches, missing points and stencils at edges are hardly touched.',
     ['resqpy/surface'],
     [('surfaces', 'resqpy/surface/_surface.py, _triangulated_patch.py, _combined_surface.py'), ('meshes', 'resqpy/surface/_mesh.py, resqpy/olio/zmap_reader.py'), ('triangular meshes', 'resqpy/surface/_tri_mesh.py, _tri_mesh_stencil.py'), ('sets of points', 'resqpy/surface/_pointset.py')],
     [('patches', 'triangles and points of each patch', 'patch_list'), ('points', 'points of mesh or patch', 'full_array, patch_array_list'), ('heights', 'z of nodes of tri mesh', 'full_array')],
     ['Surface constructor, set_from_..., set_to_..., resampled_surface, vertical_rescale_points, change_crs, make_all_clockwise_xy, triangles_and_points, distinct_edges_and_counts, sample_z_at_xy_points, line_intersection, ...', 'CombinedSurface',
      'Mesh constructor, from_regular_grid_column_property, full_array_ref, surface, write_hdf5, create_xml', 'TriMesh, TriMeshStencil', 'PointSet constructor, add_patch, trim_to_..., change_crs, convert_to_..., minimum_xy_area_rectangle'])
prop('C18', 'Polylines and triangulations answer as plane geometry says',
     'For a polyline (open or closed, straight pieces, any turn of the axes): number and lengths of segments (in xyz or xy), midpoints, point at a fraction of its length, equally spaced points, balanced centre, scaling, nearest segment and distance, snapping, point of segment at xy, first crossing with a (half) line, crossings with another polyline, trimming, convexity, clockwise or not, outward normals, area, splines (passing through all knots), convex hull and normalised position there and back are what geometry says; a point not on an edge is inside by crossing or winding number as defined, one by one or many at once; a set answers with the first closed polyline holding the point. '
     'Polylines, and sets made from polylines or read from irap or charisma files, have the given points and closedness after storing and reloading and after export and reading again (charisma holds open lines). '
     'A Delaunay triangulation covers the hull of the points once with no point within a circumcircle, and its boundary is given clockwise; edges, uses, rims and triangles using points or edges follow from triangles; cells of a Voronoi diagram, when all circumcentres are within the area of interest, are clockwise and hold just the points nearest to their seed; fans of polygons, clockwise triangles, rings, reorientation (a rotation taking the normal to z; level for a plane) and surfaces from point sets with or without flange (flange flags say which triangles use added points; clockwise in the plane of triangulation) are as documented.',
     ['inputs', 'histories'], 'lines of up to 9 points, whole coordinates up to 9 (neat lengths where lengths matter), sets of up to 4; 3 to 12 points of a plan up to 40 wide, up to 12 requests',
     'Tests use a square or one star, one set of file contents, and count triangles; collinear points, edges met at ends, mixed sets and degenerate (cocircular) points are hardly touched.',
     ['resqpy/lines', 'resqpy/olio'],
     [('polylines', 'resqpy/lines/_polyline.py, _common.py'), ('sets', 'resqpy/lines/_polyline_set.py'), ('inside polygons', 'resqpy/olio/point_inclusion.py'), ('intersections', 'resqpy/olio/intersection.py'), ('triangulation', 'resqpy/olio/triangulation.py, vector_utilities.py')],
     [('coordinates', 'points of line', 'coordinates, isclosed'), ('lines of set', 'polylines in order', 'polys'), ('triangles', 'corners of each triangle', 't')],
     ['Polyline constructor, is_convex, is_clockwise, point_is_inside_xy, points_are_inside_xy, first_line_intersection, closest_segment_and_distance_to_point_xy, equidistant_points, trimmed_polyline, area, splined, ...', 'PolylineSet constructor, convert_to_irap, convert_to_charisma, poly_index_containing_point_in_xy', 'dt, voronoi, edges, rims, triangulated_polygons, reorient, surrounding_xy_ring', 'Surface.set_from_point_set'])
prop('C19', 'Surveys, trajectories, frames and markers keep and answer what defined them',
     'A trajectory made from a deviation survey starts at the first station and, for every interval, moves by the minimum curvature displacement of its two stations (tan(b/2)/b times measured depth times the sum of the two directions, b being the angle between them; the straight step when the directions are the same, whatever the azimuths), azimuths being clockwise from +y and inclinations from vertically down, in degrees or radians as the survey says, turned into the units and z direction of the crs. '
     'Surveys (from arrays, dataframe, csv or space separated text with comments and chosen column names), trajectories (from arrays, dataframe or text, also one well of several in a file), frames and marker frames keep measured depths, angles, points, units, md domain, first station, datum (location, reference, crs), interpretation, survey, title, tangents present or not and markers (order, type, title, interpretation) after storing and opening again; a trajectory lists just its own frames. '
     'The location at a measured depth lies on the straight line between the knots either side, or between datum and first knot when shallower than that; none is given when negative or beyond the last knot. Inclinations of intervals are angles from vertically down. A splined trajectory passes through all knots with at least the asked number of pieces each, measured depths adding up lengths from the start. '
     'A frame says in which interval a measured depth lies and the fraction of the way through. Marker dataframes give locations on the trajectory; the first marker of an interpretation is found, and markers by position. Two datums are equivalent just when location, reference and crs are the same. '
     'All wells of a table are imported, each with feature, interpretation, datum (first point when its measured depth is zero, else below or above at z zero) and its own rows; LAS logs get frames at depths converted to trajectory units, with their values.',
     ['inputs', 'histories'], 'surveys of 2 to 5 stations at multiples of 30 degrees, trajectories of up to 6 knots at whole coordinates up to 1.6 million, m or ft, z up or down, 8 to 16 requests with reopening between',
     'Tests compare a few reloaded arrays, one vertical and one curved survey in metres and degrees with z down, and never query across knots, units, or reloaded surveys.',
     ['resqpy/well'],
     [('surveys', 'resqpy/well/_deviation_survey.py'), ('trajectories', 'resqpy/well/_trajectory.py'), ('frames', 'resqpy/well/_wellbore_frame.py'), ('markers', 'resqpy/well/_wellbore_marker_frame.py, _wellbore_marker.py'), ('imports', 'resqpy/well/well_object_funcs.py'), ('datums', 'resqpy/well/_md_datum.py')],
     [('trajectory', 'measured depths and points of knots', 'measured_depths, control_points'), ('survey', 'stations', 'measured_depths, azimuths, inclinations'), ('frame', 'depths of nodes', 'node_mds'), ('markers', 'markers in order', 'marker_list')],
     ['DeviationSurvey constructor, from_data_frame, from_ascii_file', 'Trajectory constructor, xyz_for_md, inclinations, splined_trajectory, dataframe, write_to_ascii_file, iter_wellbore_frames', 'WellboreFrame.interval_for_md', 'WellboreMarkerFrame.from_dataframe, dataframe, find_marker_index_from_interp', 'add_wells_from_ascii_file, add_las_to_trajectory', 'create_xml, write_hdf5, loading'])
prop('C20', 'Blocked wells hold just the cells their trajectories pass through',
     'A well blocked to a grid from its trajectory (with or without faults, pinched out layers, re-entry, a crs of its own, active cells only) has intervals with increasing measured depths, each blocked in one cell of the grid that is not pinched out (and is active when asked), or in none. Throughout a blocked interval the trajectory, straight between its knots, is inside that cell; at its start it is on the entry face and at its end on the exit face, the exit face being -1, -1 just when the trajectory ends in the cell. Wherever the trajectory is inside such a cell, the interval there is blocked in it; wherever it is outside of all, the interval is not blocked. '
     'A well made from a list of cells, dataframe, wellspec file (rows of that well and, when asked, that grid only) or column (leaving out pinched out and, when asked, inactive cells) has those cells in order; it enters the first by the K- face and each other by the face towards the previous cell (the greater of the J and I moves, I when equal), leaves towards the next, and the last by the face opposite to entry; its trajectory starts at depth zero above the first face, passes through the face centres (which for vertical wellspec angles are also the points on a line through the cell centres) in straight lines with lengths as measured depths in the length unit asked for, with unblocked intervals just where faces are apart, and goes on 10 deeper below the base of the grid. '
     'The cell at a measured depth, entry and exit depths, maps between intervals and cells, box and cell indices are those of the intervals. Dataframe and written wellspec rows are those of the cells within the layer, activity, depth (of cell centre), region, length and perforation limits, in order, with length (measured depth, or straight between the ends or face centres) of the perforated part, mid measured depth and location, depth positive down or as z, fraction perforated and permeability thickness (length times permeability), in the unit asked for; total permeability thickness is their sum. '
     'Frame contributions are the overlaps as fractions of frame interval and of cell interval. Grid property values carried over are those of the cells. Storing and opening again changes nothing.',
     ['inputs', 'histories'], 'lattice grids up to 4 x 3 x 3 with throws, thin layers and inactive cells, z up or down, trajectories of up to 6 knots passing 0.6 clear of cell edges, m and ft, up to 3 wells and 5 further requests',
     'Tests block a few wells to fixed grids and compare cell counts; which cells a path meets, by which faces and at what depths, has to hold for every path, fault and re-entry.',
     ['resqpy/well'],
     [('blocking from trajectory', 'resqpy/well/_blocked_well.py compute_from_trajectory, resqpy/well/well_object_funcs.py, resqpy/grid_surface/_trajectory_intersects.py, _blocked_well_populate.py'), ('from cells', 'resqpy/well/_blocked_well.py derive_from_dataframe'), ('tables', 'resqpy/well/_blocked_well.py dataframe, write_wellspec'), ('frame contributions', 'resqpy/well/blocked_well_frame.py')],
     [('grid', 'planes, depths, throws, inactive cells', 'grid corner points'), ('trajectory', 'knots and measured depths', 'control_points, measured_depths'), ('blocked well', 'node measured depths, grid indices, cells, faces', 'node_mds, grid_indices, cell_indices, face_pair_indices')],
     ['BlockedWell constructor, compute_from_trajectory', 'derive_from_cell_list, derive_from_dataframe, derive_from_wellspec, set_for_column', 'wb_cell_for_md, entry_and_exit_mds, map_cell_and_grid_indices, box', 'dataframe, write_wellspec, static_kh', 'frame_contributions_list', 'add_grid_property_to_blocked_well', 'create_xml, write_hdf5, loading'])
prop('C21', 'Cell faces found for a surface are those its triangles pass through',
     'The faces found to represent a triangulated surface in a grid (any of the regular, optimised, dense and staffa methods, or the automatic choice between them; grid centres taken in the grid crs, surface in a crs of its own with the same parent) are exactly those between neighbouring cells such that the straight line between the two cell centres passes through a triangle, each once, with its two cells on either side, whatever else was found with the same surface before; slight agitation makes no difference when no line passes close to an edge or a centre to a triangle. As a curtain only the top layer is tested, for J and I faces, the result being repeated in every layer. The optimised method returns None when there are none. '
     'Values returned for a face belong to one triangle that crosses its line: triangle index, offset from the mid point of the line in z units, depth being z of the crossing (that of the cell centres for J and I faces), normal of unit length in true lengths towards lesser z. With consistent sides, for a surface without folds, all first cells of pairs are on one side. '
     'The bisector of the grid holds, raw, the cells that can be reached from the first cell without crossing a face, and otherwise whichever of that part and the rest has the lesser mean layer (that part when equal); it is given for columns when and only when it is the same in every layer, and an AssertionError is raised when nothing is cut off; for a curtain it is the columns that can be reached in a layer from the first. The same goes for sets of faces given as arrays or as indices. '
     'The shadow of a set of K faces is 1 for cells with such faces only below in their column, 2 only above, 3 both, 0 neither (everywhere when there are none). The function for use with multiple processing leaves a package with the same grid connection set, face properties (depths with z downwards from the datum) and grid properties, for cells or columns, and reports lack of success when there are no faces.',
     ['inputs', 'histories'], 'regular grids up to 36 cells and lattice grids with throws, surfaces of up to 8 triangles (sheets, curtains, closed, loose) with lines at least slightly clear of edges and centres of triangles, m and dm, z up or down, offsets, up to 8 requests; sets of faces in grids up to 5 x 5 x 5',
     'Tests intersect a few fixed surfaces with one grid and compare counts between methods; which faces are crossed, and the values for each of them, have to hold for every surface, crs and grid shape.',
     ['resqpy/grid_surface', 'resqpy/fault', 'resqpy/multi_processing', 'resqpy/olio'],
     [('finding faces', 'resqpy/grid_surface/_find_faces.py find_faces_to_represent_surface and the functions it chooses between'), ('bisectors and shadows', 'resqpy/grid_surface/_find_faces.py bisector_from_faces, bisector_from_face_indices, column_bisector_from_faces, shadow_from_faces'), ('triangles over rows of points', 'resqpy/olio/vector_utilities.py points_in_triangles_aligned_unified, points_in_triangles'), ('pairs of cells', 'resqpy/fault/_grid_connection_set.py from_faces_indices, set_pairs_from_face_masks'), ('packages', 'resqpy/multi_processing/wrappers/grid_surface_mp.py')],
     [('grid', 'cell centres', 'centre_point, block_dxyz_dkji'), ('surface', 'triangles', 'triangles_and_points'), ('faces', 'pairs of cells and faces', 'cell_index_pairs, face_index_pairs'), ('parts', 'bisector and shadow', 'grid bisector, grid shadow')],
     ['find_faces_to_represent_surface (all modes but cuda)', 'bisector_from_faces, bisector_from_face_indices', 'column_bisector_from_faces, column_bisector_from_face_indices', 'shadow_from_faces, shadow_from_face_indices', 'find_faces_to_represent_surface_regular_wrapper'])
prop('C22', 'Unstructured cells have the faces, nodes and volumes that bound them',
     'For an unstructured grid (general, tetrahedral, pyramidal, prism, vertical prism or hexahedral, new or read back by its own class, UnstructuredGrid or any_grid), with sound geometry: counts, bounding box, face and node indices of a cell (the four sided face first for a pyramid of the Pyramid class), handedness of each, distinct nodes and edges of a cell, edges of a face, centres of faces and cells (mean of nodes; mean of face centres, or of nodes for a vertical prism) and cells using each face (all, or leaving out masked cells) are those of the definition; external faces have one user, internal two. Storing and reading back keeps nodes, faces, cells, handedness, cell shape, class and which cells are inactive. '
     'A face is right handed for a cell when its nodes are clockwise seen from within the cell. The volume of a cell is that within its faces, positive, in m3 or ft3 or as asked, with faces of four nodes being bilinear for Tetra, Pyramid and Hexa classes and cells with flat faces for the others. A flat face has a unit normal along its area vector in true lengths, stays where it is when made planar, and has its own area; a face is cut into N - 2 triangles which share no area, whatever the orientation. A cell made into tetrahedra gives tetrahedra that fill it, each face of which is shared by two or is part of a face of the cell, rightly handed when asked for. '
     'A HexaGrid made from an unfaulted pillar grid has its points in the same order, cells in the same order, faces in order K-, K+, J-, J+, I-, I+, right handedness, properties and inactive cells of the pillar grid, for any handedness of grid and crs. A VerticalPrismGrid from surfaces has nodes at the points given (or of the first surface), layer by layer, at the depth of each surface or, where a surface is missing, that of the layer above, prisms between, column by column within layers; column count, top faces, triangulation and vertical thickness go with that, for one layer or more.',
     ['inputs', 'histories'], 'grids of up to 27 cells of boxes, prisms, pyramids, tetrahedra or hexagonal prisms under linear maps, jolted or flat, shuffled nodes and faces; m, dm and ft, any axis order of crs and z direction; up to 2 grids of 8 requests',
     'Tests look at a few fixed cells in one crs; relations between faces, handedness and volume have to hold for every shape, orientation, numbering and crs.',
     ['resqpy/unstructured', 'resqpy/olio'],
     [('cells and faces', 'resqpy/unstructured/_unstructured_grid.py UnstructuredGrid'), ('shapes', 'resqpy/unstructured/_tetra_grid.py, _pyramid_grid.py, _prism_grid.py, _hexa_grid.py'), ('volumes', 'resqpy/olio/volume.py pyramid_volume, tetrahedron_volume'), ('tilting of points', 'resqpy/olio/vector_utilities.py tilt_points, tilt_3d_matrix')],
     [('nodes', 'points', 'points_cached'), ('faces', 'nodes of each face', 'nodes_per_face, nodes_per_face_cl'), ('cells', 'faces of each cell and their handedness', 'faces_per_cell, faces_per_cell_cl, cell_face_is_right_handed'), ('inactive', 'cells left out of simulation', 'inactive')],
     ['write_hdf5, create_xml, any_grid', 'HexaGrid.from_unsplit_grid', 'VerticalPrismGrid.from_surfaces', 'TetraGrid.from_unstructured_cell', 'set_cell_face_is_right_handed_from_geometry', 'volume, centre_point, corner_points', 'face_normal, planar_face_points, face_triangulation, area_of_face', 'masked_cells_per_face, external_face_indices'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
