From 2200f17a9402f76e2b64f8d9c42dbf2d623b178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 001/192] fix: remove_part() no longer fails for parts without
 relations or without a relationships part

---
 resqpy/model/_forestry.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index feaa787..ec24129 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -478,15 +478,17 @@ def _remove_part(model, part_name, remove_relationship_part):
             related_parts = m_c._parts_list_filtered_by_related_uuid(model, m_c._list_of_parts(model),
                                                                      rqet.uuid_in_part_name(part_name))
             for relative in related_parts:
-                (rel_uuid, rel_tree) = model.rels_forest[rqet.rels_part_name_for_part(relative)]
+                _, rel_tree = model.rels_forest.get(rqet.rels_part_name_for_part(relative), (None, None))
+                if rel_tree is None:
+                    continue
                 rel_root = rel_tree.getroot()
-                for child in rel_root:
+                for child in list(rel_root):
                     if rqet.stripped_of_prefix(child.tag) != 'Relationship':
                         continue
                     if child.attrib['Target'] == part_name:
                         rel_root.remove(child)
             rels_part_name = rqet.rels_part_name_for_part(part_name)
-        model.rels_forest.pop(rels_part_name)
+        model.rels_forest.pop(rels_part_name, None)
     _del_uuid_to_part(model, part_name)
     _del_uuid_relations(model, part_name)
     model.parts_forest.pop(part_name)
@@ -499,7 +501,9 @@ def _del_uuid_relations(model, part_name):
     uuid = model.uuid_for_part(part_name)
     if uuid is None:
         return
-    relations = model.uuid_rels_dict[uuid.int]
+    relations = model.uuid_rels_dict.get(uuid.int)
+    if relations is None:
+        return
     for related_uuid_int in relations[0]:
         model.uuid_rels_dict[related_uuid_int][1].remove(uuid.int)
     for related_uuid_int in relations[1]:
@@ -507,7 +511,7 @@ def _del_uuid_relations(model, part_name):
     for related_uuid_int in relations[2]:
         value = model.uuid_rels_dict.get(related_uuid_int)
         if value is not None:
-            value[2].remove(uuid.int)
+            value[2].discard(uuid.int)
     model.uuid_rels_dict.pop(uuid.int)
 
 
-- 
2.43.0


From 9bff72031a4778f714c4c67d3d87959415cbbd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 002/192] fix: soft relationships are catalogued for parts
 having no other relations

---
 resqpy/model/_forestry.py | 5 ++---
 resqpy/model/_xml.py      | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index ec24129..5df29c4 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -214,9 +214,8 @@ def _add_uuid_soft_relations(model, uuid_int, part):
                 if relation_uuid_str is None:
                     return  # probably HDF5 external resource
                 relation_uuid_int = _hex_to_int(relation_uuid_str)
-                rels_sets = model.uuid_rels_dict.get(uuid_int)
-                if rels_sets is not None and relation_uuid_int not in rels_sets[
-                        0] and relation_uuid_int not in rels_sets[1]:
+                rels_sets = model.uuid_rels_dict.setdefault(uuid_int, (set(), set(), set()))
+                if relation_uuid_int not in rels_sets[0] and relation_uuid_int not in rels_sets[1]:
                     rels_sets[2].add(relation_uuid_int)
 
 
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index a0e5ffd..53da272 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -629,10 +629,10 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
     rel_uuid_a_int = rel_uuid_a.int
     rel_uuid_b_int = rel_uuid_b.int
 
-    value = model.uuid_rels_dict.get(rel_uuid_a_int)
-    if value is not None and rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_a_int, (set(), set(), set()))
+    if rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
         value[2].add(rel_uuid_b_int)
 
-    value = model.uuid_rels_dict.get(rel_uuid_b_int)
-    if value is not None and rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_b_int, (set(), set(), set()))
+    if rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
         value[2].add(rel_uuid_a_int)
-- 
2.43.0


From 37faca0df3fed36cbf46a6c436327e657cab2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 003/192] fix: adding a relationship or removing extra metadata
 marks the model as modified

---
 resqpy/model/_model.py | 1 +
 resqpy/model/_xml.py   | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/resqpy/model/_model.py b/resqpy/model/_model.py
index a46f921..8fce53f 100644
--- a/resqpy/model/_model.py
+++ b/resqpy/model/_model.py
@@ -2048,6 +2048,7 @@ class Model():
         """
 
         rqet.cut_extra_metadata(self.root_for_uuid(uuid))
+        self.set_modified()
 
     def copy_part_from_other_model(self,
                                    other_model,
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index 53da272..ffcd01f 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -623,6 +623,9 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
         rel_b.set('Type', ns_url['rels_ext'] + rel_type_b)
         rel_b.set('Target', part_name_a)
 
+    if create_a or create_b:
+        model.set_modified()
+
     if "EpcExternalPart" in rel_part_name_a or "EpcExternalPart" in rel_part_name_b:
         return
 
-- 
2.43.0


From 618f6208e0f06b3a3a78bd3f5cd69841b63c9d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 004/192] fix: an empty parts list is not treated as all parts,
 and filtering by epc sub-directory works

---
 resqpy/model/_catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 0a74510..84e9f3d 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -25,7 +25,7 @@ def _parts(model,
            sort_by = None):
     """Returns a list of parts matching all of the arguments passed."""
 
-    if not parts_list:
+    if parts_list is None:
         parts_list = _list_of_parts(model)
     if uuid is not None:
         part_name = model.uuid_part_dict.get(bu.uuid_as_int(uuid))
@@ -719,7 +719,7 @@ def _filtered_by_epc_subdir(model, parts_list, epc_subdir):
             epc_subdir += '/'
         filtered_list = []
         for part in parts_list:
-            if part.startswith[epc_subdir]:
+            if part.startswith(epc_subdir):
                 filtered_list.append(part)
         return filtered_list
     else:
-- 
2.43.0


From 5613591c330ddfae07198e639f0803815c59dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 005/192] fix: removing a part also removes its relationship
 entry in the hdf5 external part

---
 resqpy/model/_forestry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 5df29c4..c7b418a 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -476,6 +476,7 @@ def _remove_part(model, part_name, remove_relationship_part):
         else:
             related_parts = m_c._parts_list_filtered_by_related_uuid(model, m_c._list_of_parts(model),
                                                                      rqet.uuid_in_part_name(part_name))
+            related_parts = related_parts + m_c._external_parts_list(model)  # hdf5 ext parts are not object parts
             for relative in related_parts:
                 _, rel_tree = model.rels_forest.get(rqet.rels_part_name_for_part(relative), (None, None))
                 if rel_tree is None:
-- 
2.43.0


From d2e7719d140c89ee4f091fe13d66b5697a1de052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 006/192] fix: an explicit hdf5 file path is honoured when
 writing arrays

---
 resqpy/model/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 82e2ce0..f98c834 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -140,7 +140,7 @@ def _h5_access(model, uuid = None, mode = 'r', override = 'default', file_path =
     if model.h5_currently_open_mode is not None and model.h5_currently_open_mode != mode:
         _h5_release(model)
     if file_path:
-        file_name = _h5_apply_override(model, override, file_path, uuid)
+        file_name = _h5_apply_override(model, 'none', file_path, uuid)
     else:
         file_name = _h5_file_name(model, uuid = uuid, override = override, file_must_exist = (mode == 'r'))
     if mode == 'a' and not os.path.exists(file_name):
-- 
2.43.0


From 70908b4684a2f43cbc36fb397c3e69703fb64b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 007/192] fix: patch_root_for_part() marks the model as
 modified

---
 resqpy/model/_forestry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index c7b418a..35c9882 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -465,6 +465,7 @@ def _patch_root_for_part(model, part, root):
     part_tree = rqet.ElementTree(element = root)
     model.parts_forest[part] = (content_type, uuid, part_tree)
     _add_to_object_parts(model, part)
+    model.set_modified()
 
 
 def _remove_part(model, part_name, remove_relationship_part):
-- 
2.43.0


From 33878a5c360efd6b1a5d09439b45c04d35bcd811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 008/192] fix: a relation copied from another model before its
 reference is not listed as soft as well

---
 resqpy/model/_forestry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 35c9882..f7e5b40 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -234,6 +234,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[uuid_int] = ({ref_uuid_int}, set(), set())
         else:
             value[0].add(ref_uuid_int)
+            value[2].discard(ref_uuid_int)
 
         # Adding uuid to the reference uuid key.
         ref_value = model.uuid_rels_dict.get(ref_uuid_int)
@@ -241,6 +242,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[ref_uuid_int] = (set(), {uuid_int}, set())
         else:
             ref_value[1].add(uuid_int)
+            ref_value[2].discard(uuid_int)
 
 
 def _copy_dataset_if_requested(copy_from, epc_file, quiet):
-- 
2.43.0


From ddf57ab878bc41971abf9688373c9eba88dd0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 009/192] fix: check_catalogue_dictionaries() accepts an object
 referring more than once to another

---
 resqpy/model/_catalogue.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 84e9f3d..d3e4e38 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -890,7 +890,6 @@ def _check_catalogue_dictionaries(model, referred_parts_must_be_present, check_x
                 assert len(ref_nodes) == 0
                 continue
             ref_uuid_ints_from_dict = relatives[0]
-            assert len(ref_nodes) == len(ref_uuid_ints_from_dict)
             ref_node_uuid_ints = []
             for ref_node in ref_nodes:
                 uuid_str = rqet.find_tag_text(ref_node, 'UUID')
-- 
2.43.0


From ed9d43e0e7c1f99ca9749c41660a9762dc3c6916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 010/192] fix: consolidation ignores removed resident parts and
 does not relate a part to itself

---
 resqpy/model/_forestry.py    | 2 ++
 resqpy/olio/consolidation.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index f7e5b40..7d9da87 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -729,6 +729,8 @@ def _copy_relationships_for_present_targets(model, other_model, consolidate, for
                     continue
             related_node = m_c._root_for_part(model, resident_related_part)
             assert related_node is not None
+            if related_node is root_node:
+                continue  # related part has itself been consolidated with this part
 
             if source_flag:
                 sd_a, sd_b = 'sourceObject', 'destinationObject'
diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index 5bd82f9..2b7b355 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -67,7 +67,9 @@ class Consolidation:
         # log.debug('   immigrant uuid: ' + str(immigrant_uuid))
         if immigrant_uuid_int in self.map:
             # log.debug('   known to be equivalent to: ' + str(self.map[immigrant_uuid_int]))
-            return self.map[immigrant_uuid_int]
+            if self.map[immigrant_uuid_int] in self.model.uuid_part_dict:
+                return self.map[immigrant_uuid_int]
+            del self.map[immigrant_uuid_int]  # resident part has been removed since mapping was made
         obj_type = immigrant_model.type_of_part(part, strip_obj = True)
         if obj_type is None or obj_type not in consolidatable_list:
             return None
-- 
2.43.0


From 560385e1fc42a65d29f8f9df3377650fc8455d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 011/192] fix: all references to a consolidated object are
 redirected, not only the last

---
 resqpy/model/_forestry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 7d9da87..fc2f73a 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -699,11 +699,11 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
                 for ref_node in ref_nodes:
                     uuid_node = rqet.find_tag(ref_node, 'UUID')
                     uuid_int = bu.uuid_from_string(uuid_node.text).int
-                    reference_node_dict[uuid_int] = uuid_node
-            uuid_node = reference_node_dict[ref_uuid_int]
-            uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
-            reference_node_dict.pop(ref_uuid_int)
-            reference_node_dict[resident_uuid_int] = uuid_node
+                    reference_node_dict.setdefault(uuid_int, []).append(uuid_node)
+            uuid_nodes = reference_node_dict.pop(ref_uuid_int)
+            for uuid_node in uuid_nodes:
+                uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
+            reference_node_dict.setdefault(resident_uuid_int, []).extend(uuid_nodes)
 
 
 def _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node):
-- 
2.43.0


From 1c8b65ab18f967f5d23844f2b899ca0fc9b4dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 012/192] fix: the mean dip of a fault interpretation is
 written, rather than its mean azimuth

---
 resqpy/organize/fault_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index 703ef64..fb89a9d 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -219,7 +219,7 @@ class FaultInterpretation(BaseResqpy):
         if self.mean_dip is not None:
             dip = rqet.SubElement(fi, ns['resqml2'] + 'MeanDip')
             dip.set(ns['xsi'] + 'type', ns['eml'] + 'PlaneAngleMeasure')
-            dip.text = str(self.mean_azimuth)
+            dip.text = str(self.mean_dip)
 
         if self.throw_interpretation_list is not None and len(self.throw_interpretation_list):
             previous_has_occurred_during = ('never', 'never')
-- 
2.43.0


From 7c6b61a367e4293c9c1eb4e4c67f606747eaf04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:08 +0000
Subject: [PATCH 013/192] fix: a resident part still being copied is not
 considered when looking for an equivalent

---
 resqpy/olio/consolidation.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index 2b7b355..8cfd37f 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -105,18 +105,12 @@ class Consolidation:
             # log.debug('   considering resident: ' + str(resident_uuid))
             if ignore_identical_part and bu.matching_uuids(resident_uuid, immigrant_uuid):
                 continue
-            if obj_type.endswith('Interpretation') or obj_type.endswith('Feature'):
-                resident_obj = rqo.__dict__[obj_type](self.model, uuid = resident_uuid)
-            elif obj_type.endswith('Crs'):
-                resident_obj = rqc.Crs(self.model, uuid = resident_uuid)
-            elif obj_type == 'TimeSeries':
-                resident_obj = rqt.TimeSeries(self.model, uuid = resident_uuid)
-            elif obj_type == 'StringTableLookup':
-                resident_obj = rqp.StringLookup(self.model, uuid = resident_uuid)
-            elif obj_type == 'PropertyKind':
-                resident_obj = rqp.PropertyKind(self.model, uuid = resident_uuid)
-            else:
-                raise Exception('code failure')
+            try:
+                resident_obj = self._resident_object(obj_type, resident_uuid)
+            except AssertionError:
+                # resident part may still be in the process of being copied, with references yet to be resolved
+                log.debug(f'resident {obj_type} not yet available for equivalence checking: {resident_uuid}')
+                continue
             assert resident_obj is not None
             # log.debug('   comparing with: ' + str(resident_obj.uuid))
             if immigrant_obj == resident_obj:  # note: == operator overloaded with equivalence method for these classes
@@ -128,6 +122,21 @@ class Consolidation:
                 return resident_uuid_int
         return None
 
+    def _resident_object(self, obj_type, resident_uuid):
+        """Returns resqpy object for resident part of consolidatable class."""
+
+        if obj_type.endswith('Interpretation') or obj_type.endswith('Feature'):
+            return rqo.__dict__[obj_type](self.model, uuid = resident_uuid)
+        if obj_type.endswith('Crs'):
+            return rqc.Crs(self.model, uuid = resident_uuid)
+        if obj_type == 'TimeSeries':
+            return rqt.TimeSeries(self.model, uuid = resident_uuid)
+        if obj_type == 'StringTableLookup':
+            return rqp.StringLookup(self.model, uuid = resident_uuid)
+        if obj_type == 'PropertyKind':
+            return rqp.PropertyKind(self.model, uuid = resident_uuid)
+        raise ValueError(f'class not consolidatable: {obj_type}')
+
     def force_uuid_equivalence(self, immigrant_uuid, resident_uuid):
         """Forces immigrant object to be treated as equivalent to (same as) resident object, identified by uuids."""
 
-- 
2.43.0


From 38fdd55e11381196062330b92775e87e0ea226c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 014/192] fix: the domain of a geobody interpretation is loaded
 from xml

---
 resqpy/organize/geobody_interpretation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index dd0bfb4..a046898 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -60,6 +60,7 @@ class GeobodyInterpretation(BaseResqpy):
 
     def _load_from_xml(self):
         root_node = self.root
+        self.domain = rqet.find_tag_text(root_node, 'Domain')
         interp_feature_ref_node = rqet.find_tag(root_node, 'InterpretedFeature')
         assert interp_feature_ref_node is not None
         self.feature_root = self.model.referenced_node(interp_feature_ref_node)
-- 
2.43.0


From 1169cbbff66c4a29d545a7f4d4125b600ee47583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 015/192] fix: all consolidation mappings to removed parts are
 discarded, including indirect ones

---
 resqpy/olio/consolidation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index 8cfd37f..8745f7b 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -65,11 +65,12 @@ class Consolidation:
             immigrant_model = self.model
         immigrant_uuid_int = rqet.uuid_in_part_name(part).int
         # log.debug('   immigrant uuid: ' + str(immigrant_uuid))
+        # discard any mappings to resident parts that have since been removed
+        if any(resident not in self.model.uuid_part_dict for resident in self.map.values()):
+            self.map = {i: resident for i, resident in self.map.items() if resident in self.model.uuid_part_dict}
         if immigrant_uuid_int in self.map:
             # log.debug('   known to be equivalent to: ' + str(self.map[immigrant_uuid_int]))
-            if self.map[immigrant_uuid_int] in self.model.uuid_part_dict:
-                return self.map[immigrant_uuid_int]
-            del self.map[immigrant_uuid_int]  # resident part has been removed since mapping was made
+            return self.map[immigrant_uuid_int]
         obj_type = immigrant_model.type_of_part(part, strip_obj = True)
         if obj_type is None or obj_type not in consolidatable_list:
             return None
-- 
2.43.0


From cb1f0bbe64e5a98de8a4dc673afe9a425d2d7c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 016/192] fix: a part copied again after removal refers to the
 target's hdf5 file although its arrays are still there

---
 resqpy/model/_forestry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index fc2f73a..8451c54 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -582,9 +582,10 @@ def _copy_part_from_other_model(model,
         if hdf5_copy_needed:
             # copy hdf5 data
             hdf5_internal_paths = [node.text for node in rqet.list_of_descendant_tag(other_root, 'PathInHdfFile')]
-            hdf5_count = whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
+            whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
             # create relationship with hdf5 if needed and modify h5 file uuid in xml references
-            _copy_part_hdf5_setup(model, hdf5_count, h5_uuid, root_node)
+            # (regardless of whether any of the arrays were already present in the hdf5 file)
+            _copy_part_hdf5_setup(model, len(hdf5_internal_paths), h5_uuid, root_node)
         # NB. assumes ext part is already established when sharing a common hdf5 file
 
         # cut references to objects to be excluded
-- 
2.43.0


From 74c249c195a3559f364d11ff83a40b485e7eb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 017/192] fix: a default hdf5 compression of 'none' is accepted
 when writing arrays

---
 resqpy/olio/write_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index 50005b2..b09fe0e 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -121,7 +121,7 @@ class H5Register():
                 chunks = a.shape
         if compression is None:
             compression = self.default_compression
-        elif compression == 'none':
+        if compression == 'none':
             compression = None
         if compression is not None and chunks is None:
             chunks = True
-- 
2.43.0


From 82666f4564b950d567869aff953f432045d27539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 018/192] fix: empty arrays can be written whatever hdf5
 chunking is in force

---
 resqpy/olio/write_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index b09fe0e..a7458c5 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -113,7 +113,7 @@ class H5Register():
             assert chunks in ['auto', 'all', 'slice', 'none']
             if chunks == 'none':
                 chunks = None
-            elif chunks == 'auto':
+            elif chunks == 'auto' or a.size == 0:
                 chunks = True
             elif chunks == 'slice' and a.ndim > 1:
                 chunks = tuple([1] + list(a.shape[1:]))
-- 
2.43.0


From 9c907100df55febcd2613561fae358c2b8e689fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 019/192] fix: Model.h5_clear_filename_cache() calls the
 function that exists

---
 resqpy/model/_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_model.py b/resqpy/model/_model.py
index 8fce53f..44d99be 100644
--- a/resqpy/model/_model.py
+++ b/resqpy/model/_model.py
@@ -1493,7 +1493,7 @@ class Model():
     def h5_clear_filename_cache(self):
         """Clears the cached filenames associated with all ext uuids."""
 
-        m_h._h5_clear_filename_cache(self)
+        m_h.h5_clear_filename_cache(self)
 
     def create_root(self):
         """Initialises an empty main xml tree for model.
-- 
2.43.0


From c84fc52aecdaddf6bb5bad87bf7b4ac33a1ae1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 020/192] fix: a new hdf5 file can be created by path while
 another is open

---
 resqpy/model/_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index f98c834..c652801 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -145,7 +145,8 @@ def _h5_access(model, uuid = None, mode = 'r', override = 'default', file_path =
         file_name = _h5_file_name(model, uuid = uuid, override = override, file_must_exist = (mode == 'r'))
     if mode == 'a' and not os.path.exists(file_name):
         mode = 'w'
-    if model.h5_currently_open_root is not None and os.path.samefile(model.h5_currently_open_path, file_name):
+    if (model.h5_currently_open_root is not None and os.path.exists(file_name) and
+            os.path.samefile(model.h5_currently_open_path, file_name)):
         return model.h5_currently_open_root
     if model.h5_currently_open_root is not None:
         _h5_release(model)
-- 
2.43.0


From 5c3dec745c5e220e78a913321dfe22349d8198f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 021/192] fix: an hdf5 array that cannot be given the required
 shape is not cached as zeros

---
 resqpy/model/_hdf5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index c652801..f1fb091 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -232,16 +232,16 @@ def _h5_array_element(model,
             required_shape = shape_tuple
         else:
             required_shape = tuple(required_shape)
-        object.__dict__[array_attribute] = np.zeros(required_shape, dtype = dtype)
+        array = np.zeros(required_shape, dtype = dtype)
         if shape_tuple == required_shape:
-            object.__dict__[array_attribute][:] = h5_root[h5_key_pair[1]]
+            array[:] = h5_root[h5_key_pair[1]]
         elif (len(shape_tuple) == len(required_shape) and ('bool' in str_dtype or 'uint8' in str_dtype) and
               8 * (shape_tuple[-1] - 1) < required_shape[-1] <= 8 * shape_tuple[-1]):
             a = np.unpackbits(h5_root[h5_key_pair[1]], axis = -1).astype(bool)
-            object.__dict__[array_attribute][:] = a[..., :required_shape[-1]]
+            array[:] = a[..., :required_shape[-1]]
         else:
-            object.__dict__[array_attribute][:] =  \
-                np.array(h5_root[h5_key_pair[1]], dtype = dtype).reshape(required_shape)
+            array[:] = np.array(h5_root[h5_key_pair[1]], dtype = dtype).reshape(required_shape)
+        object.__dict__[array_attribute] = array  # only cached once the data has been read successfully
         _h5_release(model)
         if index is None:
             return None
-- 
2.43.0


From 0c5d3e9c3ca9683b86f882cd2a4956708be3d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 022/192] fix: the required shape may be a list or array when
 reading a single hdf5 array element

---
 resqpy/model/_hdf5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index f1fb091..c3002c5 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -253,6 +253,7 @@ def _h5_array_element(model,
             result = h5_root[h5_key_pair[1]][tuple(index)]
         else:
             shape_tuple = tuple(h5_root[h5_key_pair[1]].shape)
+            required_shape = tuple(required_shape)
             # todo: handle unpacking of a single bit into a bool?
             if shape_tuple == required_shape:
                 result = h5_root[h5_key_pair[1]][tuple(index)]
-- 
2.43.0


From 1ceffd4d62a3ad7324c6a5212bc472b7b12bf57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:34 +0000
Subject: [PATCH 023/192] fix: only an array matching the required shape in all
 but its last axis is taken to be bit packed

---
 resqpy/model/_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index c3002c5..beca868 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -235,7 +235,8 @@ def _h5_array_element(model,
         array = np.zeros(required_shape, dtype = dtype)
         if shape_tuple == required_shape:
             array[:] = h5_root[h5_key_pair[1]]
-        elif (len(shape_tuple) == len(required_shape) and ('bool' in str_dtype or 'uint8' in str_dtype) and
+        elif (len(shape_tuple) == len(required_shape) and shape_tuple[:-1] == required_shape[:-1] and
+              ('bool' in str_dtype or 'uint8' in str_dtype) and
               8 * (shape_tuple[-1] - 1) < required_shape[-1] <= 8 * shape_tuple[-1]):
             a = np.unpackbits(h5_root[h5_key_pair[1]], axis = -1).astype(bool)
             array[:] = a[..., :required_shape[-1]]
-- 
2.43.0


From 7cd27774bb1886b15275ba56517af64a46285f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 024/192] fix: interpretation objects not yet stored can be
 equivalent to stored ones, so that reuse works

---
 resqpy/organize/earth_model_interpretation.py      | 5 +----
 resqpy/organize/geobody_boundary_interpretation.py | 5 +----
 resqpy/organize/geobody_interpretation.py          | 5 +----
 resqpy/organize/horizon_interpretation.py          | 5 +----
 resqpy/organize/wellbore_interpretation.py         | 7 +------
 resqpy/strata/_geologic_unit_interpretation.py     | 5 +----
 6 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/resqpy/organize/earth_model_interpretation.py b/resqpy/organize/earth_model_interpretation.py
index a6b8a4f..3732fbf 100644
--- a/resqpy/organize/earth_model_interpretation.py
+++ b/resqpy/organize/earth_model_interpretation.py
@@ -65,10 +65,7 @@ class EarthModelInterpretation(BaseResqpy):
                 return False
         elif other.organization_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/geobody_boundary_interpretation.py b/resqpy/organize/geobody_boundary_interpretation.py
index 256b224..89f6aac 100644
--- a/resqpy/organize/geobody_boundary_interpretation.py
+++ b/resqpy/organize/geobody_boundary_interpretation.py
@@ -85,10 +85,7 @@ class GeobodyBoundaryInterpretation(BaseResqpy):
                 return False
         elif other.genetic_boundary_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if ((self.domain != other.domain) or
                 not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during)):
diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index a046898..12c67a3 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -86,10 +86,7 @@ class GeobodyInterpretation(BaseResqpy):
                 return False
         elif other.geobody_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/organize/horizon_interpretation.py b/resqpy/organize/horizon_interpretation.py
index 19bfdf1..f4c7757 100644
--- a/resqpy/organize/horizon_interpretation.py
+++ b/resqpy/organize/horizon_interpretation.py
@@ -79,10 +79,7 @@ class HorizonInterpretation(BaseResqpy):
                 return False
         elif other.genetic_boundary_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if ((self.domain != other.domain) or
                 not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during) or
diff --git a/resqpy/organize/wellbore_interpretation.py b/resqpy/organize/wellbore_interpretation.py
index 7ce321e..2d27d5c 100644
--- a/resqpy/organize/wellbore_interpretation.py
+++ b/resqpy/organize/wellbore_interpretation.py
@@ -87,12 +87,7 @@ class WellboreInterpretation(BaseResqpy):
                 return False
         elif other.wellbore_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-            if self.domain != other.domain:
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.domain != other.domain:
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index 1eade6d..c9b8773 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -119,10 +119,7 @@ class GeologicUnitInterpretation(BaseResqpy):
                 return False
         elif other.geologic_unit_feature is not None:
             return False
-        if self.root is not None and other.root is not None:
-            if rqet.citation_title_for_node(self.root) != rqet.citation_title_for_node(other.root):
-                return False
-        elif self.root is not None or other.root is not None:
+        if self.title != other.title:
             return False
         if check_extra_metadata and not rqo.equivalent_extra_metadata(self, other):
             return False
-- 
2.43.0


From eb0772a19e34d2777f3284e66b3e836144ad8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 025/192] fix: comparison of generic interpretations used a
 missing attribute

---
 resqpy/organize/generic_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/generic_interpretation.py b/resqpy/organize/generic_interpretation.py
index 470a868..1d9c382 100644
--- a/resqpy/organize/generic_interpretation.py
+++ b/resqpy/organize/generic_interpretation.py
@@ -64,7 +64,7 @@ class GenericInterpretation(BaseResqpy):
             return False
         if self.domain != other.domain:
             return False
-        if not ou.equivalent_chrono_pairs(self.main_has_occurred_during, other.main_has_occurred_during):
+        if not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during):
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
-- 
2.43.0


From 8d863f248c4992850fef77fef177ac4b8d57d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 026/192] fix: default title of a stratigraphic unit
 interpretation

---
 resqpy/strata/_geologic_unit_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/strata/_geologic_unit_interpretation.py b/resqpy/strata/_geologic_unit_interpretation.py
index c9b8773..6ebf8f5 100644
--- a/resqpy/strata/_geologic_unit_interpretation.py
+++ b/resqpy/strata/_geologic_unit_interpretation.py
@@ -69,7 +69,7 @@ class GeologicUnitInterpretation(BaseResqpy):
         self.geologic_unit_feature = geologic_unit_feature  # InterpretedFeature RESQML field
         self.has_occurred_during = (None, None)  # optional RESQML item
         if (not title) and geologic_unit_feature is not None:
-            title = geologic_unit_feature.feature_name
+            title = geologic_unit_feature.title
         self.composition = composition  # optional RESQML item
         self.material_implacement = material_implacement  # optional RESQML item
         super().__init__(model = parent_model, uuid = uuid, title = title, extra_metadata = extra_metadata)
-- 
2.43.0


From d981f79bc9519bf45aa4b33fc0c07df347feada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 027/192] fix: title suffix of a fault interpretation was
 ignored

---
 resqpy/organize/fault_interpretation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index fb89a9d..56b4222 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -167,11 +167,11 @@ class FaultInterpretation(BaseResqpy):
         assert self.is_normal == (self.is_listric is None)
         if not self.title:
             if tectonic_boundary_feature_root is not None:
-                title = rqet.find_nested_tags_text(tectonic_boundary_feature_root, ['Citation', 'Title'])
+                self.title = rqet.find_nested_tags_text(tectonic_boundary_feature_root, ['Citation', 'Title'])
             else:
-                title = 'fault interpretation'
-            if title_suffix:
-                title += ' ' + title_suffix
+                self.title = 'fault interpretation'
+        if title_suffix:
+            self.title += ' ' + title_suffix
 
         if reuse and self.try_reuse():
             return self.root
-- 
2.43.0


From fd0b7a977e4802b83ce33faa02295da629bd743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 028/192] fix: search for an equivalent object stopped at one
 that does not suit the class

---
 resqpy/olio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/base.py b/resqpy/olio/base.py
index bc9c26a..9dc4806 100644
--- a/resqpy/olio/base.py
+++ b/resqpy/olio/base.py
@@ -111,7 +111,7 @@ class BaseResqpy(metaclass = ABCMeta):
             try:
                 other = self.__class__(self.model, uuid = other_uuid)
             except Exception:
-                return False
+                continue
             if self == other:
                 logger.debug(f'reusing equivalent resqml object with uuid {other_uuid}')
                 self.uuid = other_uuid  # NB: change of uuid for this object
-- 
2.43.0


From c3819826858570692bc22328a6f5e395ed7505b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:46 +0000
Subject: [PATCH 029/192] fix: crs comparison ignored the units of the
 rotations

---
 resqpy/crs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index d8366e4..1052748 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -317,9 +317,14 @@ class Crs(BaseResqpy):
         if (maths.isclose(self.x_offset, other_crs.x_offset, abs_tol = 1e-4) and
                 maths.isclose(self.y_offset, other_crs.y_offset, abs_tol = 1e-4) and
                 maths.isclose(self.z_offset, other_crs.z_offset, abs_tol = 1e-4) and
-                maths.isclose(self.rotation, other_crs.rotation, abs_tol = 1e-4)):
+                maths.isclose(self.rotation,
+                              wam.convert(other_crs.rotation,
+                                          other_crs.rotation_units,
+                                          self.rotation_units,
+                                          quantity = 'plane angle'),
+                              abs_tol = 1e-4)):
             return True
-        # todo: handle and check rotation units; modularly equivalent rotations
+        # todo: handle modularly equivalent rotations
         return False
 
     def convert_to(self, other_crs: 'Crs', xyz: PointType) -> Tuple[float, float, float]:
-- 
2.43.0


From 955f7db8093b73a4f3852eec9accfa33796f5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 030/192] fix: string lookup set_string compared the string
 with the key limits

---
 resqpy/property/string_lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/string_lookup.py b/resqpy/property/string_lookup.py
index 5d99ca5..8d54b7c 100644
--- a/resqpy/property/string_lookup.py
+++ b/resqpy/property/string_lookup.py
@@ -114,11 +114,11 @@ class StringLookup(BaseResqpy):
 
         self.str_dict[key] = value
         limits_changed = False
-        if self.min_index is None or value < self.min_index:
-            self.min_index = value
+        if self.min_index is None or key < self.min_index:
+            self.min_index = key
             limits_changed = True
-        if self.max_index is None or value > self.max_index:
-            self.max_index = value
+        if self.max_index is None or key > self.max_index:
+            self.max_index = key
             limits_changed = True
         if self.stored_as_list:
             if limits_changed:
-- 
2.43.0


From c56b521ff95a4491a93a53c82c4c4e42b3f37281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:19 +0000
Subject: [PATCH 031/192] fix: imported surfaces keep an interpretation each
 now that interpretations can be reused

---
 resqpy/rq_import/_add_surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/rq_import/_add_surfaces.py b/resqpy/rq_import/_add_surfaces.py
index e2d6fdb..0d372c9 100644
--- a/resqpy/rq_import/_add_surfaces.py
+++ b/resqpy/rq_import/_add_surfaces.py
@@ -109,7 +109,7 @@ def _add_single_surface(model, surf_file, surface_file_format, surface_role, qua
         feature = rqo.GeneticBoundaryFeature(model, kind = 'horizon', feature_name = short_name)
         feature.create_xml()
         interp = rqo.HorizonInterpretation(model, genetic_boundary_feature = feature, domain = 'depth')
-        interp_root = interp.create_xml()
+        interp_root = interp.create_xml(reuse = False)
         surface.set_represented_interpretation_root(interp_root)
 
     surface.create_xml(add_as_part = True, add_relationships = True, title = short_name, originator = None)
-- 
2.43.0


From 3c95808a43f00c3794e9ad0a389dfc369923c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 032/192] fix: use the discrete and string_lookup_uuid
 arguments when adding a similar property

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 83aaf95..72983ce 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2381,7 +2381,7 @@ class PropertyCollection():
         args = {}
         args['keyword'] = get_arg(keyword, get_arg(title, similar.title))
         assert args['keyword'] is not None
-        args['discrete'] = get_arg(uom, not similar.is_continuous())
+        args['discrete'] = get_arg(discrete, not similar.is_continuous())
         args['uom'] = get_arg(uom, similar.uom())
         args['time_index'] = get_arg(time_index, similar.time_index())
         args['null_value'] = get_arg(null_value, similar.null_value())
@@ -2395,7 +2395,7 @@ class PropertyCollection():
         args['const_value'] = const_value  # NB. not inherited
         args['points'] = get_arg(points, similar.is_points())
         args['time_series_uuid'] = get_arg(time_series_uuid, similar.time_series_uuid())
-        args['string_lookup_uuid'] = get_arg(time_series_uuid, similar.string_lookup_uuid())
+        args['string_lookup_uuid'] = get_arg(string_lookup_uuid, similar.string_lookup_uuid())
         em = similar.extra_metadata if hasattr(similar, 'extra_metadata') else {}
         args['source_info'] = get_arg(source_info, em.get('source'))
 
-- 
2.43.0


From 2860deccc5ff502d9e99db02c7f92c581832fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 033/192] fix: keep the support of each part when adding to a
 multi-support property collection

---
 resqpy/property/_collection_add_part.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 24cdb97..254ae4b 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -103,7 +103,8 @@ def _add_part_to_dict_get_support_uuid(collection, part):
     if support_uuid is None:
         support_uuid = collection.support_uuid
     elif collection.support_uuid is None:
-        collection.set_support(support_uuid)
+        if collection.number_of_parts() == 0:  # otherwise already a multi-support collection
+            collection.set_support(support_uuid)
     elif not bu.matching_uuids(support_uuid, collection.support.uuid):  # multi-support collection
         collection.set_support(None)
     if isinstance(support_uuid, str):
-- 
2.43.0


From c764dca191397a5e1058830327fc2710208af86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 034/192] fix: allow '*' and 'none' as time index criteria when
 selecting properties

---
 resqpy/property/property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 72983ce..8992675 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -489,7 +489,7 @@ class PropertyCollection():
         rqp_c.check_and_warn_property_kind(property_kind, 'selecting properties')
         if self.realization is not None and other.realization is not None:
             assert self.realization == other.realization
-        if time_index is not None:
+        if time_index is not None and time_index not in ('*', 'none'):
             assert time_index >= 0
 
         for (part, info) in other.dict.items():
-- 
2.43.0


From 94b3fd80d53975fa3b34641e48c3d71329e4c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 035/192] fix: allow zero and not-a-number as the value to be
 excluded in a masked property array

---
 resqpy/property/property_collection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 8992675..f0e4563 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1697,8 +1697,11 @@ class PropertyCollection():
         """
 
         mask = self._masked_array_apply_inactive(exclude_inactive, points, simple_array)
-        if exclude_value:
-            null_mask = (simple_array == exclude_value)
+        if exclude_value is not None:
+            if isinstance(exclude_value, (float, np.floating)) and np.isnan(exclude_value):
+                null_mask = np.isnan(simple_array)
+            else:
+                null_mask = (simple_array == exclude_value)
             if mask is None:
                 mask = null_mask
             else:
-- 
2.43.0


From 56a8afe6b78c8aa5d1aa63ed7fcdaddc98f53e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 036/192] fix: single uom flag of a property collection
 independent of order of parts

---
 resqpy/property/property_collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index f0e4563..799e320 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1632,15 +1632,15 @@ class PropertyCollection():
 
         self.has_single_uom_flag = True
         common_uom = None
+        first = True
         for part in self.parts():
             part_uom = self.uom_for_part(part)
-            if common_uom is None:
+            if first:
                 common_uom = part_uom
+                first = False
             elif part_uom != common_uom:
                 self.has_single_uom_flag = False
                 break
-        if common_uom is None:
-            self.has_single_uom_flag = True  # all uoms are None (probably discrete properties)
         return self.has_single_uom_flag
 
     def has_single_uom(self):
-- 
2.43.0


From fc9662141af02bc80636d05e11aabab9e16cfcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 037/192] fix: apply the unit of measure criterion when
 selecting properties

---
 resqpy/property/_collection_add_part.py | 4 +++-
 resqpy/property/property_collection.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 254ae4b..673be2c 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -17,7 +17,7 @@ import resqpy.property._collection_get_attributes as pcga
 
 def _add_selected_part_from_other_dict(collection, part, other, realization, support_uuid, uuid, continuous,
                                        categorical, count, points, indexable, property_kind, facet_type, facet,
-                                       citation_title, citation_title_match_mode, time_series_uuid, time_index,
+                                       citation_title, citation_title_match_mode, time_series_uuid, time_index, uom,
                                        string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes):
     if _check_not_none_and_not_equals(realization, other.realization_for_part, part):
         return
@@ -47,6 +47,8 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(time_index, other.time_index_for_part, part):
         return
+    if _check_not_none_and_not_equals(uom, other.uom_for_part, part):
+        return
     if _check_not_none_and_not_uuid_match(string_lookup_uuid, other.string_lookup_uuid_for_part, part):
         return
     if _check_not_none_and_not_equals(const_value, other.constant_value_for_part, part):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 799e320..485189d 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -496,8 +496,8 @@ class PropertyCollection():
             pcap._add_selected_part_from_other_dict(self, part, other, realization, support_uuid, uuid, continuous,
                                                     categorical, count, points, indexable, property_kind, facet_type,
                                                     facet, citation_title, citation_title_match_mode, time_series_uuid,
-                                                    time_index, string_lookup_uuid, related_uuid, const_value, extra,
-                                                    ignore_clashes)
+                                                    time_index, uom, string_lookup_uuid, related_uuid, const_value,
+                                                    extra, ignore_clashes)
 
     def inherit_similar_parts_for_time_series_from_other_collection(self,
                                                                     other,
-- 
2.43.0


From 2cc5b09e712fc983540c82821085167a5c53a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 038/192] fix: no minimum and maximum for a constant property
 holding the null value

---
 resqpy/property/_collection_get_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 4fc6445..4f4e262 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -83,7 +83,7 @@ def _get_property_type_details(discrete, string_lookup_uuid, points, null_value)
 def _get_property_array_min_max_value(collection, property_array, const_value, discrete, min_value, max_value,
                                       categorical, null_value):
     if const_value is not None:
-        return _get_property_array_min_max_const(const_value, collection.null_value, min_value, max_value, discrete)
+        return _get_property_array_min_max_const(const_value, null_value, min_value, max_value, discrete)
     elif property_array is not None:
         return _get_property_array_min_max_array(property_array, min_value, max_value, discrete, categorical,
                                                  null_value)
-- 
2.43.0


From 4519aca560f1b29ffaca4324fd124a5f6cd0cbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 039/192] fix: inactive mask of a points property for supports
 with more than one dimension

---
 resqpy/property/property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 485189d..47dba6a 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1722,7 +1722,7 @@ class PropertyCollection():
                 if (self.support.inactive.ndim + 1 == simple_array.ndim and
                         self.support.inactive.shape == tuple(simple_array.shape[:-1])):
                     mask = np.empty(simple_array.shape, dtype = bool)
-                    mask[:] = self.support.inactive[:, np.newaxis]
+                    mask[:] = self.support.inactive[..., np.newaxis]
         return mask
 
     def h5_key_pair_for_part(self, part):
-- 
2.43.0


From aca64134c90277152a7e9e967d4059daea0d527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 040/192] fix: do not use the special values '*' and 'none' as
 the realization number of a selected collection

---
 resqpy/property/property_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_common.py b/resqpy/property/property_common.py
index 65d48e6..e3cf2e7 100644
--- a/resqpy/property/property_common.py
+++ b/resqpy/property/property_common.py
@@ -568,7 +568,7 @@ def selective_version_of_collection(collection,
     view = rqp.PropertyCollection()
     if support_uuid is not None:
         view.set_support(support_uuid = support_uuid, model = collection.model)
-    if realization is not None:
+    if realization is not None and realization not in ('*', 'none'):
         view.set_realization(realization)
     if citation_title is None:
         citation_title = title
-- 
2.43.0


From 0ad01e6f92b8a959562d8fae693beed95910c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 041/192] fix: pack only the boolean arrays when writing a
 mixed imported list

---
 resqpy/property/property_collection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 47dba6a..daa974e 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2478,8 +2478,10 @@ class PropertyCollection():
             tail = 'points_patch0' if entry[18] else 'values_patch0'
             if use_pack and (str(dtype).startswith('bool') or
                              (dtype is None and str(self.__dict__[cached_name].dtype) == 'bool')):
-                dtype = 'pack'
-            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
+                part_dtype = 'pack'
+            else:
+                part_dtype = dtype
+            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = part_dtype)
         h5_reg.write(file = file_name, mode = mode, use_int32 = use_int32)
 
     def write_hdf5_for_part(self,
-- 
2.43.0


From a28f6cd624f0cbfc816d0789add99de5f147a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 042/192] fix: read boolean property arrays with a count
 greater than one

---
 resqpy/property/_collection_get_attributes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 4f4e262..3c44310 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -613,6 +613,8 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
     if use_pack and ('bool' in str_dtype or 'uint8' in str_dtype):
         required_shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
                                                      direction = _part_direction(collection, part))
+        if required_shape is not None and collection.count_for_part(part) > 1:
+            required_shape = list(required_shape) + [collection.count_for_part(part)]
 
     h5_key_pair = model.h5_uuid_and_path_for_node(first_values_node, tag = tag)
     if h5_key_pair is None:
-- 
2.43.0


From 694e11115e57ff98e131490ded55b4c74991a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 043/192] fix: shape and type of a points property

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index daa974e..770bfd3 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1878,9 +1878,9 @@ class PropertyCollection():
 
     def _shape_and_type_of_part_get_h5keypair(self, part, part_node, model):
         if self.points_for_part(part):
-            patch_list = rqet.list_of_tag(part_node, 'PatchOfpoints')
+            patch_list = rqet.list_of_tag(part_node, 'PatchOfPoints')
             assert len(patch_list) == 1  # todo: handle more than one patch of points
-            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Coordinates'))
+            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Points'), tag = 'Coordinates')
         else:
             patch_list = rqet.list_of_tag(part_node, 'PatchOfValues')
             assert len(patch_list) == 1  # todo: handle more than one patch of values
-- 
2.43.0


From b8aedfde2c52002cd1976e35cd1875f247c320f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 044/192] fix: constant properties when sampling another
 property collection

---
 resqpy/property/property_collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 770bfd3..3c0790a 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -414,7 +414,10 @@ class PropertyCollection():
             target_shape = self.supporting_shape(indexable_element = other.indexable_for_part(part),
                                                  direction = pcga._part_direction(other, part))
             assert np.prod(target_shape) == flattened_indices.size
-            a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
+            if info[20] is None:
+                a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
+            else:
+                a = None  # constant array
             self.add_cached_array_to_imported_list(a,
                                                    source,
                                                    info[10],
-- 
2.43.0


From 7b1f235a5275dd78dd05a706c13fad41d47d3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 045/192] fix: constant properties with a count greater than
 one

---
 resqpy/property/_collection_create_xml.py     | 4 ++--
 resqpy/property/_collection_get_attributes.py | 2 ++
 resqpy/property/property_collection.py        | 6 +++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_create_xml.py b/resqpy/property/_collection_create_xml.py
index d35777d..64b1e76 100644
--- a/resqpy/property/_collection_create_xml.py
+++ b/resqpy/property/_collection_create_xml.py
@@ -85,13 +85,13 @@ def _create_xml_property_kind(collection, p_node, find_local_property_kinds, pro
 
 
 def _create_xml_patch_node(collection, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                           expand_const_arrays, hdf5_type, xsd_type, null_value):
+                           expand_const_arrays, hdf5_type, xsd_type, null_value, count = 1):
     # create patch node
     const_count = None
     if const_value is not None and not expand_const_arrays:
         s_shape = collection.supporting_shape(indexable_element = indexable_element, direction = direction)
         assert s_shape is not None
-        const_count = np.prod(np.array(s_shape, dtype = int))
+        const_count = np.prod(np.array(s_shape, dtype = int)) * count
     else:
         const_value = None
     _ = collection.model.create_patch(p_uuid,
diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 3c44310..d5d4d4c 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -634,6 +634,8 @@ def _cached_part_array_ref_const_notnone(collection, part, const_value, cached_a
     shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
                                         direction = _part_direction(collection, part))
     assert shape is not None
+    if collection.count_for_part(part) > 1:
+        shape = list(shape) + [collection.count_for_part(part)]
     a = np.full(shape, const_value, dtype = float if collection.continuous_for_part(part) else int)
     setattr(collection, cached_array_name, a)
 
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 3c0790a..9948f33 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1872,6 +1872,8 @@ class PropertyCollection():
             shape = self.supporting_shape(indexable_element = self.indexable_for_part(part),
                                           direction = pcga._part_direction(self, part))
             assert shape is not None
+            if self.count_for_part(part) > 1:
+                shape = list(shape) + [self.count_for_part(part)]
             return shape, (float if self.continuous_for_part(part) else int)
 
         h5_key_pair = self._shape_and_type_of_part_get_h5keypair(part, part_node, model)
@@ -2473,6 +2475,8 @@ class PropertyCollection():
                 assert self.support is not None
                 #  note: will not handle direction dependent shapes or points
                 shape = self.supporting_shape(indexable_element = entry[14])
+                if entry[15] > 1:
+                    shape = list(shape) + [entry[15]]
                 value = float(entry[17]) if isinstance(entry[17], str) else entry[17]
                 self.__dict__[cached_name] = np.full(shape, value, dtype = dtype)
             else:
@@ -2719,7 +2723,7 @@ class PropertyCollection():
         property_kind_uuid = pcxml._create_xml_property_kind(self, p_node, find_local_property_kinds, property_kind,
                                                              uom, discrete, property_kind_uuid)
         pcxml._create_xml_patch_node(self, p_node, points, const_value, indexable_element, direction, p_uuid, ext_uuid,
-                                     expand_const_arrays, hdf5_type, xsd_type, null_value)
+                                     expand_const_arrays, hdf5_type, xsd_type, null_value, count)
         pcxml._create_xml_facet_node(facet_type, facet, p_node)
 
         pcxml._create_xml_property_min_max(self, property_array, const_value, discrete, add_min_max, p_node, min_value,
-- 
2.43.0


From edb2fa6d3443d77e4a88a621731ef16dde35bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:48 +0000
Subject: [PATCH 046/192] fix: keep the mask when normalizing a masked property
 array

---
 resqpy/property/_collection_get_attributes.py | 2 +-
 resqpy/property/property_collection.py        | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index d5d4d4c..796eb75 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -373,7 +373,7 @@ def _normalized_part_array_use_logarithm(min_value, n_prop, masked):
         max_value = np.nan
     else:
         if min_value <= 0.0:
-            n_prop[:] = np.where(n_prop < 0.0001, 0.0001, n_prop)
+            n_prop = (ma.where if masked else np.where)(n_prop < 0.0001, 0.0001, n_prop)
         n_prop = np.log10(n_prop)
         min_value = np.nanmin(n_prop)
         max_value = np.nanmax(n_prop)
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 9948f33..783abd1 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2188,9 +2188,10 @@ class PropertyCollection():
 
         if max_value == min_value:
             n_prop[:] = np.where(np.isnan(p_array), np.nan, 0.5)
-            return n_prop, min_value, max_value
-
-        n_prop[:] = np.where(np.isnan(p_array), np.nan, (n_prop - min_value) / (max_value - min_value))
+        else:
+            n_prop[:] = np.where(np.isnan(p_array), np.nan, (n_prop - min_value) / (max_value - min_value))
+        if masked:  # assigning to the whole of a masked array will have discarded the mask
+            n_prop = ma.masked_array(n_prop, mask = ma.getmask(p_array))
         return n_prop, min_value, max_value
 
     def uncache_part_array(self, part):
-- 
2.43.0


From 3b23e6f256d20ec6a8b771a1d17fa9a6f3f79341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 047/192] fix: face index maps for reordering arrays of faces
 per cell

---
 resqpy/property/property_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 783abd1..c1d5396 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -84,6 +84,9 @@ class PropertyCollection():
         self.parent_set_root = None
         self.realization = realization  # model realization number within an ensemble
         self.null_value = None
+        # following map between (axis, polarity) and position of face in resqml order: top, base, J-, I+, J+, I-
+        self.face_index_map = np.array([[0, 1], [2, 4], [5, 3]], dtype = np.int8)
+        self.face_index_inverse_map = np.array([[0, 0], [0, 1], [1, 0], [2, 1], [1, 1], [2, 0]], dtype = np.int8)
         self.imported_list = []
         # above is list of (uuid, source, keyword, cached_name, discrete, uom, time_index, null_value,
         #                   min_value, max_value, property_kind, facet_type, facet, realization,
-- 
2.43.0


From c63313b238f42f85903db4e111fcc7bddf630d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 048/192] fix: closest timestamp when the first is the latest
 not later

---
 resqpy/time_series/_time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index e7cdb74..dacd61e 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -138,7 +138,7 @@ class TimeSeries(ats.AnyTimeSeries):
         if not self.timestamps:
             return None
         before = self.index_for_timestamp_not_later_than(timestamp)
-        if not before:
+        if before is None:
             return 0
         if before == len(self.timestamps) - 1 or self.timestamps[before] == timestamp:
             return before
-- 
2.43.0


From 989b5c28e2de2b2385204464f7c3768c3f0fe2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 049/192] fix: simplified and cleaned forms of a geologic
 timestamp

---
 resqpy/time_series/_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index a5b779e..182dbff 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -35,7 +35,7 @@ def simplified_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = cleaned_timestamp(timestamp)
     if len(timestamp) > 10:
         timestamp = timestamp[:10] + ' ' + timestamp[11:]
@@ -48,7 +48,7 @@ def cleaned_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = str(timestamp)
     rqts.check_timestamp(timestamp)
     if len(timestamp) < 19 or timestamp[11:19] == '00:00:00':
-- 
2.43.0


From 51255668f1000e221428f33ac08043961d8d71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 050/192] fix: merge geologic time series

---
 resqpy/time_series/_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index 182dbff..ca91523 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -109,7 +109,7 @@ def merge_timeseries_from_uuid(model, timeseries_uuid_iter):
 
         timeserieslist.append(singlets)
         # alltimestamps.update( set(singlets.timestamps) )
-        alltimestamps.update(set(singlets.datetimes()))
+        alltimestamps.update(set(singlets.datetimes() if timeframe == 'human' else singlets.timestamps))
 
     sortedtimestamps = sorted(list(alltimestamps), reverse = reverse)
 
-- 
2.43.0


From 76ed2dfd887929588ca7033d66af5c8b21019c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 051/192] fix: compare timestamps in differing formats by time
 and not as text

---
 resqpy/time_series/_any_time_series.py |  5 ++++-
 resqpy/time_series/_time_series.py     | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/resqpy/time_series/_any_time_series.py b/resqpy/time_series/_any_time_series.py
index df1d2af..ac730e5 100644
--- a/resqpy/time_series/_any_time_series.py
+++ b/resqpy/time_series/_any_time_series.py
@@ -42,7 +42,10 @@ class AnyTimeSeries(BaseResqpy):
             else:
                 assert self.timeframe == 'human'
                 self.timestamps.append(dt_text)  # todo: trim and check timestamp
-            self.timestamps.sort()
+        self._sort_timestamps()
+
+    def _sort_timestamps(self):
+        self.timestamps.sort()
 
     def is_equivalent(self, other_ts):
         """Performs partial equivalence check on two time series (derived class methods finish the work)."""
diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index dacd61e..ea93d81 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -89,6 +89,9 @@ class TimeSeries(ats.AnyTimeSeries):
         if self.extra_metadata is not None and self.extra_metadata.get('timeframe') == 'geologic':
             raise ValueError('attempt to instantiate a human timeframe time series for a geologic time series')
 
+    def _sort_timestamps(self):
+        self.timestamps.sort(key = _datetime)
+
     def is_equivalent(self, other_ts, tol_seconds = 1):
         """Returns True if the this timestep series is essentially identical to the other; otherwise False."""
 
@@ -110,7 +113,8 @@ class TimeSeries(ats.AnyTimeSeries):
         """
         check_timestamp(timestamp)
         index = len(self.timestamps) - 1
-        while (index >= 0) and (self.timestamps[index] > timestamp):
+        when = _datetime(timestamp)
+        while (index >= 0) and (_datetime(self.timestamps[index]) > when):
             index -= 1
         if index < 0:
             return None
@@ -123,7 +127,8 @@ class TimeSeries(ats.AnyTimeSeries):
         """
         check_timestamp(timestamp)
         index = 0
-        while (index < len(self.timestamps)) and (self.timestamps[index] < timestamp):
+        when = _datetime(timestamp)
+        while (index < len(self.timestamps)) and (_datetime(self.timestamps[index]) < when):
             index += 1
         if index >= len(self.timestamps):
             return None
@@ -209,7 +214,7 @@ class TimeSeries(ats.AnyTimeSeries):
         else:
             last = self.last_timestamp()
             if last is not None:
-                assert (new_timestamp > self.last_timestamp())
+                assert _datetime(new_timestamp) > _datetime(last)
             self.timestamps.append(new_timestamp)
 
     def extend_by_duration(self, duration):
@@ -225,7 +230,12 @@ class TimeSeries(ats.AnyTimeSeries):
 
     def datetimes(self):
         """Returns the timestamps as a list of python-datetime objects."""
-        return [dt.datetime.fromisoformat(t.rstrip('Z')) for t in self.timestamps]
+        return [_datetime(t) for t in self.timestamps]
+
+
+def _datetime(timestamp):
+    # compare these rather than the strings, which may be in differing formats
+    return dt.datetime.fromisoformat(timestamp.rstrip('Z'))
 
 
 def check_timestamp(timestamp):
-- 
2.43.0


From 31242e62869c28efb9caf80d06ed19aa580a0a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 052/192] fix: grid connection set from faces indices refers to
 the grid passed

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d094452..dc38e1e 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -252,7 +252,7 @@ class GridConnectionSet(BaseResqpy):
         """
         assert isinstance(grid, grr.Grid)
 
-        gcs = cls(grid.model, title = title, originator = originator, extra_metadata = extra_metadata)
+        gcs = cls(grid.model, grid = grid, title = title, originator = originator, extra_metadata = extra_metadata)
 
         gcs._sort_out_organizing_objects(feature_type, feature_name, create_organizing_objects_where_needed)
 
-- 
2.43.0


From 940da7f16e6eaa162662b1fe992605f820ed2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 053/192] fix: keep properties in step when sorting faces
 without duplicates

---
 resqpy/fault/_grid_connection_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index dc38e1e..62a0296 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2317,8 +2317,6 @@ def _sort_and_remove_duplicates(a, props = None):
     m = np.empty(a.size, dtype = bool)
     m[0] = True
     m[1:] = (a[1:] != a[:-1])
-    if np.all(m):
-        return a
     if not no_props:
         for i in range(len(props)):
             p = props[i][si]
-- 
2.43.0


From 4c6fe6e4480f4843dcd23ad01c3abc0180c4524c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 054/192] fix: filter connections by layer range with only one
 limit

---
 resqpy/fault/_grid_connection_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 62a0296..a731be7 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -846,9 +846,9 @@ class GridConnectionSet(BaseResqpy):
         self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by layer range'
         grid = self.grid_list[0]
-        if min_k0 <= 0:
+        if min_k0 is not None and min_k0 <= 0:
             min_k0 = None
-        if max_k0 >= grid.extent_kji[0] - 1:
+        if max_k0 is not None and max_k0 >= grid.extent_kji[0] - 1:
             max_k0 = None
         if min_k0 is None and max_k0 is None:
             dupe = GridConnectionSet(self.model, grid = grid)
-- 
2.43.0


From dcb1cc07afd14d1a648b9f125dcce93fffa0770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 055/192] fix: load arrays before filtering connections by cell
 mask

---
 resqpy/fault/_grid_connection_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index a731be7..bb4ea7b 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -886,6 +886,7 @@ class GridConnectionSet(BaseResqpy):
            select equivalent entries from associated properties
         """
 
+        self.cache_arrays()
         assert len(self.grid_list) == 1, 'attempt to filter multi-grid connection set by cell mask'
         grid = self.grid_list[0]
         flat_extent = grid.cell_count()
-- 
2.43.0


From 1cd01242282dec8b2bb3d8d8c36e571cd1f63df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 056/192] fix: standardize lower case face indicator of a
 single letter

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 0d54abb..dd12155 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -490,7 +490,7 @@ def standardize_face_indicator_in_faces_df(faces):
 
     # todo: convert XYZ into IJK respectively?
     temp = faces['face'].copy().str.upper()
-    temp[faces['face'].str.len() == 1] = faces['face'][faces['face'].str.len() == 1] + '+'
+    temp[temp.str.len() == 1] += '+'
     for u in temp.unique():
         s = str(u)
         assert len(s) == 2, 'incorrect length to face string in fault dataframe: ' + s
-- 
2.43.0


From 0a6c0a56e001044cda3924428828d077567520a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 057/192] fix: remove external faces from a dataframe with any
 index

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index dd12155..11af14c 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -519,7 +519,7 @@ def remove_external_faces_from_faces_df(faces, extent_kji, remove_all_k_faces =
         if remove_all_k_faces and f[0] == 'K':
             continue
         filtered.append(i)
-    return faces.loc[filtered]
+    return faces.iloc[filtered]
 
 
 def _make_k_gcs_from_cip_list(grid, cip_list, feature_name):
-- 
2.43.0


From 9f28fe0ace7d6ce6c3441d1a0186cbcf81fdc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 058/192] fix: use face of second cell for its half cell
 transmissibility

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index bb4ea7b..5fd4321 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1897,7 +1897,7 @@ class GridConnectionSet(BaseResqpy):
         gi_m = gi_p = 0  # used below in single grid case
         for e in range(count):
             axis_m, polarity_m = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
-            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
+            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 1]]
             if single_grid:
                 kji0_m = kji0[e, 0]
                 kji0_p = kji0[e, 1]
-- 
2.43.0


From 91551b1d3c404b5dcb8ce1534bbd1d150e30534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 059/192] fix: inherit a feature that is already present

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 5fd4321..0c4154b 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1974,7 +1974,7 @@ class GridConnectionSet(BaseResqpy):
         for featured_triplet in featured.feature_list:
             featured_uuid = bu.uuid_from_string(featured_triplet[1])  # bu call probably not needed
             if featured_uuid in feature_uuid_list:
-                featured_index_map.append(feature_uuid_list.index[featured_uuid])
+                featured_index_map.append(feature_uuid_list.index(featured_uuid))
             else:
                 featured_index_map.append(len(self.feature_list))
                 self.feature_list.append(featured_triplet)
-- 
2.43.0


From dd39d554ede620ae1329113d67e9f799e3829e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 060/192] fix: renumber features correctly when removing those
 no longer used

---
 resqpy/fault/_grid_connection_set.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 0c4154b..9c04a4e 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2018,12 +2018,9 @@ class GridConnectionSet(BaseResqpy):
         for fi in range(original_feature_count):
             if fi not in self.feature_indices:
                 removals.append(fi)
-        reduction = len(removals)
-        if reduction > 0:
-            while len(removals) > 0:
-                self.feature_list.pop(removals[-1])
-                removals.pop()
-            self.feature_indices[:] -= reduction
+        for fi in reversed(removals):
+            self.feature_list.pop(fi)
+            self.feature_indices[self.feature_indices > fi] -= 1
 
     def compact_indices(self):
         """Returns numpy int array of shape (count, 2) combining each cell index, face index into a single integer."""
-- 
2.43.0


From 9f1aea5af37dafb3e8a96a14b824982ab42286b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 061/192] fix: write each connection with its own multiplier to
 simulator file

---
 resqpy/fault/_grid_connection_set.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 9c04a4e..0c66ff1 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1581,13 +1581,14 @@ class GridConnectionSet(BaseResqpy):
                     tmult_values = feat_mult_array[msi]
                     del both
                     k = None
-                    i = j = k2 = axis = polarity = None  # only needed to placate flake8 which whinges incorrectly otherwise
+                    i = j = k2 = axis = polarity = tmult = None  # only needed to placate flake8 which whinges incorrectly otherwise
                     for row in range(cell_indices.shape[0]):
                         kp, jp, ip = cell_indices[row]
                         axis_p, polarity_p = face_indices[row]
-                        tmult = tmult_values[row]
+                        tmult_p = tmult_values[row]
                         if k is not None:
-                            if axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1:
+                            if (axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1 or
+                                    tmult_p != tmult):
                                 write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
                                 k = None
                             else:
@@ -1598,6 +1599,7 @@ class GridConnectionSet(BaseResqpy):
                             k = k2 = kp
                             axis = axis_p
                             polarity = polarity_p
+                            tmult = tmult_p
                     if k is not None:
                         write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
 
-- 
2.43.0


From f8234905d9e25637cf4dd3bc5e0f57044a486b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 062/192] fix: column edge values for feature without faces in
 reference layer

---
 resqpy/fault/_grid_connection_set.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 0c66ff1..1ebddd5 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1759,8 +1759,7 @@ class GridConnectionSet(BaseResqpy):
                                                                            max_k0 = ref_k,
                                                                            pare_down = False,
                                                                            return_indices = True)
-            assert layer_gcs.count == len(layer_indices)
-            if layer_gcs.count == 0:  # feature does not have any faces in reference layer
+            if layer_gcs is None or layer_gcs.count == 0:  # feature does not have any faces in reference layer
                 return None
             layer_prop_array = feature_prop_array[layer_indices]
             # fill in individual values rather laboriously
-- 
2.43.0


From 25b4047d188bd64a930042ff0f01c58adeeac084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 063/192] fix: set pairs from faces when the fault
 interpretation exists

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 1ebddd5..d9bfc41 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2081,12 +2081,12 @@ class GridConnectionSet(BaseResqpy):
                 fault_dict_multiplier = float(fault_tmult_dict[name])
             if name.lower() in fault_tmult_dict:
                 fault_dict_multiplier = float(fault_tmult_dict[name.lower()])
+        fi_root = None
         # fetch uuid for fault interpretation object
         if name.lower() in fi_dict:
             fi_uuid = fi_dict[name.lower()]
         elif create_organizing_objects_where_needed:
             tbf = None
-            fi_root = None
             for tbf_part in tbf_parts_list:
                 if name.lower() == self.model.title_for_part(tbf_part).split()[0].lower():
                     tbf = rqo.TectonicBoundaryFeature(self.model, uuid = self.model.uuid_for_part(tbf_part))
-- 
2.43.0


From 578bdb932583754fef26cc94b9c9bc14c0a553e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 064/192] fix: set pairs from faces without creating organizing
 objects

---
 resqpy/fault/_grid_connection_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d9bfc41..b4af910 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -719,6 +719,7 @@ class GridConnectionSet(BaseResqpy):
         const_mult = True
         for fi_part in fi_parts_list:
             fi_dict[self.model.title_for_part(fi_part).split()[0].lower()] = self.model.uuid_for_part(fi_part)
+        tbf_parts_list = []
         if create_organizing_objects_where_needed:
             tbf_parts_list = self.model.parts_list_of_type('TectonicBoundaryFeature')
 
-- 
2.43.0


From b344c8f473847c15b944542c31557918df7f0a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 065/192] fix: fault has a constant multiplier only if all its
 rows agree

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index b4af910..063e0e5 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2119,7 +2119,7 @@ class GridConnectionSet(BaseResqpy):
                 if fault_mult_value is None:
                     fault_mult_value = multiplier
                 else:
-                    fault_const_mult = maths.isclose(multiplier, fault_mult_value)
+                    fault_const_mult = fault_const_mult and maths.isclose(multiplier, fault_mult_value)
             for k0 in range(entry['k1'], entry['k2'] + 1):
                 for j0 in range(entry['j1'], entry['j2'] + 1):
                     for i0 in range(entry['i1'], entry['i2'] + 1):
-- 
2.43.0


From cc0e6a5679c5ebbcaeadbe7d79ba8abd77c6c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 066/192] fix: use baffle flags as a mask

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 063e0e5..11d2fb0 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2239,7 +2239,7 @@ class GridConnectionSet(BaseResqpy):
 
         baffle_mask = None
         if baffle_uuid is not None:
-            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref()
+            baffle_mask = rqp.Property(self.model, uuid = baffle_uuid).array_ref(dtype = bool)
             assert baffle_mask is not None
 
         # note that following arrays include external faces, in line with grid properties for 'faces'
-- 
2.43.0


From 0d0e4167a36c239b8686f929ce4f7bbcc885c4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 067/192] fix: find fault by name when another has a name
 starting with it

---
 resqpy/fault/_grid_connection_set.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 11d2fb0..bba4de3 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1061,11 +1061,13 @@ class GridConnectionSet(BaseResqpy):
         if self.feature_list is None:
             return (None, None)
         # the protocol adopted here is that the citation title must start with the fault name
-        index = 0
-        for (_, uuid, title) in self.feature_list:
-            if title.startswith(fault_name):
-                return (index, uuid)
-            index += 1
+        # with preference given to an exact match, then to a match of whole words
+        for matches in [
+                lambda t: t == fault_name, lambda t: t.startswith(fault_name + ' '), lambda t: t.startswith(fault_name)
+        ]:
+            for index, (_, uuid, title) in enumerate(self.feature_list):
+                if matches(title):
+                    return (index, uuid)
         return (None, None)
 
     def feature_name_for_feature_index(self, feature_index, strip = True):
-- 
2.43.0


From 044d34b89e6ea18a729ce4697c85d149cb48dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 068/192] fix: find pinchout directly below a single cell
 beneath another pinchout

---
 resqpy/fault/_gcs_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 11af14c..6b114bc 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -60,11 +60,11 @@ def pinchout_connection_set(grid, skip_inactive = True, feature_name = 'pinchout
                 if kb >= grid.nk:
                     break
                 if skip_inactive and dead[kb, j, i]:
-                    ka = kb + 1
+                    ka = kb
                     continue
                 # kb now beneath pinchout
                 cip_list.append((grid.natural_cell_index((ka, j, i)), grid.natural_cell_index((kb, j, i))))
-                ka = kb + 1
+                ka = kb
 
     log.debug(f'{len(cip_list)} pinchout connections found')
 
-- 
2.43.0


From 4ea93e4861554cdf9b61298cf68725d916ae6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 069/192] fix: default null value for map of a discrete
 connection set property

---
 resqpy/fault/_gcs_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 6b114bc..06b80fe 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -286,7 +286,7 @@ def grid_columns_property_from_gcs_property(model,
             multiple_handling = 'mean'
     else:
         dtype = int
-        if null_value == np.nan:
+        if np.isnan(null_value):
             null_value = -1
         elif type(null_value) is float:
             null_value = int(null_value)
-- 
2.43.0


From 10216a5666f33c70f319746192890f2c05f55ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 070/192] fix: use active flags as a mask when already cached
 as integers

---
 resqpy/fault/_grid_connection_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index bba4de3..333974f 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2225,6 +2225,7 @@ class GridConnectionSet(BaseResqpy):
             pc = self.extract_property_collection()
             active_mask = pc.single_array_ref(property_kind = 'active', dtype = bool)
             if active_mask is not None:
+                active_mask = active_mask.astype(bool)  # might already be cached as integers
                 assert active_mask.shape == (self.count,)
         gcs_prop = rqp.Property(self.model, uuid = property_uuid)
         assert gcs_prop is not None
-- 
2.43.0


From c187fb622765768392628c2f53150daec9ba7a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 071/192] fix: no pinchout connection across a K gap below a
 pinched out cell

---
 resqpy/fault/_gcs_functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/resqpy/fault/_gcs_functions.py b/resqpy/fault/_gcs_functions.py
index 06b80fe..b56aa59 100644
--- a/resqpy/fault/_gcs_functions.py
+++ b/resqpy/fault/_gcs_functions.py
@@ -56,9 +56,14 @@ def pinchout_connection_set(grid, skip_inactive = True, feature_name = 'pinchout
                     continue
                 kb = ka + 1
                 while kb < grid.nk and po[kb, j, i]:
+                    if kb < grid.nk - 1 and grid.k_gaps and grid.k_gap_after_array[kb]:
+                        break
                     kb += 1
                 if kb >= grid.nk:
                     break
+                if po[kb, j, i]:  # there is a K gap directly beneath a pinched out cell
+                    ka = kb + 1
+                    continue
                 if skip_inactive and dead[kb, j, i]:
                     ka = kb
                     continue
-- 
2.43.0


From 347ef82aecbfb4e987ea6b2f12eb4e0683207dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 072/192] fix: fine to coarse mapping follows a change of
 refinement ratios

---
 resqpy/olio/fine_coarse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/fine_coarse.py b/resqpy/olio/fine_coarse.py
index d0301e2..3eb6938 100644
--- a/resqpy/olio/fine_coarse.py
+++ b/resqpy/olio/fine_coarse.py
@@ -224,6 +224,7 @@ class FineCoarse:
         assert remainder == 0, 'coarse extent in ' + 'KJI'[axis] + ' is not a multiple of fine extent'
         self.constant_ratios[axis] = extent_ratio
         self.vector_ratios[axis] = None
+        self.fine_to_coarse_mapping = None
 
     def set_ij_ratios_constant(self):
         """Set the refinement ratio for I & J axes based on the ratio of the fine to coarse extents."""
@@ -258,6 +259,7 @@ class FineCoarse:
         else:
             self.vector_ratios[axis] = vector.copy()
             self.constant_ratios[axis] = None
+            self.fine_to_coarse_mapping = None
 
     def set_equal_proportions(self, axis):
         """Set proportions equal for axis."""
-- 
2.43.0


From 276a950300c69035d8a870c35210e51efa433270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 073/192] fix: one interval per coarse slice in the parent
 window of a coarsened grid

---
 resqpy/grid/_create_grid_xml.py        | 2 +-
 resqpy/grid/_write_hdf5_from_caches.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_create_grid_xml.py b/resqpy/grid/_create_grid_xml.py
index e66a787..765ebc4 100644
--- a/resqpy/grid/_create_grid_xml.py
+++ b/resqpy/grid/_create_grid_xml.py
@@ -148,7 +148,7 @@ def _create_grid_xml(grid,
                 if grid.is_refinement:
                     interval_count = grid.parent_window.coarse_extent_kji[axis]
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                    interval_count = grid.parent_window.coarse_extent_kji[axis]
             ic_node = rqet.SubElement(intervals_node, ns['resqml2'] + 'IntervalCount')
             ic_node.set(ns['xsi'] + 'type', ns['xsd'] + 'positiveInteger')
             ic_node.text = str(interval_count)
diff --git a/resqpy/grid/_write_hdf5_from_caches.py b/resqpy/grid/_write_hdf5_from_caches.py
index db82c3b..7bdf784 100644
--- a/resqpy/grid/_write_hdf5_from_caches.py
+++ b/resqpy/grid/_write_hdf5_from_caches.py
@@ -154,7 +154,7 @@ def __write_geometry(grid, h5_reg, use_parametric_lines):
                     pcpi = np.ones(interval_count, dtype = int)
                     ccpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                    interval_count = grid.parent_window.coarse_extent_kji[axis]
                     pcpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                     ccpi = np.ones(interval_count, dtype = int)
             h5_reg.register_dataset(grid.uuid, 'KJI'[axis] + 'Regrid/ParentCountPerInterval', pcpi)
-- 
2.43.0


From 4dc8023fc9635d309ab9907daf9a7cd6b60910b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 074/192] fix: trimming of overlapping box leaves a single box
 when overlap is in its middle

---
 resqpy/olio/box_utilities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resqpy/olio/box_utilities.py b/resqpy/olio/box_utilities.py
index c17bf86..f96b10a 100644
--- a/resqpy/olio/box_utilities.py
+++ b/resqpy/olio/box_utilities.py
@@ -321,6 +321,12 @@ def overlapping_boxes(established_box, new_box, trim_box):
     for dir in range(3):
         overlap_box[0, dir] = max(established_box[0, dir], new_box[0, dir])
         overlap_box[1, dir] = min(established_box[1, dir], new_box[1, dir])
+        if overlap_box[0, dir] > new_box[0, dir] and overlap_box[1, dir] < new_box[1, dir]:
+            # overlap is away from both faces: extend to nearer face so that a single box remains after trimming
+            if overlap_box[0, dir] - new_box[0, dir] < new_box[1, dir] - overlap_box[1, dir]:
+                overlap_box[0, dir] = new_box[0, dir]
+            else:
+                overlap_box[1, dir] = new_box[1, dir]
         trim_cost[dir] = (overlap_box[1, dir] - overlap_box[0, dir] + 1) * new_box_area[dir]
         if trim_cost[dir] < min_trim_cost:
             min_trim_cost = trim_cost[dir]
-- 
2.43.0


From a24db8d9f629ac1be40fdf794bbf8305202c2eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 075/192] fix: extract box from grid with pillar geometry
 defined flags

---
 resqpy/derived_model/_extract_box.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 8d0347d..a1861c3 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -118,7 +118,9 @@ def extract_box(epc_file = None,
     # copy info for pillar geometry is defined
     grid.geometry_defined_for_all_pillars_cached = source_grid.geometry_defined_for_all_pillars_cached
     if hasattr(source_grid, 'array_pillar_geometry_is_defined'):
-        grid.array_pillar_geometry_is_defined = _array_box(source_grid.array_pillar_geometry_is_defined, box)
+        grid.array_pillar_geometry_is_defined = source_grid.array_pillar_geometry_is_defined[box[0, 1]:box[1, 1] + 2,
+                                                                                            box[0, 2]:box[1, 2] +
+                                                                                            2].copy()
         grid.geometry_defined_for_all_pillars_cached = np.all(grid.array_pillar_geometry_is_defined)
 
     # get reference to points for source grid geometry
-- 
2.43.0


From 2cc57f011c23082e83fe4ea8c1c56d534720d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 076/192] fix: comparison of extents when setting grandparent
 window of refined or coarsened grid

---
 resqpy/derived_model/_coarsened_grid.py | 5 +++--
 resqpy/derived_model/_refined_grid.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_coarsened_grid.py b/resqpy/derived_model/_coarsened_grid.py
index 54a7475..2ec70e8 100644
--- a/resqpy/derived_model/_coarsened_grid.py
+++ b/resqpy/derived_model/_coarsened_grid.py
@@ -183,12 +183,13 @@ def _set_parent_window_in_grid(set_parent_window, source_grid, grid, fine_coarse
         if isinstance(set_parent_window, str):
             if set_parent_window == 'grandparent':
                 assert fine_coarse.within_fine_box is None or (np.all(fine_coarse.within_fine_box[0] == 0) and
-                                                               np.all(fine_coarse.within_fine_box[1]) == source_grid.extent_kji - 1),  \
+                                                               np.all(fine_coarse.within_fine_box[1] == source_grid.extent_kji - 1)),  \
                    'attempt to set grandparent window for grid when parent window is present'
                 source_fine_coarse = source_grid.parent_window
                 if source_fine_coarse is not None and (source_fine_coarse.within_fine_box is not None or
                                                        source_fine_coarse.within_coarse_box is not None):
-                    assert source_fine_coarse.fine_extent_kji == source_fine_coarse.coarse_extent_kji, 'parentage involves refinement or coarsening'
+                    assert tuple(source_fine_coarse.fine_extent_kji) == tuple(
+                        source_fine_coarse.coarse_extent_kji), 'parentage involves refinement or coarsening'
                     if source_fine_coarse.within_fine_box is not None:
                         fine_coarse.within_fine_box = source_fine_coarse.within_fine_box
                     else:
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 1accb0b..46e13c1 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -344,12 +344,13 @@ def _set_parent_window(set_parent_window, source_grid, grid, fine_coarse):
     if isinstance(set_parent_window, str):
         if set_parent_window == 'grandparent':
             assert fine_coarse.within_coarse_box is None or (np.all(fine_coarse.within_coarse_box[0] == 0) and
-                                                             np.all(fine_coarse.within_coarse_box[1]) == source_grid.extent_kji - 1),  \
+                                                             np.all(fine_coarse.within_coarse_box[1] == source_grid.extent_kji - 1)),  \
                'attempt to set grandparent window for grid when parent window is present'
             source_fine_coarse = source_grid.parent_window
             if source_fine_coarse is not None and (source_fine_coarse.within_fine_box is not None or
                                                    source_fine_coarse.within_coarse_box is not None):
-                assert source_fine_coarse.fine_extent_kji == source_fine_coarse.coarse_extent_kji, 'parentage involves refinement or coarsening'
+                assert tuple(source_fine_coarse.fine_extent_kji) == tuple(
+                    source_fine_coarse.coarse_extent_kji), 'parentage involves refinement or coarsening'
                 if source_fine_coarse.within_coarse_box is not None:
                     fine_coarse.within_coarse_box = source_fine_coarse.within_coarse_box
                 else:
-- 
2.43.0


From 821d040a3d7119e5c076c9efab17022c72afab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 077/192] fix: zonal grid uses the layer range when the list
 has a single zone

---
 resqpy/derived_model/_zonal_grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index e169f0a..f55380d 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -70,8 +70,7 @@ def zonal_grid(epc_file,
     if source_grid.grid_representation == 'IjkBlockGrid':
         source_grid.make_regular_points_cached()
     assert model is not None
-    single_layer_mode = (not zone_title and not zone_uuid and
-                         (zone_layer_range_list is None or len(zone_layer_range_list) == 1))
+    single_layer_mode = (not zone_title and not zone_uuid and zone_layer_range_list is None)
 
     k0_min, k0_max = _set_or_check_k_min_max(k0_min, k0_max, source_grid)
 
-- 
2.43.0


From e40d1d38545f409af0a2150c1794770800fdad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 078/192] fix: base of zones in zonal grid is base of lowest
 layer of zone

---
 resqpy/derived_model/_zonal_grid.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index f55380d..1fc92a3 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -302,8 +302,7 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
             for zone_i in range(zone_count):
                 if zone_i == 0:
                     grid.points_cached[0] = source_points[zone_layer_range_list[zone_i][0]]
-                grid.points_cached[zone_i + 1] = source_points[zone_layer_range_list[zone_i]
-                                                               [1]]  # or could use 0th element of tuple for zone_i+1
+                grid.points_cached[zone_i + 1] = source_points[zone_layer_range_list[zone_i][1] + 1]  # base face
     elif not grid.has_split_coordinate_lines:
         log.debug('scanning columns (unsplit pillars) for reference geometry')
         # fill in geometry: todo: replace with array operations if possible
-- 
2.43.0


From 894b83f4b94e90c9bc2177b0b32916ebca64f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 079/192] fix: layers of no zone assigned to zone below when
 determining zone layer ranges

---
 resqpy/derived_model/_zone_layer_ranges_from_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 394a00e..4bc19ff 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -66,7 +66,7 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
         if zone_layer_range_list[zone_i][0] > zone_layer_range_list[zone_i - 1][1] + 1:
             log.warning('gap in zonal layer ranges, missing layer(s) being arbitrarily assigned to zone below'
                        )  # todo: add more info to log
-            zone_layer_range_list[zone_i][0] = zone_layer_range_list[zone_i - 1][1] + 1
+            zone_layer_range_list[zone_i] = (zone_layer_range_list[zone_i - 1][1] + 1,) + zone_layer_range_list[zone_i][1:]
     return zone_layer_range_list
 
 
-- 
2.43.0


From 5f8ef40ad3795c7c627dc4b77a68f6d9e93e474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 080/192] fix: unsplit version of grid with K gaps

---
 resqpy/derived_model/_unsplit_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_unsplit_grid.py b/resqpy/derived_model/_unsplit_grid.py
index 422b3ad..5d2c21b 100644
--- a/resqpy/derived_model/_unsplit_grid.py
+++ b/resqpy/derived_model/_unsplit_grid.py
@@ -67,7 +67,7 @@ def unsplit_grid(epc_file,
     grid.cache_all_geometry_arrays()  # probably already cached anyway
     unsplit = source_grid.unsplit_points_ref()
     grid.points_cached = unsplit.copy()
-    assert grid.points_cached.shape == (grid.nk + 1, grid.nj + 1, grid.ni + 1, 3), 'unsplit points have incorrect shape'
+    assert grid.points_cached.shape == (grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3), 'unsplit points have incorrect shape'
 
     grid.has_split_coordinate_lines = False
     delattr(grid, 'split_pillar_indices_cached')
-- 
2.43.0


From 91ab7b202a5d06396779eb4319b10f234cc5a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 081/192] fix: copy grid duplicates crs in target model

---
 resqpy/derived_model/_copy_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_copy_grid.py b/resqpy/derived_model/_copy_grid.py
index 4a17778..d0e2c46 100644
--- a/resqpy/derived_model/_copy_grid.py
+++ b/resqpy/derived_model/_copy_grid.py
@@ -49,7 +49,9 @@ def copy_grid(source_grid, target_model = None, copy_crs = True):
     if target_model is source_grid.model:
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     elif copy_crs and source_grid.crs_uuid is not None:
-        model.duplicate_node(source_grid.model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        if target_model.part_for_uuid(source_grid.crs_uuid) is None:
+            target_model.duplicate_node(source_grid.model.root_for_uuid(source_grid.crs_uuid), add_as_part = True)
+        grid.crs = rqc.Crs(target_model, uuid = grid.crs_uuid)
     else:
         grid.crs = None
 
-- 
2.43.0


From 61061079da5e34406da224d0adce4f351986cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 082/192] fix: zonal and single layer versions of grid with K
 gaps

---
 resqpy/derived_model/_zonal_grid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index 1fc92a3..0dced04 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -295,14 +295,15 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
     points_shape[0] = zone_count + 1  # nk + 1
     grid.points_cached = np.zeros(points_shape)
     if grid.geometry_defined_for_all_cells_cached:
+        k_raw = source_grid.k_raw_index_array if source_grid.k_gaps else np.arange(source_grid.nk)
         if single_layer_mode:
-            grid.points_cached[0] = source_points[k0_min]
-            grid.points_cached[1] = source_points[k0_max + 1]  # base face
+            grid.points_cached[0] = source_points[k_raw[k0_min]]
+            grid.points_cached[1] = source_points[k_raw[k0_max] + 1]  # base face
         else:
             for zone_i in range(zone_count):
                 if zone_i == 0:
-                    grid.points_cached[0] = source_points[zone_layer_range_list[zone_i][0]]
-                grid.points_cached[zone_i + 1] = source_points[zone_layer_range_list[zone_i][1] + 1]  # base face
+                    grid.points_cached[0] = source_points[k_raw[zone_layer_range_list[zone_i][0]]]
+                grid.points_cached[zone_i + 1] = source_points[k_raw[zone_layer_range_list[zone_i][1]] + 1]  # base face
     elif not grid.has_split_coordinate_lines:
         log.debug('scanning columns (unsplit pillars) for reference geometry')
         # fill in geometry: todo: replace with array operations if possible
-- 
2.43.0


From 5ced80671f4edfde3d4513e7c92326ff5c1856a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 083/192] fix: extract box near pillar split more than once,
 when only one of the split pillars is in use

---
 resqpy/derived_model/_extract_box.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index a1861c3..cea45e1 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -300,6 +300,8 @@ def _process_split_pillars(source_grid, grid, box, pillar_box):
                 source_pis[c_i] = source_base_pillar_count + index
             else:
                 source_pis[c_i] = source_pi
+        if not np.any(source_pis >= source_base_pillar_count):
+            continue  # no column using this split pillar is in the box
         unique_source_pis = np.unique(source_pis)
         unique_count = len(unique_source_pis)
         unique_index = 0
-- 
2.43.0


From 8fe086fbbced9db73784047befd47b5c3c4cfd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 084/192] fix: dominant zone in layer is of unmasked cells and
 does not alter mask

---
 resqpy/derived_model/_zone_layer_ranges_from_array.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 4bc19ff..77d3e65 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -72,16 +72,19 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
 
 def _dominant_zone(zone_array):
     # modifies data in zone_array such that each layer has a single (most common) value
+    # if zone_array is masked, only unmasked values are counted and the mask is not changed
+    zone_data = np.ma.getdata(zone_array)
     for k in range(zone_array.shape[0]):
-        unique_zones = np.unique(zone_array[k])
+        active_zones = np.ma.compressed(zone_array[k])
+        unique_zones = np.unique(active_zones)
         if len(unique_zones) <= 1:
             continue
         dominant = unique_zones[0]
-        dominant_count = np.count_nonzero(zone_array[k] == dominant)
+        dominant_count = np.count_nonzero(active_zones == dominant)
         for contender in unique_zones[1:]:
-            contender_count = np.count_nonzero(zone_array[k] == contender)
+            contender_count = np.count_nonzero(active_zones == contender)
             if contender_count > dominant_count:
                 dominant = contender
                 dominant_count = contender_count
-        zone_array[k] = dominant
+        zone_data[k] = dominant
         log.info('layer ' + str(k + 1) + ' (1 based) zone set to most common value ' + str(dominant))
-- 
2.43.0


From e758649a37292f2f98e8e3e4d5c6a8c48ec980a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 085/192] fix: layer without active cells is no zone variation
 when determining zone layer ranges

---
 resqpy/derived_model/_zone_layer_ranges_from_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zone_layer_ranges_from_array.py b/resqpy/derived_model/_zone_layer_ranges_from_array.py
index 77d3e65..2a4f2cc 100644
--- a/resqpy/derived_model/_zone_layer_ranges_from_array.py
+++ b/resqpy/derived_model/_zone_layer_ranges_from_array.py
@@ -56,7 +56,7 @@ def zone_layer_ranges_from_array(zone_array, min_k0 = 0, max_k0 = None, use_domi
                 break
         # require all active cells in zone layer range to be for this zone
         for k0 in range(zone_min_k0, zone_max_k0 + 1):
-            assert np.all(single_zone_mask[k0]), 'unacceptable zone variation with layer ' + str(k0 + 1)
+            assert np.all(np.ma.filled(single_zone_mask[k0], True)), 'unacceptable zone variation with layer ' + str(k0 + 1)
         zone_layer_range_list.append((zone_min_k0, zone_max_k0, zone))
     assert len(zone_layer_range_list) > 0, 'no zone layer ranges derived from zone array'
     zone_layer_range_list.sort()
-- 
2.43.0


From 703138673539abe955da544c603cdd85bf7c0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:10 +0000
Subject: [PATCH 086/192] fix: interpolation between grids with the same K gaps

---
 resqpy/derived_model/_interpolated_grid.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_interpolated_grid.py b/resqpy/derived_model/_interpolated_grid.py
index 014d991..08749c0 100644
--- a/resqpy/derived_model/_interpolated_grid.py
+++ b/resqpy/derived_model/_interpolated_grid.py
@@ -129,7 +129,10 @@ def interpolated_grid(epc_file,
 
 
 def _determine_work_from_pillars(grid_a, grid_b):
-    if not grid_a.has_split_coordinate_lines and not grid_b.has_split_coordinate_lines:
+    if bool(grid_a.k_gaps) != bool(grid_b.k_gaps) or (grid_a.k_gaps and not np.all(
+            grid_a.k_gap_after_array == grid_b.k_gap_after_array)):
+        work_from_pillars = False
+    elif not grid_a.has_split_coordinate_lines and not grid_b.has_split_coordinate_lines:
         work_from_pillars = True
     elif (grid_a.has_split_coordinate_lines and grid_b.has_split_coordinate_lines and
           grid_a.points_cached.shape == grid_b.points_cached.shape and
@@ -174,6 +177,10 @@ def _inherit_basics(grid, grid_a, grid_b):
 
 def _interpolate_points_cached_from_pillars(grid, grid_a, grid_b, a_weight, b_weight):
     grid.points_cached = grid_a.points_cached * a_weight + grid_b.points_cached * b_weight
+    grid.k_gaps = grid_a.k_gaps
+    if grid.k_gaps:
+        grid.k_gap_after_array = grid_a.k_gap_after_array.copy()
+        grid.k_raw_index_array = grid_a.k_raw_index_array.copy()
     grid.has_split_coordinate_lines = grid_a.has_split_coordinate_lines
     if grid.has_split_coordinate_lines:
         grid.split_pillar_indices_cached = grid_a.split_pillar_indices_cached.copy()
-- 
2.43.0


From 86b8a4fe531dc3b1c8d610a6980d311bb9fe71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 087/192] fix: base of zone in zonal grid when layer range
 extends below source grid

---
 resqpy/derived_model/_zonal_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index 0dced04..77aca0f 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -303,7 +303,8 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
             for zone_i in range(zone_count):
                 if zone_i == 0:
                     grid.points_cached[0] = source_points[k_raw[zone_layer_range_list[zone_i][0]]]
-                grid.points_cached[zone_i + 1] = source_points[k_raw[zone_layer_range_list[zone_i][1]] + 1]  # base face
+                base_k0 = min(zone_layer_range_list[zone_i][1], source_grid.nk - 1)
+                grid.points_cached[zone_i + 1] = source_points[k_raw[base_k0] + 1]  # base face
     elif not grid.has_split_coordinate_lines:
         log.debug('scanning columns (unsplit pillars) for reference geometry')
         # fill in geometry: todo: replace with array operations if possible
-- 
2.43.0


From 499cc4c21b2fe92ec8dad1f7faa2b4f7824a65fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 088/192] fix: inherited properties keep indexable element,
 count, null value and string lookup

---
 resqpy/property/grid_property_collection.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index badec26..987f558 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -857,7 +857,7 @@ def _coarsening_weighted_mean_singlecell(a_coarsened, a, coarsening, k, j, i, fi
             a_coarsened[k, j, i] /= weight
 
 
-def _add_to_imported(collection, a, title, info, null_value = None, const_value = None):
+def _add_to_imported(collection, a, title, info, const_value = None):
     collection.add_cached_array_to_imported_list(
         a,
         title,
@@ -866,7 +866,7 @@ def _add_to_imported(collection, a, title, info, null_value = None, const_value
         indexable_element = 'cells',
         uom = info[15],
         time_index = info[12],
-        null_value = null_value,
+        null_value = info[19],
         property_kind = info[7],
         local_property_kind_uuid = info[17],
         facet_type = info[8],
@@ -874,7 +874,8 @@ def _add_to_imported(collection, a, title, info, null_value = None, const_value
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_initial_assertions(other, box, refinement, coarsening):
@@ -1130,10 +1131,11 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         'copied from grid ' + str(other.support.uuid),
         info[10],  # citation_title
         discrete = not info[4],
-        indexable_element = 'cells',
+        indexable_element = info[6],
+        count = info[5],
         uom = info[15],
         time_index = info[12],
-        null_value = None,  # todo: extract from other's xml
+        null_value = info[19],
         property_kind = info[7],
         local_property_kind_uuid = info[17],
         facet_type = info[8],
@@ -1141,7 +1143,8 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_no_coarsening_single_resampling(a, info, collection, refinement):
-- 
2.43.0


From 5b615544cbcf8428dbd734dbe868e70b52119cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 089/192] fix: coarsening of saturation does not alter the rock
 volumes used for other properties

---
 resqpy/property/grid_property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 987f558..e06f88c 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1027,8 +1027,8 @@ def _extend_imported_coarsen_sat(source_sat, other, box, collection, realization
     fine_sat_weight = fine_nrv_array
     coarse_sat_weight = coarse_nrv_array
     if fine_poro_array is not None:
-        fine_sat_weight *= fine_poro_array
-        coarse_sat_weight *= coarse_poro_array
+        fine_sat_weight = fine_nrv_array * fine_poro_array
+        coarse_sat_weight = coarse_nrv_array * coarse_poro_array
     for (part, info) in source_sat.dict.items():
         if not copy_all_realizations and info[0] != realization:
             continue
-- 
2.43.0


From 25c7330d8778e0b3b187935b41f7bb59f49216ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 090/192] fix: extract box when the grid has properties that
 are not for cells

---
 resqpy/property/grid_property_collection.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index e06f88c..a3b5df6 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -772,12 +772,17 @@ class GridPropertyCollection(rqp.PropertyCollection):
                                                           nan_substitute_value = nan_substitute_value)
 
 
+# axes of a box (kji) which are applicable to a property array, for indexable elements which can be subset by a box
+_box_axes = {'cells': (0, 1, 2), 'columns': (1, 2), 'layers': (0,)}
+
+
 def _array_box(collection, part, box = None, uncache_other_arrays = True):
     full_array = collection.cached_part_array_ref(part)
     if box is None:
         a = full_array.copy()
     else:
-        a = full_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1].copy()
+        axes = _box_axes[collection.indexable_for_part(part)]
+        a = full_array[tuple(slice(box[0, axis], box[1, axis] + 1) for axis in axes)].copy()
     full_array = None
     if uncache_other_arrays:
         collection.uncache_part_array(part)
@@ -1117,6 +1122,10 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
     if not copy_all_realizations and info[0] != realization:
         return
 
+    if box is not None and info[6] not in _box_axes:
+        log.warning(f'property {info[10]} not inherited as box subset not available for indexable element: {info[6]}')
+        return
+
     const_value = info[20]
     if const_value is None:
         a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
-- 
2.43.0


From 064d2717fb0b79efc3ac6a3d62a6fbc1433ddbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 091/192] fix: coarsen grid that has properties other than of a
 single value for each cell

---
 resqpy/property/grid_property_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index a3b5df6..b1d3095 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -903,6 +903,9 @@ def _extend_imported_with_coarsening(collection, other, box, coarsening, realiza
     assert collection.support is not None and tuple(collection.support.extent_kji) == tuple(
         coarsening.coarse_extent_kji)
 
+    # todo: support other indexable elements
+    other = rqp_c.selective_version_of_collection(other, indexable = 'cells', count = 1, points = False)
+
     source_rv, source_ntg, source_poro, source_sat, source_perm = _extend_imported_get_fine_collections(
         other, realization)
 
-- 
2.43.0


From 1cd16043d3970dddb9c016b95de894a14cddc9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 092/192] fix: scale down constant cell lengths when refining

---
 resqpy/property/grid_property_collection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index b1d3095..6b71184 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1130,6 +1130,8 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         return
 
     const_value = info[20]
+    if refinement is not None and _is_cell_length(info):
+        const_value = None  # refined lengths might not be constant
     if const_value is None:
         a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
     else:
@@ -1180,11 +1182,15 @@ def _extend_imported_no_coarsening_single_resampling(a, info, collection, refine
     a = np.empty(tuple(refinement.fine_extent_kji), dtype = a.dtype)
     a[:, :, :] = a_refined_kj[:, :, i_ratio_vector]
     # for cell length properties, scale down the values in accordance with refinement
-    if info[4] and info[7] == 'cell length' and info[8] == 'direction' and info[5] == 1:
+    if _is_cell_length(info):
         a = _extend_imported_no_coarsening_single_resampling_length(a, info, refinement)
     return a
 
 
+def _is_cell_length(info):
+    return info[4] and info[7] == 'cell length' and info[8] == 'direction' and info[5] == 1
+
+
 def _extend_imported_no_coarsening_single_resampling_length(a, info, refinement):
     dir_ch = info[9].upper()
     log.debug(f'refining cell lengths for axis {dir_ch}')
-- 
2.43.0


From 31b00655b785ebdc2a326dd59ed13ff346396a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:30 +0000
Subject: [PATCH 093/192] fix: copy objects referenced by inherited properties
 when derived grid is written to a new epc file

---
 resqpy/derived_model/_common.py       | 11 +++++++++++
 resqpy/derived_model/_refined_grid.py |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index f0b3f6c..d7419e9 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -75,6 +75,16 @@ def _prepare_simple_inheritance(grid, source_grid, inherit_properties, inherit_r
     return collection
 
 
+def _copy_referenced_by_imported_list(model, source_model, collection):
+    # copies to model any time series, string lookups and local property kinds used by properties awaiting creation
+    if collection is None or not collection.imported_list:
+        return
+    for entry in collection.imported_list:
+        for uuid in (entry[16], entry[19], entry[20]):  # local property kind, time series, string lookup
+            if uuid is not None and model.part(uuid = uuid) is None and source_model.part(uuid = uuid) is not None:
+                model.copy_uuid_from_other_model(source_model, uuid)
+
+
 def _write_grid(epc_file,
                 grid,
                 ext_uuid = None,
@@ -144,6 +154,7 @@ def _write_grid(epc_file,
         model = rq.new_model(epc_file)
         ext_uuid = model.h5_uuid()
         crs_root = model.duplicate_node(grid.model.root_for_uuid(grid.crs_uuid))
+        _copy_referenced_by_imported_list(model, grid.model, property_collection)
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
         grid.crs = rqc.Crs(model, uuid = model.crs_uuid)
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 46e13c1..89cd604 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -115,6 +115,8 @@ def refined_grid(epc_file,
     collection = None
     if inherit_properties:
         collection = _inherit_properties(source_grid, grid, fine_coarse, inherit_realization, inherit_all_realizations)
+        if model is not model_in:
+            rqdm_c._copy_referenced_by_imported_list(model, model_in, collection)
 
     if set_parent_window:
         _set_parent_window(set_parent_window, source_grid, grid, fine_coarse)
-- 
2.43.0


From 16ea77afbf3c5874cd665e8101dd7f8df41534e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 094/192] fix: coarsen properties using weights for the same
 realization

---
 resqpy/property/grid_property_collection.py | 57 ++++++++++++++++++---
 1 file changed, 50 insertions(+), 7 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 6b71184..25614a9 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -906,17 +906,41 @@ def _extend_imported_with_coarsening(collection, other, box, coarsening, realiza
     # todo: support other indexable elements
     other = rqp_c.selective_version_of_collection(other, indexable = 'cells', count = 1, points = False)
 
+    # one realization at a time, so that weights are based on arrays for the same realization; when copying all realizations,
+    # arrays without a realization number are the basis of the weights for any realization which lacks its own
+    realizations = [realization]
+    if realization is None and copy_all_realizations:
+        realizations += sorted(set(info[0] for info in other.dict.values() if info[0] is not None))
+    default_arrays = (None, None, None)
+    for r in realizations:
+        other_r = rqp_c.selective_version_of_collection(other, realization = 'none' if r is None else r)
+        fine_arrays = _extend_imported_with_coarsening_single_realization(collection, other_r, box, coarsening, r,
+                                                                          uncache_other_arrays, default_arrays)
+        if r is None:
+            default_arrays = fine_arrays
+
+
+def _extend_imported_with_coarsening_single_realization(collection,
+                                                        other,
+                                                        box,
+                                                        coarsening,
+                                                        realization,
+                                                        uncache_other_arrays,
+                                                        default_arrays,
+                                                        copy_all_realizations = False):
+    default_rv_array, default_ntg_array, default_poro_array = default_arrays
+
     source_rv, source_ntg, source_poro, source_sat, source_perm = _extend_imported_get_fine_collections(
         other, realization)
 
     fine_rv_array, coarse_rv_array = _extend_imported_coarsen_rock_volume(source_rv, other, box, collection,
                                                                           realization, uncache_other_arrays, coarsening,
-                                                                          copy_all_realizations)
+                                                                          copy_all_realizations, default_rv_array)
 
     fine_ntg_array, coarse_ntg_array = _extend_imported_coarsen_ntg(source_ntg, other, box, collection, realization,
                                                                     uncache_other_arrays, coarsening,
                                                                     copy_all_realizations, fine_rv_array,
-                                                                    coarse_rv_array)
+                                                                    coarse_rv_array, default_ntg_array)
 
     fine_nrv_array, coarse_nrv_array = _extend_imported_nrv_arrays(fine_ntg_array, coarse_ntg_array, fine_rv_array,
                                                                    coarse_rv_array)
@@ -924,7 +948,7 @@ def _extend_imported_with_coarsening(collection, other, box, coarsening, realiza
     fine_poro_array, coarse_poro_array = _extend_imported_coarsen_poro(source_poro, other, box, collection, realization,
                                                                        uncache_other_arrays, coarsening,
                                                                        copy_all_realizations, fine_nrv_array,
-                                                                       coarse_nrv_array)
+                                                                       coarse_nrv_array, default_poro_array)
 
     _extend_imported_coarsen_sat(source_sat, other, box, collection, realization, uncache_other_arrays, coarsening,
                                  copy_all_realizations, fine_nrv_array, coarse_nrv_array, fine_poro_array,
@@ -939,6 +963,8 @@ def _extend_imported_with_coarsening(collection, other, box, coarsening, realiza
     _extend_imported_coarsen_other(other, box, collection, realization, uncache_other_arrays, coarsening,
                                    copy_all_realizations, fine_rv_array, coarse_rv_array)
 
+    return (fine_rv_array if source_rv.number_of_parts() else None), fine_ntg_array, fine_poro_array
+
 
 def _extend_imported_get_fine_collections(other, realization):
     # look for properties by kind, process in order: rock volume, net to gross ratio, porosity, permeability, saturation
@@ -957,10 +983,13 @@ def _extend_imported_get_fine_collections(other, realization):
 
 
 def _extend_imported_coarsen_rock_volume(source_rv, other, box, collection, realization, uncache_other_arrays,
-                                         coarsening, copy_all_realizations):
+                                         coarsening, copy_all_realizations, default_rv_array):
     # bulk rock volume
     fine_rv_array = coarse_rv_array = None
-    if source_rv.number_of_parts() == 0:
+    if source_rv.number_of_parts() == 0 and default_rv_array is not None:
+        fine_rv_array = default_rv_array
+        coarse_rv_array = _coarsening_sum(coarsening, fine_rv_array)
+    elif source_rv.number_of_parts() == 0:
         log.debug('computing bulk rock volume from fine and coarse grid geometries')
         source_rv_array = other.support.volume()
         if box is None:
@@ -980,7 +1009,7 @@ def _extend_imported_coarsen_rock_volume(source_rv, other, box, collection, real
 
 
 def _extend_imported_coarsen_ntg(source_ntg, other, box, collection, realization, uncache_other_arrays, coarsening,
-                                 copy_all_realizations, fine_rv_array, coarse_rv_array):
+                                 copy_all_realizations, fine_rv_array, coarse_rv_array, default_ntg_array):
 
     # net to gross ratio
     # note that coarsened ntg values may exceed one when reference bulk rock volumes are from grid geometries
@@ -995,6 +1024,13 @@ def _extend_imported_coarsen_ntg(source_ntg, other, box, collection, realization
                                                      coarse_weight = coarse_rv_array,
                                                      zero_weight_result = 0.0)
         _add_to_imported(collection, coarse_ntg_array, 'coarsened from grid ' + str(other.support.uuid), info)
+    if fine_ntg_array is None and default_ntg_array is not None:
+        fine_ntg_array = default_ntg_array
+        coarse_ntg_array = _coarsening_weighted_mean(coarsening,
+                                                     fine_ntg_array,
+                                                     fine_rv_array,
+                                                     coarse_weight = coarse_rv_array,
+                                                     zero_weight_result = 0.0)
 
     return fine_ntg_array, coarse_ntg_array
 
@@ -1011,7 +1047,7 @@ def _extend_imported_nrv_arrays(fine_ntg_array, coarse_ntg_array, fine_rv_array,
 
 
 def _extend_imported_coarsen_poro(source_poro, other, box, collection, realization, uncache_other_arrays, coarsening,
-                                  copy_all_realizations, fine_nrv_array, coarse_nrv_array):
+                                  copy_all_realizations, fine_nrv_array, coarse_nrv_array, default_poro_array):
     fine_poro_array = coarse_poro_array = None
     for (part, info) in source_poro.dict.items():
         if not copy_all_realizations and info[0] != realization:
@@ -1023,6 +1059,13 @@ def _extend_imported_coarsen_poro(source_poro, other, box, collection, realizati
                                                       coarse_weight = coarse_nrv_array,
                                                       zero_weight_result = 0.0)
         _add_to_imported(collection, coarse_poro_array, 'coarsened from grid ' + str(other.support.uuid), info)
+    if fine_poro_array is None and default_poro_array is not None:
+        fine_poro_array = default_poro_array
+        coarse_poro_array = _coarsening_weighted_mean(coarsening,
+                                                     fine_poro_array,
+                                                     fine_nrv_array,
+                                                     coarse_weight = coarse_nrv_array,
+                                                     zero_weight_result = 0.0)
 
     return fine_poro_array, coarse_poro_array
 
-- 
2.43.0


From 342411a4c27b44ae2af3bf53923ac0ba486d5137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 095/192] fix: coarsen net to gross and dependent properties
 when there is no rock volume property

---
 resqpy/property/grid_property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index 25614a9..bb00cc1 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -997,6 +997,8 @@ def _extend_imported_coarsen_rock_volume(source_rv, other, box, collection, real
         else:
             fine_rv_array = source_rv_array[box[0, 0]:box[1, 0] + 1, box[0, 1]:box[1, 1] + 1, box[0, 2]:box[1, 2] + 1]
         coarse_rv_array = collection.support.volume()
+        if coarse_rv_array is None:  # xml for geometry of coarse grid might not have been created yet
+            coarse_rv_array = _coarsening_sum(coarsening, fine_rv_array)
     else:
         for (part, info) in source_rv.dict.items():
             if not copy_all_realizations and info[0] != realization:
-- 
2.43.0


From 3755958ce02bbd4ca144cf18eced5ba1198bb786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 096/192] fix: extraction of box leaves active cell property in
 property collection of source grid

---
 resqpy/derived_model/_extract_box.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index cea45e1..1de6dd8 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -246,6 +246,10 @@ def _inherit_collection(source_grid, grid, inherit_properties, box, inherit_real
         source_collection = source_grid.extract_property_collection()
         if source_collection is not None:
             # do not inherit the inactive property array by this mechanism
+            all_collection = source_collection  # is held by the source grid, so not to be modified
+            source_collection = rqp.GridPropertyCollection()
+            source_collection.set_grid(source_grid)
+            source_collection.inherit_parts_from_other_collection(all_collection)
             active_collection = rqp.selective_version_of_collection(source_collection, property_kind = 'active')
             source_collection.remove_parts_list_from_dict(active_collection.parts())
             inactive_collection = rqp.selective_version_of_collection(
-- 
2.43.0


From df37551a3eb4514c110c72b777b4b45aa5ba2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 097/192] fix: switching between axis orders when neither is
 easting northing

---
 resqpy/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index 1052748..9f0e6a9 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -542,13 +542,13 @@ class Crs(BaseResqpy):
 
 def switch_axes(from_order, to_order, x, y):
     """Return x, y pair converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     return tuple(np.matmul(np.array((x, y), dtype = float), matrix))
 
 
 def switch_axes_array(from_order, to_order, xyz_array):
     """Modify x & y values of array in situ, converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     assert xyz_array.shape[-1] in [2, 3]
     xy = np.matmul(xyz_array[..., :2], matrix)
     xyz_array[..., :2] = xy
-- 
2.43.0


From 4eb7476cbe9e4534663d8148ff4aaf9374907066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 098/192] fix: making a point set from polylines in different
 crs leaves the polylines as they were

---
 resqpy/surface/_pointset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index 8a55ee0..e53bad1 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -213,7 +213,7 @@ class PointSet(rqsb.BaseSurface):
             assert master_crs is not None
             assert poly_coords is not None
             if not curr_crs.is_equivalent(master_crs):
-                shifted = curr_crs.convert_array_to(master_crs, poly.coordinates)
+                shifted = curr_crs.convert_array_to(master_crs, poly.coordinates.copy())
                 poly_coords = concat_polyset_points(poly.isclosed, shifted, poly_coords)
             else:
                 poly_coords = concat_polyset_points(poly.isclosed, poly.coordinates, poly_coords)
-- 
2.43.0


From 839190ec30b8ee734e6c825c171cbbd633682ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 099/192] fix: xyz box of grid in global coordinates when crs
 is rotated

---
 resqpy/grid/_regular_grid.py | 11 +++++++++--
 resqpy/grid/_xyz.py          | 19 +++++++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index eac0b6c..e8237fe 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -675,8 +675,15 @@ class RegularGrid(grr_g.Grid):
             grid.xyz_box_cached_thoroughly = True
         if local:
             return grid.xyz_box_cached
-        global_xyz_box = grid.xyz_box_cached.copy()
-        grid.local_to_global_crs(global_xyz_box, crs_uuid = grid.crs_uuid)
+        # convert eight corners of box, as ranges must be found after any rotation
+        grid_cp = np.array([[grid.xyz_box_cached[i, 0], grid.xyz_box_cached[j, 1], grid.xyz_box_cached[k, 2]]
+                            for k in [0, 1] for j in [0, 1] for i in [0, 1]])
+        if not grid.is_aligned:
+            grid_cp = np.array([
+                float(k * grid.nk) * grid.block_dxyz_dkji[0] + float(j * grid.nj) * grid.block_dxyz_dkji[1] +
+                float(i * grid.ni) * grid.block_dxyz_dkji[2] for k in [0, 1] for j in [0, 1] for i in [0, 1]
+            ])
+        global_xyz_box = grid.local_to_global_crs(grid_cp, crs_uuid = grid.crs_uuid)
         g_xyz_box = np.empty((2, 3), dtype = float)
         g_xyz_box[0] = np.amin(global_xyz_box, axis = 0)
         g_xyz_box[1] = np.amax(global_xyz_box, axis = 0)
diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index ad05335..7e62ba9 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -59,8 +59,23 @@ def xyz_box(grid, points_root = None, lazy = True, local = False):
         grid.xyz_box_cached_thoroughly = not lazy
     if local:
         return grid.xyz_box_cached
-    global_xyz_box = grid.xyz_box_cached.copy()
-    return grid.local_to_global_crs(global_xyz_box, crs_uuid = grid.crs_uuid)
+    if grid.crs is None:
+        grid.crs = rqc.Crs(grid.model, uuid = grid.crs_uuid)
+    if not grid.crs.rotated:
+        global_xyz_box = grid.xyz_box_cached.copy()
+        return grid.local_to_global_crs(global_xyz_box, crs_uuid = grid.crs_uuid)
+    # when the crs is rotated, ranges must be found after conversion
+    if lazy:
+        p = np.array([[
+            grid.point(cell_kji0 = [kp * (grid.nk - 1), jp * (grid.nj - 1), ip * (grid.ni - 1)],
+                       corner_index = [kp, jp, ip],
+                       points_root = points_root,
+                       cache_array = False) for ip in [0, 1]
+        ] for kp in [0, 1] for jp in [0, 1]])
+    else:
+        p = grid.points_ref(masked = False).copy()
+    p = grid.local_to_global_crs(p.reshape((-1, 3)), crs_uuid = grid.crs_uuid)
+    return np.stack((np.nanmin(p, axis = 0), np.nanmax(p, axis = 0)))
 
 
 def xyz_box_centre(grid, points_root = None, lazy = False, local = False):
-- 
2.43.0


From cf076e4322eed429307c2ffccc37143a807f7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 100/192] fix: use local xyz box of grid when comparing with
 local coordinates

---
 resqpy/derived_model/_extract_box_for_well.py | 2 +-
 resqpy/grid/_defined_geometry.py              | 2 +-
 resqpy/grid_surface/_trajectory_intersects.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/derived_model/_extract_box_for_well.py b/resqpy/derived_model/_extract_box_for_well.py
index 573cb75..51185ff 100644
--- a/resqpy/derived_model/_extract_box_for_well.py
+++ b/resqpy/derived_model/_extract_box_for_well.py
@@ -146,7 +146,7 @@ def extract_box_for_well(epc_file = None,
         traj_box = np.empty((2, 3))
         traj_box[0] = np.amin(trajectory.control_points, axis = 0)
         traj_box[1] = np.amax(trajectory.control_points, axis = 0)
-        grid_box = source_grid.xyz_box(lazy = False)
+        grid_box = source_grid.xyz_box(lazy = False, local = True)
         if not bx.boxes_overlap(traj_box, grid_box):
             log.error('no overlap of xyz boxes for trajectory and grid for trajectory uuid: ' + str(trajectory.uuid))
             return None, None
diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index e144010..7b0dc7c 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -295,7 +295,7 @@ def set_geometry_is_defined(grid,
 
     points[np.where(np.repeat(np.expand_dims(nan_mask, axis = nan_mask.ndim), 3, axis = -1))] = np.nan
 
-    surround_z = grid.xyz_box(lazy = False)[1 if grid.z_inc_down() else 0, 2]
+    surround_z = grid.xyz_box(lazy = False, local = True)[1 if grid.z_inc_down() else 0, 2]
 
     pillar_defined_mask = np.logical_not(np.all(nan_mask, axis = 0)).flatten()
     primary_count = (grid.nj + 1) * (grid.ni + 1)
diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index 51f6c98..bda745f 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -269,7 +269,7 @@ def find_first_intersection_of_trajectory_with_layer_interface(trajectory,
     if is_regular:
         interface_depth = grid.block_dxyz_dkji[0, 2] * (k0 + (1 if ref_k_faces == 'base' else 0))
         surface = rqs.Surface(grid.model)
-        surface.set_to_horizontal_plane(interface_depth, grid.xyz_box())
+        surface.set_to_horizontal_plane(interface_depth, grid.xyz_box(local = True))
     elif grid.has_split_coordinate_lines and not heal_faults:
         surface = rqgs.generate_torn_surface_for_layer_interface(grid,
                                                                  k0 = k0,
-- 
2.43.0


From 69f0b475cc1e270919211915e0355d4817d3bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 101/192] fix: sign of bilinear face term in volumes of
 hexahedral cells

---
 resqpy/olio/volume.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resqpy/olio/volume.py b/resqpy/olio/volume.py
index 33ba4b5..982cf51 100644
--- a/resqpy/olio/volume.py
+++ b/resqpy/olio/volume.py
@@ -3,8 +3,8 @@
 import numpy as np
 
 
-def _pyr(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid, defined by specific vectors
-    return np.dot(ra, np.cross(db, ac)) + 0.5 * np.dot(ac, np.cross(ad, ab))
+def _pyr(ra, ab, ac, ad, bd):  # returns 6 * volume of one quad pyramid, defined by specific vectors
+    return np.dot(ra, np.cross(bd, ac)) - 0.5 * np.dot(ac, np.cross(ad, ab))
 
 
 def pyramid_volume(apex, a, b, c, d, crs_is_right_handed = False):
@@ -25,7 +25,7 @@ def pyramid_volume(apex, a, b, c, d, crs_is_right_handed = False):
     b = np.array(b)
     c = np.array(c)
     d = np.array(d)
-    v = _pyr(a - apex, b - a, c - a, d - a, b - d) / 6.0
+    v = -_pyr(a - apex, b - a, c - a, d - a, d - b) / 6.0
     if not crs_is_right_handed:
         v = -v
     return v
@@ -114,8 +114,8 @@ def tetra_volumes(cp, centres = None, off_hand = False):
        those length units cubed
     """
 
-    def pyrs(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid (for each cell)
-        return np.sum(ra * np.cross(db, ac), axis = -1) + 0.5 * np.sum(ac * np.cross(ad, ab), axis = -1)
+    def pyrs(ra, ab, ac, ad, bd):  # returns 6 * volume of one quad pyramid (for each cell)
+        return np.sum(ra * np.cross(bd, ac), axis = -1) - 0.5 * np.sum(ac * np.cross(ad, ab), axis = -1)
 
     # Pagoda style corner point data
     assert cp.ndim == 7
-- 
2.43.0


From ed5b07b24079256d02ea8b78ce765a850019c013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 102/192] fix: load split pillar indices when needed for points
 on parametric lines

---
 resqpy/grid/_points_functions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 26ccc95..b291f25 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -227,6 +227,15 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         assert hasattr(grid, 'temp_cp') and grid.temp_cp is not None and grid.temp_cp.shape == (2, pp_count, 3)
         pillar_count = pp_count
         if grid.has_split_coordinate_lines:
+            if not hasattr(grid, 'split_pillar_indices_cached'):
+                split_root = grid.resolve_geometry_child('SplitCoordinateLines')
+                h5_key_pair = grid.model.h5_uuid_and_path_for_node(rqet.find_tag(split_root, 'PillarIndices'))
+                grid.model.h5_array_element(h5_key_pair,
+                                            index = None,
+                                            cache_array = True,
+                                            object = grid,
+                                            array_attribute = 'split_pillar_indices_cached',
+                                            dtype = 'int')
             assert hasattr(grid, 'split_pillar_indices_cached') and grid.split_pillar_indices_cached is not None
             pillar_count += grid.split_pillar_indices_cached.size
         cpp = np.empty((2, pillar_count), dtype = float)
-- 
2.43.0


From 853b5554472fecce7c2eb1d68222ee7c5569a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 103/192] fix: single point of grid with geometry on parametric
 lines

---
 resqpy/grid/_points_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index b291f25..c6736ce 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -271,6 +271,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         delattr(grid, 'temp_cpp')
         delattr(grid, 'temp_cp')
         delattr(grid, 'temp_parameters')
+        if index is not None:
+            value = grid.points_cached[tuple(index)]
     else:
         raise NotImplementedError(f'grid gepmetry loading for points type: {points_type}')
     if index is None:
-- 
2.43.0


From eedac99408c16d1a5c9984a6b2a86e78a480f028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 104/192] fix: indices of pillar when checking that its
 geometry is defined

---
 resqpy/grid/_points_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index c6736ce..b199f2b 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -158,8 +158,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         if len(index) == 3:
             ji = tuple(index[1:])
         else:
-            ji = tuple(divmod(index[1], grid.ni))
-        if ji[0] < grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
+            ji = tuple(divmod(index[1], grid.ni + 1))
+        if ji[0] <= grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
             return None
     if grid.points_cached is not None:
         if index is None:
-- 
2.43.0


From b5592263edc7c27b59fad31888cad48f7ae0b6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 105/192] fix: shape of points for cross section of unfaulted
 grid with k gaps

---
 resqpy/grid/_points_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index b199f2b..6b68b7c 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -576,7 +576,8 @@ def split_gap_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, ma
     if grid.has_split_coordinate_lines:
         points = grid.points_ref(masked = masked)
     else:
-        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps, (grid.nj + 1) * (grid.ni + 1), 3))
+        points = grid.points_ref(masked = masked).reshape(
+            (grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
-- 
2.43.0


From 3c6d208522e4b28b6e9e1c342f1bc00274f25048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 106/192] fix: split column faces at edges of grid

---
 resqpy/grid/_face_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index 8f7fc64..f854621 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -69,12 +69,12 @@ def split_column_faces(grid):
         if j_p > 0 and j_p < grid.nj:
             if i_p > 0 and grid.is_split_column_face(j_p, i_p - 1, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p - 1] = True
-            if i_p < grid.ni - 1 and grid.is_split_column_face(j_p, i_p, 1, 0):
+            if i_p < grid.ni and grid.is_split_column_face(j_p, i_p, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p] = True
         if i_p > 0 and i_p < grid.ni:
             if j_p > 0 and grid.is_split_column_face(j_p - 1, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p - 1, i_p - 1] = True
-            if j_p < grid.nj - 1 and grid.is_split_column_face(j_p, i_p, 2, 0):
+            if j_p < grid.nj and grid.is_split_column_face(j_p, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p, i_p - 1] = True
     return grid.array_j_column_face_split, grid.array_i_column_face_split
 
-- 
2.43.0


From a78f80b4648624969a1a2ea7b27a83e6a8e5939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 107/192] fix: check all pillars when looking for undefined
 geometry

---
 resqpy/grid/_defined_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index 7b0dc7c..3677909 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -175,8 +175,8 @@ def geometry_defined_for_all_pillars(grid, cache_array = True, pillar_geometry_i
     is_def_root = grid.resolve_geometry_child('PillarGeometryIsDefined', child_node = pillar_geometry_is_defined_root)
     grid.geometry_defined_for_all_pillars_cached = True
     if is_def_root is not None:
-        for pillar_j in range(grid.nj):
-            for pillar_i in range(grid.ni):
+        for pillar_j in range(grid.nj + 1):
+            for pillar_i in range(grid.ni + 1):
                 if not grid.pillar_geometry_is_defined(
                     [pillar_j, pillar_i], pillar_geometry_is_defined_root = is_def_root, cache_array = False):
                     grid.geometry_defined_for_all_pillars_cached = False
-- 
2.43.0


From 2a2d1f6559915b0e173d597982389afd553c6abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 108/192] fix: discard pinchout mask and xyz box when setting
 grid points from property

---
 resqpy/grid/_points_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 6b68b7c..e979c72 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -105,6 +105,8 @@ def set_cached_points_from_property(grid,
     # invalidate anything cached that is derived from geometry
     grid.geometry_defined_for_all_pillars_cached = None
     grid.geometry_defined_for_all_cells_cached = None
+    grid.pinchout = None
+    grid.xyz_box_cached = None
     for attr in ('array_unsplit_points', 'array_corner_points', 'array_centre_point', 'array_thickness', 'array_volume',
                  'array_half_cell_t', 'array_k_transmissibility', 'array_j_transmissibility',
                  'array_i_transmissibility', 'fgcs', 'array_fgcs_transmissibility', 'pgcs',
-- 
2.43.0


From 2fb0ca646f3a73af822be615ab0e28cd625dd395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 109/192] fix: thickness of single cell from property without
 caching

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index d7ca8da..8d99ba5 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -85,7 +85,7 @@ def thickness(grid,
             grid.array_thickness = thick.copy()
         if cell_kji0 is None:
             return grid.array_thickness
-        return grid.array_thickness[tuple(cell_kji0)]  # could check for nan here and return None
+        return thick[tuple(cell_kji0)]  # could check for nan here and return None
 
     points_root = grid.resolve_geometry_child('Points', child_node = points_root)
     if cache_thickness_array:
-- 
2.43.0


From 956db3b9dc602866b04c2450da21ee5053a3719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 110/192] fix: change of units of cached cell volumes leaves
 other holders of the array unchanged

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index 8d99ba5..956b918 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -190,7 +190,7 @@ def volume(grid,
 
     if hasattr(grid, 'array_volume'):
         if required_uom != grid.array_volume_uom:
-            grid.array_volume = wam.convert_volumes(grid.array_volume, grid.array_volume_uom, required_uom)
+            grid.array_volume = wam.convert_volumes(grid.array_volume.copy(), grid.array_volume_uom, required_uom)
             grid.array_volume_uom = required_uom
         if cell_kji0 is None:
             return grid.array_volume
-- 
2.43.0


From 54cfda9aed88322357996a65f9b160f49d9c7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 111/192] fix: cells without geometry are pinched out

---
 resqpy/grid/_cell_properties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index 956b918..3649df1 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -309,6 +309,9 @@ def pinched_out(grid,
         cache_thickness_array = cache_thickness_array or cache_pinchout_array)
     if cache_pinchout_array:
         grid.pinchout = np.where(np.isnan(grid.array_thickness), True, np.logical_not(grid.array_thickness > tolerance))
+        defined = grr_dg.cell_geometry_is_defined_ref(grid)
+        if defined is not None:
+            grid.pinchout = np.logical_or(grid.pinchout, np.logical_not(defined))
         if cell_kji0 is None:
             return grid.pinchout
         return grid.pinchout[tuple(cell_kji0)]
-- 
2.43.0


From 55356086a27667911acb154744baa8d78c8bb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 112/192] fix: no polyline for cell without geometry

---
 resqpy/grid/_cell_properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index 3649df1..3d14624 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -436,6 +436,8 @@ def poly_line_for_cell(grid, cell_kji0, vertical_ref = 'top'):
     else:
         raise ValueError('vertical reference not catered for: ' + vertical_ref)
     poly = np.empty((4, 3))
+    if not grr_dg.cell_geometry_is_defined(grid, cell_kji0 = cell_kji0):
+        return None
     cp = grid.corner_points(cell_kji0 = cell_kji0)
     if cp is None:
         return None
-- 
2.43.0


From bb0c15ccebfad3a5416206b5e58f4efd7102611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 113/192] fix: K axis of regular grid based on mesh is aligned
 with z axis

---
 resqpy/grid/_regular_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index e8237fe..1e7e81b 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -129,7 +129,7 @@ class RegularGrid(grr_g.Grid):
                 assert dxyz is None and dxyz_dkji is None
                 origin = mesh.regular_origin
                 dxyz_dkji = np.empty((3, 3))
-                dxyz_dkji[0, :] = mesh_dz_dk
+                dxyz_dkji[0, :] = (0.0, 0.0, mesh_dz_dk)
                 dxyz_dkji[1, :] = mesh.regular_dxyz_dij[1]  # J axis
                 dxyz_dkji[2, :] = mesh.regular_dxyz_dij[0]  # I axis
                 if crs_uuid is None:
-- 
2.43.0


From ffc124c26ef562b3e651a84583842295e9554db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 114/192] fix: xyz box, points of slice and finding of cell for
 regular grid with own origin

---
 resqpy/grid/_regular_grid.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index 1e7e81b..bb39ed5 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -672,6 +672,7 @@ class RegularGrid(grr_g.Grid):
                 grid_cp = grid_cp.reshape((8, 3))
                 grid.xyz_box_cached[0] = np.amin(grid_cp, axis = 0)
                 grid.xyz_box_cached[1] = np.amax(grid_cp, axis = 0)
+            grid.xyz_box_cached += grid.block_origin
             grid.xyz_box_cached_thoroughly = True
         if local:
             return grid.xyz_box_cached
@@ -681,7 +682,8 @@ class RegularGrid(grr_g.Grid):
         if not grid.is_aligned:
             grid_cp = np.array([
                 float(k * grid.nk) * grid.block_dxyz_dkji[0] + float(j * grid.nj) * grid.block_dxyz_dkji[1] +
-                float(i * grid.ni) * grid.block_dxyz_dkji[2] for k in [0, 1] for j in [0, 1] for i in [0, 1]
+                float(i * grid.ni) * grid.block_dxyz_dkji[2] + grid.block_origin for k in [0, 1] for j in [0, 1]
+                for i in [0, 1]
             ])
         global_xyz_box = grid.local_to_global_crs(grid_cp, crs_uuid = grid.crs_uuid)
         g_xyz_box = np.empty((2, 3), dtype = float)
@@ -701,8 +703,8 @@ class RegularGrid(grr_g.Grid):
             y = a[0, 1]
         log.debug(f'find for local x: {x}; y: {y}')
         if self.is_aligned:
-            i0 = maths.floor(x / self.block_dxyz_dkji[2, 0])
-            j0 = maths.floor(y / self.block_dxyz_dkji[1, 1])
+            i0 = maths.floor((x - self.block_origin[0]) / self.block_dxyz_dkji[2, 0])
+            j0 = maths.floor((y - self.block_origin[1]) / self.block_dxyz_dkji[1, 1])
         else:
             # TODO
             raise NotImplementedError('finding cell for x,y in unaligned regular grid')
@@ -849,8 +851,9 @@ class RegularGrid(grr_g.Grid):
         dxyz_da = self.block_dxyz_dkji[other_axes[0]]
         dxyz_db = self.block_dxyz_dkji[other_axes[1]]
         p = np.zeros(shape, dtype = float)
+        p[0, 0] = self.block_origin
         if ref_slice:
-            p[0, 0] = ref_slice * self.block_dxyz_dkji[axis]
+            p[0, 0] += ref_slice * self.block_dxyz_dkji[axis]
         for a in range(1, shape[0]):
             p[a, 0] = p[0, 0] + a * dxyz_da
         for b in range(1, shape[1]):
-- 
2.43.0


From 2160f11a2a2e72362b8c25eab46b7a5c57fb6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 115/192] fix: handedness of regular grid

---
 resqpy/grid/_regular_grid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index bb39ed5..40057dc 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -116,7 +116,7 @@ class RegularGrid(grr_g.Grid):
             self.extent_kji = np.array(extent_kji).copy()
             self.nk, self.nj, self.ni = self.extent_kji
             self.k_direction_is_down = True  # assumed direction
-            self.grid_is_right_handed = False  # todo: work it out from dxyz_dkji and crs xyz handedness
+            self.grid_is_right_handed = False  # worked out below, once the crs is known
             self.has_split_coordinate_lines = False
             self.k_gaps = None
             self.k_gap_after_array = None
@@ -173,6 +173,9 @@ class RegularGrid(grr_g.Grid):
                 crs_uuid = new_crs.uuid
             self.crs_uuid = crs_uuid
             self.crs = rqc.Crs(parent_model, uuid = crs_uuid) if new_crs is None else new_crs
+            # IJK handedness depends on direction of steps and handedness of xyz axes
+            self.grid_is_right_handed = ((np.linalg.det(self.block_dxyz_dkji[::-1]) > 0.0)
+                                         == self.crs.is_right_handed_xyz())
 
         else:
 
-- 
2.43.0


From f1a25dd10869bc476696e2828ff5c09d8e213542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:56 +0000
Subject: [PATCH 116/192] fix: count of cells which are not pinched out for
 regular grid

---
 resqpy/grid/_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_grid.py b/resqpy/grid/_grid.py
index ad9cff1..94ec2ec 100644
--- a/resqpy/grid/_grid.py
+++ b/resqpy/grid/_grid.py
@@ -250,8 +250,8 @@ class Grid(BaseResqpy):
         if not (active_only or non_pinched_out_only or geometry_defined_only):
             return np.prod(self.extent_kji)
         if non_pinched_out_only:
-            self.pinched_out(cache_pinchout_array = True)
-            return self.pinchout.size - np.count_nonzero(self.pinchout)
+            pinchout = self.pinched_out(cache_pinchout_array = True) if self.pinchout is None else self.pinchout
+            return pinchout.size - np.count_nonzero(pinchout)
         if active_only:
             if self.all_inactive:
                 return 0
-- 
2.43.0


From 115edda8f8f91bd04bc51c89c7f417c0af2fd4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 117/192] fix: surface role when loading surface

---
 resqpy/surface/_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d2b183e..9c3f1c1 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -226,6 +226,9 @@ class Surface(rqsb.BaseSurface):
         root_node = self.root
         assert root_node is not None
         self.extract_patches(root_node)
+        role = rqet.find_tag_text(root_node, 'SurfaceRole')
+        if role:
+            self.surface_role = role
         ref_node = rqet.find_tag(root_node, 'RepresentedInterpretation')
         if ref_node is not None:
             interp_root = self.model.referenced_node(ref_node)
-- 
2.43.0


From 141a139e063e3a7203544946f31f7c61b62035ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 118/192] fix: clear cached triangles when setting multi patch
 surface

---
 resqpy/surface/_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 9c3f1c1..217520c 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -561,7 +561,7 @@ class Surface(rqsb.BaseSurface):
         """Populate this (empty) Surface object from a list of paits: array of triangle corner indices, array of points."""
 
         self.patch_list = []
-        self.trianges = None
+        self.triangles = None
         self.points = None
         for patch, entry in enumerate(triangles_and_points_list):
             assert len(entry) == 2, 'expecting pair of arrays (triangles, points) for each patch'
-- 
2.43.0


From b3e9e6dc5ef5f1c6ef1e89ead0be2d53e622f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 119/192] fix: three dimensional points for surface set from xy
 points

---
 resqpy/surface/_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 217520c..11f240d 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -555,7 +555,7 @@ class Surface(rqsb.BaseSurface):
         self.patch_list = [tri_patch]
         self.uuid = bu.new_uuid()
         self.triangles = triangles.copy()
-        self.points = points.copy()
+        self.points = tri_patch.points.copy()
 
     def set_multi_patch_from_triangles_and_points(self, triangles_and_points_list):
         """Populate this (empty) Surface object from a list of paits: array of triangle corner indices, array of points."""
-- 
2.43.0


From 2ffe67f7d1aca4eca6c4183554cf8235e0b4f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:59 +0000
Subject: [PATCH 120/192] fix: patches of surface in step with triangles that
 have been made clockwise

---
 resqpy/surface/_surface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 11f240d..02c75bb 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -724,6 +724,13 @@ class Surface(rqsb.BaseSurface):
         else:
             p_xy = p
         triangulate.make_all_clockwise_xy(self.triangles, p_xy)  # modifies t in situ
+        # keep patches in step with composite triangles
+        t_start = 0
+        p_start = 0
+        for patch in self.patch_list:
+            patch.triangles = self.triangles[t_start:t_start + patch.triangle_count] - p_start
+            t_start += patch.triangle_count
+            p_start += patch.node_count
         # assert np.all(vec.clockwise_triangles(p_xy, self.triangles) >= 0.0)
 
     def unit_adjusted_points(self):
-- 
2.43.0


From 3d015ef898957b808979b3ea934f4cea886b6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 121/192] fix: node counts expected when finding face of cell
 for triangle

---
 resqpy/surface/_triangulated_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_triangulated_patch.py b/resqpy/surface/_triangulated_patch.py
index 9600ff9..ad2b92f 100644
--- a/resqpy/surface/_triangulated_patch.py
+++ b/resqpy/surface/_triangulated_patch.py
@@ -542,11 +542,11 @@ class TriangulatedPatch:
         """For patch freshly built for cell faces, returns (axis, polarity) for given triangle index."""
 
         if self.quad_triangles:
-            assert self.node_count == 30 and self.triangle_count == 24
+            assert self.node_count == 14 and self.triangle_count == 24
             assert 0 <= triangle_index < 24
             face = triangle_index // 4
         else:
-            assert self.node_count == 24 and self.triangle_count == 12
+            assert self.node_count == 8 and self.triangle_count == 12
             assert 0 <= triangle_index < 12
             face = triangle_index // 2
         axis, polarity = divmod(face, 2)
-- 
2.43.0


From 0c1e86282d3690693e0b0df92da53ee00c48fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 122/192] fix: z values of mesh file are discarded for regular
 mesh

---
 resqpy/surface/_mesh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 73a1825..753d0f2 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -408,6 +408,8 @@ class Mesh(rqsb.BaseSurface):
             if mesh_flavour in ['regular', 'reg&z']:
                 self.regular_origin = (min_x, min_y, 0.0)
                 self.regular_dxyz_dij = dxyz_dij
+                if mesh_flavour == 'regular':
+                    self.full_array[..., 2] = 0.0  # z values discarded
             elif mesh_flavour == 'ref&z':
                 self.ref_mesh = Mesh(self.model,
                                      ni = self.ni,
-- 
2.43.0


From 96e3c5c35b922851869427f5e4b33de95f37a0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 123/192] fix: mesh with reference mesh when loading from mesh
 file

---
 resqpy/surface/_mesh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 753d0f2..ef53ae7 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -414,11 +414,11 @@ class Mesh(rqsb.BaseSurface):
                 self.ref_mesh = Mesh(self.model,
                                      ni = self.ni,
                                      nj = self.nj,
-                                     origin = self.regular_origin,
+                                     origin = (min_x, min_y, 0.0),
                                      dxyz_dij = dxyz_dij,
                                      crs_uuid = crs_uuid)
                 assert self.ref_mesh is not None
-                assert self.ref_mesh.nj == nj and self.ref_mesh.ni == ni
+                self.ref_uuid = self.ref_mesh.uuid
             else:
                 log.critical('code failure')
         assert self.crs_uuid is not None, 'crs uuid missing'
@@ -674,6 +674,8 @@ class Mesh(rqsb.BaseSurface):
                 oc_node.text = str(self.nj - 1)
 
         ref_root = self.model.root_for_uuid(self.ref_uuid)
+        if ref_root is None:  # supporting mesh created when loading from mesh file
+            ref_root = self.ref_mesh.create_xml()
         self.model.create_ref_node('SupportingRepresentation',
                                    rqet.find_nested_tags_text(ref_root, ['Citation', 'Title']),
                                    self.ref_uuid,
-- 
2.43.0


From a07c3c0af197ad2d3890c08aba555bd13806a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 124/192] fix: relationship between mesh and its supporting
 mesh

---
 resqpy/surface/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index ef53ae7..025057e 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -305,6 +305,7 @@ class Mesh(rqsb.BaseSurface):
 
         elif self.flavour == 'ref&z':
             self.__create_xml_refandz(p_node, ext_uuid)
+            ref_root = self.model.root_for_uuid(self.ref_uuid)
 
         elif self.flavour == 'reg&z':
             self.__create_xml_regandz(p_node, ext_uuid)
-- 
2.43.0


From ca3e966de8f690e897eaf421914848c7c275335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 125/192] fix: reading of file holding a single point

---
 resqpy/surface/_pointset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index e53bad1..e0aa9de 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -145,7 +145,7 @@ class PointSet(rqsb.BaseSurface):
             charisma_file: a charisma 3d interpretation file
         """
         with open(charisma_file, 'r') as surf:
-            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8')
+            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8', ndmin = 2)
         self.add_patch(cpoints)
         assert self.crs_uuid is not None, 'crs uuid missing when establishing point set from charisma file'
         if not self.title:
@@ -160,7 +160,7 @@ class PointSet(rqsb.BaseSurface):
                 it is excluded
         """
         with open(irap_file, 'r') as points:
-            cpoints = np.loadtxt(points, encoding = 'uft-8')
+            cpoints = np.loadtxt(points, encoding = 'uft-8', ndmin = 2)
         assert len(cpoints), f'no points loaded from irap file: {irap_file}'
         assert cpoints.ndim == 2 and cpoints.shape[1] == 3
         if remove_trailing_999 and np.all(np.isclose(cpoints[-1], 999.0)):
-- 
2.43.0


From 12e8ff829572632c6f7355541b55b5e5301b24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 126/192] fix: points on edges of tri mesh at value in x or y

---
 resqpy/surface/_tri_mesh.py | 113 +++++++++++-------------------------
 1 file changed, 33 insertions(+), 80 deletions(-)

diff --git a/resqpy/surface/_tri_mesh.py b/resqpy/surface/_tri_mesh.py
index 2b531fa..47f43ca 100644
--- a/resqpy/surface/_tri_mesh.py
+++ b/resqpy/surface/_tri_mesh.py
@@ -483,86 +483,39 @@ class TriMesh(rqs.Mesh):
         abs_zero = np.expand_dims(np.abs(zero), axis = -1)
         p = np.empty((0, 3), dtype = float)
 
-        if axis == 0:  # x axis
-
-            xi, xr = divmod(value, self.t_side)
-            if xi >= 0.0 and xi + xr < (float(self.ni) - 0.5) * self.t_side:
-                i = round(xi)
-                xrf = xr / self.t_side
-                if xi + xr < float(self.ni - 1) * self.t_side:
-                    # I edges, even node j
-                    p = xyz[::2, i] * (1.0 - xrf) + xyz[::2, i + 1] * xrf
-                if i or xrf > 0.5:
-                    vp = value - 0.5 * self.t_side
-                    xip, xrp = divmod(vp, self.t_side)
-                    xrp /= self.t_side
-                    # i edges, odd node j
-                    ip = round(xip)
-                    pp = xyz[1::2, ip] * (1.0 - xrp) + xyz[1::2, ip + 1] * xrp
-                    p = np.concatenate((p, pp))
-                if xr != 0.0 and xrf != 0.5:
-                    # j edges of one sort ot the other
-                    if xrf < 0.5:
-                        xrp = 2.0 * xrf
-                        pp = xyz[:-1:2, i] * (1.0 - xrp) + xyz[1::2, i] * xrp
-                        p = np.concatenate((p, pp))
-                        pp = xyz[1:-1:2, i] * xrp + xyz[2::2, i] * (1.0 - xrp)
-                        p = np.concatenate((p, pp))
-                    else:
-                        xrp = 2.0 * (1.0 - xrf)
-                        pp = xyz[:-1:2, i + 1] * (1.0 - xrp) + xyz[1::2, i] * xrp
-                        p = np.concatenate((p, pp))
-                        pp = xyz[1:-1:2, i] * xrp + xyz[2::2, i + 1] * (1.0 - xrp)
-                        p = np.concatenate((p, pp))
-
-        elif axis == 1:
-
-            yi, yr = divmod(value, self.t_side * root_3_by_2)
-
-            if yi >= 0 and yi + yr <= (self.nj - 1) * self.t_side * root_3_by_2:
-                j = round(yi)
-                if yr == 0.0:  # add first and last points from in-line edges
-                    p = np.array([xyz[j, 0], xyz[j, -1]], dtype = float)
-                else:
-                    yrp = yr / (self.t_side * root_3_by_2)
-                    p = xyz[j, :] * (1.0 - yrp) + xyz[j + 1, :] * yrp
-                    if j % 2:
-                        pp = xyz[j, 1:] * (1.0 - yrp) + xyz[j + 1, :-1] * yrp
-                    else:
-                        pp = xyz[j, :-1] * (1.0 - yrp) + xyz[j + 1, 1:] * yrp
-                p = np.concatenate((p, pp))
-
-        else:  # z axis
-
-            # i edges
-            crossing = np.where(zero[:, :-1] * zero[:, 1:] < 0.0)  # zero crossing i edge indices
-            if len(crossing[0]):
-                s = abs_zero[:, :-1] + abs_zero[:, 1:]
-                # TODO: ignore divide by zero
-                w = (xyz[:, :-1, :] * abs_zero[:, 1:] + xyz[:, 1:, :] * abs_zero[:, :-1]) / s
-                # TODO: unignore, and use midpoint of those edges?
-                p = np.concatenate((p, w[crossing]))
-
-            # one set of j edges
-            crossing = np.where(zero[:-1, :] * zero[1:, :] < 0.0)  # zero crossing j edge indices
-            if len(crossing[0]):
-                s = abs_zero[:-1, :] + abs_zero[1:, :]
-                w = (xyz[:-1, :, :] * abs_zero[1:, :] + xyz[1:, :, :] * abs_zero[:-1, :]) / s
-                p = np.concatenate((p, w[crossing]))
-
-            # other set of j edges (even j base)
-            crossing = np.where(zero[:-1:2, 1:] * zero[1::2, :-1] < 0.0)  # zero crossing j edge indices
-            if len(crossing[0]):
-                s = abs_zero[:-1:2, 1:] + abs_zero[1::2, :-1]
-                w = (xyz[:-1:2, 1:, :] * abs_zero[1::2, :-1] + xyz[1::2, :-1, :] * abs_zero[:-1:2, 1:]) / s
-                p = np.concatenate((p, w[crossing]))
-
-            # other set of j edges (odd j base)
-            crossing = np.where(zero[1:-1:2, :-1] * zero[2::2, 1:] < 0.0)  # zero crossing j edge indices
-            if len(crossing[0]):
-                s = abs_zero[1:-1:2, :-1] + abs_zero[2::2, 1:]
-                w = (xyz[1:-1:2, :-1, :] * abs_zero[2::2, 1:] + xyz[2::2, 1:, :] * abs_zero[1:-1:2, :-1]) / s
-                p = np.concatenate((p, w[crossing]))
+        if axis < 2:  # x or y axis: include any nodes having the value
+            p = xyz[np.isclose(zero, 0.0, atol = 1.0e-9 * self.t_side)]
+            zero = np.where(np.isclose(zero, 0.0, atol = 1.0e-9 * self.t_side), 0.0, zero)
+
+        # i edges
+        crossing = np.where(zero[:, :-1] * zero[:, 1:] < 0.0)  # zero crossing i edge indices
+        if len(crossing[0]):
+            s = abs_zero[:, :-1] + abs_zero[:, 1:]
+            # TODO: ignore divide by zero
+            w = (xyz[:, :-1, :] * abs_zero[:, 1:] + xyz[:, 1:, :] * abs_zero[:, :-1]) / s
+            # TODO: unignore, and use midpoint of those edges?
+            p = np.concatenate((p, w[crossing]))
+
+        # one set of j edges
+        crossing = np.where(zero[:-1, :] * zero[1:, :] < 0.0)  # zero crossing j edge indices
+        if len(crossing[0]):
+            s = abs_zero[:-1, :] + abs_zero[1:, :]
+            w = (xyz[:-1, :, :] * abs_zero[1:, :] + xyz[1:, :, :] * abs_zero[:-1, :]) / s
+            p = np.concatenate((p, w[crossing]))
+
+        # other set of j edges (even j base)
+        crossing = np.where(zero[:-1:2, 1:] * zero[1::2, :-1] < 0.0)  # zero crossing j edge indices
+        if len(crossing[0]):
+            s = abs_zero[:-1:2, 1:] + abs_zero[1::2, :-1]
+            w = (xyz[:-1:2, 1:, :] * abs_zero[1::2, :-1] + xyz[1::2, :-1, :] * abs_zero[:-1:2, 1:]) / s
+            p = np.concatenate((p, w[crossing]))
+
+        # other set of j edges (odd j base)
+        crossing = np.where(zero[1:-1:2, :-1] * zero[2::2, 1:] < 0.0)  # zero crossing j edge indices
+        if len(crossing[0]):
+            s = abs_zero[1:-1:2, :-1] + abs_zero[2::2, 1:]
+            w = (xyz[1:-1:2, :-1, :] * abs_zero[2::2, 1:] + xyz[2::2, 1:, :] * abs_zero[1:-1:2, :-1]) / s
+            p = np.concatenate((p, w[crossing]))
 
         return p
 
-- 
2.43.0


From a7dc8b2bfd5a1df71c7131bbb3cd7b704ef0d2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:45 +0000
Subject: [PATCH 127/192] fix: title inherited when applying stencil to tri
 mesh

---
 resqpy/surface/_tri_mesh_stencil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_tri_mesh_stencil.py b/resqpy/surface/_tri_mesh_stencil.py
index f5f2784..0316e6c 100644
--- a/resqpy/surface/_tri_mesh_stencil.py
+++ b/resqpy/surface/_tri_mesh_stencil.py
@@ -271,7 +271,7 @@ class TriMeshStencil:
                          ni = tri_mesh.ni,
                          origin = tri_mesh.origin,
                          z_uom = tri_mesh.z_uom,
-                         title = title,
+                         title = title if title else tri_mesh.title,
                          z_values = tm_z_applied,
                          surface_role = tri_mesh.surface_role,
                          crs_uuid = tri_mesh.crs_uuid)
-- 
2.43.0


From 5779be3d3d82ec42620830fffff5423067db8fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 128/192] fix: area of convex polygon is in the xy plane

---
 resqpy/lines/_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index e096b06..9155400 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -800,7 +800,7 @@ class Polyline(rql_c._BasePolyline):
             centre = np.mean(self.coordinates, axis = 0)
             a = 0.0
             for node in range(len(self.coordinates)):
-                a += vu.area_of_triangle(centre, self.coordinates[node - 1], self.coordinates[node])
+                a += 0.5 * abs(vu.clockwise(centre, self.coordinates[node - 1], self.coordinates[node]))
         else:  # use a regular 2D sampling of points to determine approx area
             xy_box = np.zeros((2, 2), dtype = float)
             xy_box[0] = np.min(self.coordinates[:, :2], axis = 0)
-- 
2.43.0


From 5c9a95d7173e301eaca2df464e372aac74f45461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 129/192] fix: clockwise test for polygon that is not convex

---
 resqpy/lines/_polyline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 9155400..c0333cc 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -336,7 +336,9 @@ class Polyline(rql_c._BasePolyline):
         if trust_metadata and self.extra_metadata is not None and 'is_clockwise' in self.extra_metadata.keys():
             return str(self.extra_metadata['is_clockwise']).lower() == 'true'
         centre = np.mean(self.coordinates, axis = 0)
-        cw = vu.clockwise(centre, self.coordinates[0], self.coordinates[1])
+        cw = 0.0
+        for node in range(len(self.coordinates)):
+            cw += vu.clockwise(centre, self.coordinates[node - 1], self.coordinates[node])
         result = (cw > 0.0)
         crs = rqc.Crs(self.model, uuid = self.crs_uuid)
         if crs.is_right_handed_xy():
-- 
2.43.0


From a6a8e5fa527a8931263836d02d64c4ce11c14ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 130/192] fix: clockwise metadata set by convexity test allows
 for handedness of xy axes

---
 resqpy/lines/_polyline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index c0333cc..225c0fe 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -324,7 +324,8 @@ class Polyline(rql_c._BasePolyline):
             if cw_bool is None:
                 result = False  # whole polyline lies in a straight line
             if result:
-                extras['is_clockwise'] = str(cw_bool).lower()
+                crs = rqc.Crs(self.model, uuid = self.crs_uuid)
+                extras['is_clockwise'] = str(bool(cw_bool) != crs.is_right_handed_xy()).lower()
         extras['is_convex'] = str(result).lower()
         self.append_extra_metadata(extras)
         return result
-- 
2.43.0


From 1830e4bb832c417e495276b8594eeb78b3cc8a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 131/192] fix: segment normal faces outwards when xy axes are
 right handed

---
 resqpy/lines/_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 225c0fe..12ecb17 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -405,7 +405,7 @@ class Polyline(rql_c._BasePolyline):
         normal_vector[1] = segment_vector[0]
         cw = self.is_clockwise()
         assert cw is not None, 'polyline is straight'
-        if not cw:
+        if cw == rqc.Crs(self.model, uuid = self.crs_uuid).is_right_handed_xy():
             normal_vector = -normal_vector
         return normal_vector
 
-- 
2.43.0


From 2936f5b74785de25558986187803573eae2f5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 132/192] fix: denormalised xy in perimeter mode uses length in
 xy plane

---
 resqpy/lines/_polyline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index 12ecb17..ed56d61 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -747,7 +747,7 @@ class Polyline(rql_c._BasePolyline):
             if norm_y == 1.0:
                 norm_y = 0.0
             p_xy = np.empty(2)
-            p_xy[:] = self.interpolated_point(norm_y)[:2]
+            p_xy[:] = self.interpolated_point(norm_y, in_xy = True)[:2]
             f = maths.sqrt(norm_x)
             x, y = centre_xy + f * (p_xy - centre_xy)
         elif mode == 'circle':
-- 
2.43.0


From 754bd20ab30449fc80c7daaaee2a1d402dc66651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 133/192] fix: irap lines file starting with a line of one
 point

---
 resqpy/lines/_polyline_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 1481f04..ef94e5e 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -178,7 +178,7 @@ class PolylineSet(rql_c._BasePolyline):
                     closed_array.append(True)
                 else:
                     closed_array.append(False)
-                if i == 0:
+                if self.coordinates is None:
                     self.coordinates = poly
                 else:
                     self.coordinates = np.concatenate((self.coordinates, poly))
-- 
2.43.0


From 507306ca97c2e1a6b2f12e4b7e9b87de5ba79674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:19 +0000
Subject: [PATCH 134/192] fix: closed polylines stay closed through irap file

---
 resqpy/lines/_polyline_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index ef94e5e..40f62b6 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -591,6 +591,8 @@ class PolylineSet(rql_c._BasePolyline):
                 out_coords = poly.coordinates
             else:
                 out_coords = np.concatenate((out_coords, poly.coordinates))
+            if poly.isclosed:  # repeat first point, as that is how a closed line is recognised when reading
+                out_coords = np.concatenate((out_coords, poly.coordinates[:1]))
             out_coords = np.concatenate((out_coords, end_of_line))
         np.savetxt(file_name, out_coords, delimiter = ' ')
 
-- 
2.43.0


From 001421fb0714be512dace3ad62df77faaafaa3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 135/192] fix: last stick when reading charisma lines file

---
 resqpy/lines/_polyline_set.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 40f62b6..4b04372 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -205,8 +205,8 @@ class PolylineSet(rql_c._BasePolyline):
             else:
                 self.coordinates = np.concatenate((self.coordinates, coord_entry))
                 count += 1
-                if stick != line[7] or i == len(inpoints) - 1:
-                    if count <= 2 and stick != line[7]:  # Line has fewer than 2 points
+                if stick != line[7]:
+                    if count <= 2:  # Line has fewer than 2 points
                         log.warning(f"Polylines must contain at least 2 points - ignoring point {self.coordinates[-2]}")
                         self.coordinates = np.delete(self.coordinates, -2, 0)  # Remove the second to last entry
                     else:
@@ -214,6 +214,12 @@ class PolylineSet(rql_c._BasePolyline):
                         closed_array.append(False)
                     count = 1
                     stick = line[7]
+        if count < 2:  # Last line has fewer than 2 points
+            log.warning(f"Polylines must contain at least 2 points - ignoring point {self.coordinates[-1]}")
+            self.coordinates = self.coordinates[:-1]
+        else:
+            self.count_perpol.append(count)
+            closed_array.append(False)
         self.count_perpol = np.array(self.count_perpol)
         if self.crs_uuid is None:  # If no crs_uuid is provided, assume the main model crs is valid
             self.crs_uuid = self.model.crs_uuid
@@ -478,10 +484,7 @@ class PolylineSet(rql_c._BasePolyline):
         polys = []
         count = 0
         for i in range(len(count_perpol)):
-            if i != len(count_perpol) - 1:
-                subset = coordinates[count:int(count_perpol[i]) + count].copy()
-            else:
-                subset = coordinates[count:int(count_perpol[i]) + count + 1].copy()  # is this correct?
+            subset = coordinates[count:int(count_perpol[i]) + count].copy()
             duplicated_end_points = np.all(np.isclose(subset[0], subset[-1])) and len(subset) > 2
             if closed_array is None:
                 isclosed = duplicated_end_points
-- 
2.43.0


From ae9392d0d4b43ec6881173e02dece3bcb1404694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 136/192] fix: convex hull of closed polyline

---
 resqpy/lines/_polyline.py | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/resqpy/lines/_polyline.py b/resqpy/lines/_polyline.py
index ed56d61..fac64c6 100644
--- a/resqpy/lines/_polyline.py
+++ b/resqpy/lines/_polyline.py
@@ -7,6 +7,7 @@ log = logging.getLogger(__name__)
 import math as maths
 import numpy as np
 import warnings
+from scipy.spatial import ConvexHull  # type: ignore
 
 import resqpy.crs as rqc
 import resqpy.lines._common as rql_c
@@ -260,7 +261,11 @@ class Polyline(rql_c._BasePolyline):
 
     @classmethod
     def convex_hull_from_closed_polyline(cls, original, title, mode = 'crossing'):
-        """Returns a new closed convex polyline being the convex hull of an original closed polyline."""
+        """Returns a new closed convex polyline being the convex hull of an original closed polyline.
+
+        note:
+            the mode argument is no longer used
+        """
 
         assert original.isclosed
         assert len(original.coordinates) >= 3
@@ -270,27 +275,8 @@ class Polyline(rql_c._BasePolyline):
         if len(original.coordinates) == 3 or original.is_convex():
             coords = original.coordinates
         else:
-            oc = original.coordinates
-            while True:
-                ol = len(oc)
-                assert ol >= 3
-                hull_mask = np.zeros(ol, dtype = bool)
-                for i in range(ol):
-                    if i == 0:
-                        coords = oc[1:]
-                    elif i == ol - 1:
-                        coords = oc[:-1]
-                    else:
-                        coords = np.concatenate((oc[:i], oc[i + 1:]))
-                    if mode == 'crossing':
-                        inside = pip.pip_cn(oc[i], coords)
-                    else:
-                        inside = pip.pip_wn(oc[i], coords)
-                    hull_mask[i] = not inside
-                if np.all(hull_mask):
-                    coords = oc
-                    break
-                oc = oc[hull_mask]
+            # vertices of the hull are kept in the order in which they appear in the original
+            coords = original.coordinates[np.sort(ConvexHull(original.coordinates[:, :2]).vertices)]
             assert len(coords) >= 3
 
         polyline = cls(original.model, is_closed = True, set_coord = coords, set_crs = original.crs_uuid, title = title)
-- 
2.43.0


From 82e72f30354cfcad39c60c1a22a7aa074d9044c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:01 +0000
Subject: [PATCH 137/192] fix: clockwise triangles in reoriented space when
 making surface from point set

---
 resqpy/surface/_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 02c75bb..b46261a 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -696,7 +696,7 @@ class Surface(rqsb.BaseSurface):
             t = triangulate.dt(p_xy_e[:, :2], container_size_factor = convexity_parameter * 1.1)
         log.debug('number of triangles: ' + str(len(t)))
         if make_clockwise:
-            triangulate.make_all_clockwise_xy(t, p_e)  # modifies t in situ
+            triangulate.make_all_clockwise_xy(t, p_xy_e)  # modifies t in situ
         if extend_with_flange:
             flange_array = np.zeros(len(t), dtype = bool)
             flange_array[:] = np.where(np.any(t >= len(p), axis = 1), True, False)
-- 
2.43.0


From b79f687eff3c3d1f99bf0375b18f073beb7bf878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:50 +0000
Subject: [PATCH 138/192] fix: normal vector of reoriented points found without
 linear algebra is in +ve z hemisphere

---
 resqpy/olio/triangulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/triangulation.py b/resqpy/olio/triangulation.py
index df7b2b7..31fab1a 100644
--- a/resqpy/olio/triangulation.py
+++ b/resqpy/olio/triangulation.py
@@ -816,6 +816,8 @@ def reorient(points, rough = True, max_dip = None, use_linalg = True, sample = 5
         rotation_m = vec.rotation_3d_matrix((best_x_rotation, 0.0, best_y_rotation))
 
         normal_vector = vec.rotate_vector(rotation_m.T, np.array((0.0, 0.0, 1.0)))
+        if normal_vector[2] < 0.0:
+            normal_vector = -normal_vector
 
     if max_dip is not None:
         v = vec.rotate_vector(rotation_m.T, np.array((0.0, 0.0, 1.0)))
-- 
2.43.0


From b48de6d3bf615332b32a0cf557cec6428b2ddfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 139/192] fix: angle unit of deviation survey lost when loading
 from xml

---
 resqpy/well/_deviation_survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 6a67a4b..c3164ea 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -272,6 +272,7 @@ class DeviationSurvey(BaseResqpy):
         # Load XML data
         self.md_uom = rqet.length_units_from_node(rqet.find_tag(node, 'MdUom', must_exist = True))
         self.angle_uom = rqet.find_tag_text(node, 'AngleUom', must_exist = True)
+        self.angles_in_degrees = self.angle_uom.strip().lower().startswith('deg')
         self.station_count = rqet.find_tag_int(node, 'StationCount', must_exist = True)
         self.first_station = rqwu.extract_xyz(rqet.find_tag(node, 'FirstStationLocation', must_exist = True))
         self.is_final = rqet.find_tag_bool(node, 'IsFinal')
-- 
2.43.0


From 1f7e5b0add09479123e89896cb3bbbd1897b6653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 140/192] fix: measured depth datum of deviation survey lost
 when loading from xml

---
 resqpy/well/_deviation_survey.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index c3164ea..02aa857 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -462,11 +462,9 @@ class DeviationSurvey(BaseResqpy):
     def _load_related_datum(self):
         """Return related MdDatum object from XML if present."""
 
-        md_datum_uuid = bu.uuid_from_string(rqet.find_tag(rqet.find_tag(self.root, 'MdDatum'), 'UUID'))
+        md_datum_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(self.root, ['MdDatum', 'UUID']))
         if md_datum_uuid is not None:
-            md_datum_part = 'obj_MdDatum_' + str(md_datum_uuid) + '.xml'
-            md_datum = rqmdd.MdDatum(self.model,
-                                     md_datum_root = self.model.root_for_part(md_datum_part, is_rels = False))
+            md_datum = rqmdd.MdDatum(self.model, uuid = md_datum_uuid)
         else:
             md_datum = None
         return md_datum
-- 
2.43.0


From a49ce0ca84c007f8870aa676506c0d4393eff346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 141/192] fix: wellbore interpretation of deviation survey lost
 when loading from xml

---
 resqpy/well/_deviation_survey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 02aa857..dfb162a 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -287,7 +287,7 @@ class DeviationSurvey(BaseResqpy):
 
         # Set related objects
         self.md_datum = self._load_related_datum()
-        self.represented_interp = self._load_related_wellbore_interp()
+        self.wellbore_interpretation = self._load_related_wellbore_interp()
 
         # Validate
         assert self.measured_depths is not None
-- 
2.43.0


From 477ec6b6e2574f811e156eb1a86bd571613ef3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 142/192] fix: radians treated as degrees when computing
 trajectory from deviation survey

---
 resqpy/well/_trajectory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 624b16e..4e388b1 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -343,6 +343,8 @@ class Trajectory(BaseResqpy):
             i2 = survey.inclinations[sp]
             az1 = survey.azimuths[sp - 1]
             az2 = survey.azimuths[sp]
+            if not survey.angles_in_degrees:
+                i1, i2, az1, az2 = maths.degrees(i1), maths.degrees(i2), maths.degrees(az1), maths.degrees(az2)
             delta_md = survey.measured_depths[sp] - survey.measured_depths[sp - 1]
             assert delta_md > 0.0
             if i1 == i2 and az1 == az2:
-- 
2.43.0


From 7a0ca6866dc0e9141b62cb44d99981352a47f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 143/192] fix: assertion failure in trajectory computation for
 deviation survey stations with same direction but different azimuths

---
 resqpy/well/_trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 4e388b1..97405f1 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -359,8 +359,8 @@ class Trajectory(BaseResqpy):
                 cos_theta = min(max(maths.cos(i2 - i1) - sin_i1 * sin_i2 * (1.0 - maths.cos(az2 - az1)), -1.0), 1.0)
                 theta = maths.acos(cos_theta)
                 #           theta = maths.acos(sin_i1 * sin_i2 * maths.cos(az2 - az1)  +  (maths.cos(i1) * maths.cos(i2)))
-                assert theta != 0.0  # shouldn't happen as covered by if clause above
-                half_rf = maths.tan(0.5 * theta) / theta
+                # theta can be zero if both stations are vertical, or azimuths differ by a full circle
+                half_rf = 0.5 if theta == 0.0 else maths.tan(0.5 * theta) / theta
                 delta_y = delta_md * half_rf * ((sin_i1 * maths.cos(az1)) + (sin_i2 * maths.cos(az2)))
                 delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
                 delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
-- 
2.43.0


From 64fc688a4b7dfe67abaeff9670ec6e62eef6e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 144/192] fix: units and z direction of crs ignored when
 computing trajectory from deviation survey

---
 resqpy/well/_trajectory.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 97405f1..1c7bf97 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -338,6 +338,11 @@ class Trajectory(BaseResqpy):
     def __calculate_trajectory_from_inclination_and_azimuth(self, survey):
         """Calculate well trajectory from inclination and azimuth data."""
 
+        crs_uuid = self.crs_uuid
+        if crs_uuid is None:
+            crs_uuid = self.model.crs_uuid if survey.md_datum is None else survey.md_datum.crs_uuid
+        crs = None if crs_uuid is None else rqc.Crs(self.model, uuid = crs_uuid)
+
         for sp in range(1, self.knot_count):
             i1 = survey.inclinations[sp - 1]
             i2 = survey.inclinations[sp]
@@ -365,6 +370,11 @@ class Trajectory(BaseResqpy):
                 delta_x = delta_md * half_rf * ((sin_i1 * maths.sin(az1)) + (sin_i2 * maths.sin(az2)))
                 delta_z = delta_md * half_rf * (maths.cos(i1) + maths.cos(i2))
                 delta_v = np.array((delta_x, delta_y, delta_z))
+            if crs is not None:  # measured depth units and direction of z might differ between survey and crs
+                delta_v[:2] = wam.convert_lengths(delta_v[:2], self.md_uom, crs.xy_units)
+                delta_v[2] = wam.convert_lengths(delta_v[2], self.md_uom, crs.z_units)
+                if not crs.z_inc_down:
+                    delta_v[2] = -delta_v[2]
             self.control_points[sp] = self.control_points[sp - 1] + delta_v
 
     def load_from_data_frame(
-- 
2.43.0


From b982f30ddc62f1b5e00cc5eb7b434b696653a565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 145/192] fix: md_col argument ignored for measured depths when
 making marker frame from dataframe

---
 resqpy/well/_wellbore_marker_frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index d7c7171..475477b 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -158,7 +158,7 @@ class WellboreMarkerFrame(BaseResqpy):
                                     originator = originator,
                                     extra_metadata = extra_metadata)
         wellbore_marker_frame.node_count = len(dataframe)
-        wellbore_marker_frame.node_mds = np.array(dataframe['MD'])
+        wellbore_marker_frame.node_mds = np.array(dataframe[md_col])
         wellbore_marker_frame.marker_list = marker_list
         # check that the number of measured depths matches the node count and the number of markers
         assert wellbore_marker_frame.node_count == wellbore_marker_frame.node_mds.shape[0] == len(marker_list)
-- 
2.43.0


From 42794251036eeb7cd957ef58dbbc5d29c916a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 146/192] fix: creation of organising objects for geobody
 markers

---
 resqpy/well/_wellbore_marker.py       | 3 ++-
 resqpy/well/_wellbore_marker_frame.py | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/resqpy/well/_wellbore_marker.py b/resqpy/well/_wellbore_marker.py
index 2dc03ec..931b8b2 100644
--- a/resqpy/well/_wellbore_marker.py
+++ b/resqpy/well/_wellbore_marker.py
@@ -125,7 +125,8 @@ class WellboreMarker():
         wbm_gb_node.text = str(self.marker_type)
 
         if self.interpretation_uuid is not None:
-            interp_content_type = 'obj_' + self.marker_type.capitalize() + 'Interpretation'
+            interp_kind = 'GeobodyBoundary' if self.marker_type == 'geobody' else self.marker_type.capitalize()
+            interp_content_type = 'obj_' + interp_kind + 'Interpretation'
             interp_root = self.model.root_for_uuid(uuid = self.interpretation_uuid)
             self.model.create_ref_node(flavour = 'Interpretation',
                                        title = rqet.find_tag(rqet.find_tag(interp_root, 'Citation'), 'Title').text,
diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index 475477b..fcbd162 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -171,7 +171,9 @@ class WellboreMarkerFrame(BaseResqpy):
         """Extract the uuid of the interpretation object that the marker relates to from a row in the dataframe."""
 
         row_marker_type = row_marker_type.lower()
-        if row_marker_type in ['horizon', 'fault', 'geobody']:
+        if row_marker_type == 'geobody':
+            row_interp_type = 'obj_GeobodyBoundaryInterpretation'
+        elif row_marker_type in ['horizon', 'fault']:
             row_interp_type = 'obj_' + row_marker_type.capitalize() + 'Interpretation'
         else:
             row_interp_type = None
@@ -201,7 +203,8 @@ class WellboreMarkerFrame(BaseResqpy):
         if feature_type == 'fault':
             tbf = rqo.TectonicBoundaryFeature(model, kind = 'fault', feature_name = feature_name)
         else:
-            tbf = rqo.GeneticBoundaryFeature(model, kind = feature_type, feature_name = feature_name)
+            kind = 'geobody boundary' if feature_type == 'geobody' else feature_type
+            tbf = rqo.GeneticBoundaryFeature(model, kind = kind, feature_name = feature_name)
         tbf.create_xml(reuse = True)
         if feature_type == 'fault':
             fi = rqo.FaultInterpretation(model, tectonic_boundary_feature = tbf, is_normal = True)
-- 
2.43.0


From a86c8ee1c30e5af5fbd05b8b41d19ebb08a4e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 147/192] fix: marker index taken from index label of dataframe
 instead of position

---
 resqpy/well/_wellbore_marker_frame.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index fcbd162..3da7f31 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -134,8 +134,7 @@ class WellboreMarkerFrame(BaseResqpy):
 
         # create a wellbore marker object for each of the rows of the dataframe
         marker_list = []
-        for i, row in dataframe.iterrows():
-            row_index = i
+        for row_index, (_, row) in enumerate(dataframe.iterrows()):
             row_marker_type = row[boundary_feature_type_col].lower()
             row_interp_uuid = WellboreMarkerFrame.__parse_dataframe_row_for_interp_uuid(
                 parent_model = parent_model,
-- 
2.43.0


From 210b5c6c6a72f00d5bb656022dd57c2d32c41217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 148/192] fix: column names other than the defaults not usable
 when adding wells from ascii file

---
 resqpy/well/well_object_funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/well_object_funcs.py b/resqpy/well/well_object_funcs.py
index a954916..80c438b 100644
--- a/resqpy/well/well_object_funcs.py
+++ b/resqpy/well/well_object_funcs.py
@@ -111,6 +111,7 @@ def add_wells_from_ascii_file(model,
         log.debug('importing well: ' + str(well_name))
         # create single well data frame (assumes measured depths increasing)
         well_df = df[df[well_col] == well_name]
+        traj_df = well_df[[md_col, x_col, y_col, z_col]].set_axis(['MD', 'X', 'Y', 'Z'], axis = 1)
         # create a measured depth datum for the well and add as part
         first_row = well_df.iloc[0]
         if first_row[md_col] == 0.0:
@@ -136,7 +137,7 @@ def add_wells_from_ascii_file(model,
         # create trajectory, write arrays to hdf5 and add as part
         trajectory = rqw.Trajectory(model,
                                     md_datum = md_datum,
-                                    data_frame = well_df,
+                                    data_frame = traj_df,
                                     length_uom = length_uom,
                                     md_domain = md_domain,
                                     represented_interp = interpretation,
-- 
2.43.0


From db5301cf8ee90cf0d4f141d00e0c36dfea3dd273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 149/192] fix: inclination of zero returned for trajectory
 intervals vertically upwards

---
 resqpy/well/_trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 1c7bf97..383bedf 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -708,7 +708,7 @@ class Trajectory(BaseResqpy):
         incl_radians = np.arctan(interval_h / interval_vectors[:, 2])  # horizontal / vertical
         np.seterr(**restore)
         incl_radians = np.where(interval_vectors[:, 2] == 0.0, maths.pi / 2.0, incl_radians)
-        incl_radians = np.where(incl_radians < 0.0, incl_radians + maths.pi, incl_radians)
+        incl_radians = np.where(interval_vectors[:, 2] < 0.0, incl_radians + maths.pi, incl_radians)
         return np.degrees(incl_radians)
 
     def splined_trajectory(self,
-- 
2.43.0


From d013afb767b6cb50dffa54fb99e475d908ae58cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 150/192] fix: measured depth datums some metres apart treated
 as equivalent when coordinates are large

---
 resqpy/well/_md_datum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_md_datum.py b/resqpy/well/_md_datum.py
index aecec06..e740893 100644
--- a/resqpy/well/_md_datum.py
+++ b/resqpy/well/_md_datum.py
@@ -161,6 +161,7 @@ class MdDatum(BaseResqpy):
 
         if not isinstance(other, self.__class__):
             return False
-        if self.md_reference != other.md_reference or not np.allclose(self.location, other.location):
+        if self.md_reference != other.md_reference or not np.allclose(
+                self.location, other.location, rtol = 0.0, atol = 0.001):
             return False
         return bu.matching_uuids(self.crs_uuid, other.crs_uuid)
-- 
2.43.0


From 34f92aee3554f8152b9820287de552f6c94b4840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:04 +0000
Subject: [PATCH 151/192] fix: only first of consecutive rows for another grid
 skipped when deriving blocked well

---
 resqpy/well/_blocked_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 0c672f7..7b1e105 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -893,7 +893,7 @@ class BlockedWell(BaseResqpy):
             if skipped_warning_grid != other_grid:
                 log.warning('skipping perforation(s) in grid ' + other_grid + ' for well ' + str(well_name))
                 skipped_warning_grid = other_grid
-                skip_row = True
+            skip_row = True
         return skipped_warning_grid, skip_row
 
     @staticmethod
-- 
2.43.0


From 3756f70b89fa39f9164e8cfc5dd78b47bf5f9acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:04 +0000
Subject: [PATCH 152/192] fix: blocked well from wellspec with data at more
 than one time

---
 resqpy/well/_blocked_well.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 7b1e105..afe8141 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -691,8 +691,10 @@ class BlockedWell(BaseResqpy):
             initial_df = df[pd.isna(df['DATE'])]  # todo: not sure this is valid pandas syntax
             next_date_index = 0
         else:
-            initial_df = df[df['DATE'] == dates_list[0]]  # both should be in iso format
-            next_date_index = 1
+            # both should be in iso format; note: first date for this well might not be the first in the file
+            initial_date_index = dates_list.index(df['DATE'].min())
+            initial_df = df[df['DATE'] == dates_list[initial_date_index]]
+            next_date_index = initial_date_index + 1
 
         success = self.derive_from_dataframe(initial_df,
                                              well_name,
@@ -701,7 +703,7 @@ class BlockedWell(BaseResqpy):
                                              use_face_centres = use_face_centres,
                                              add_as_properties = add_properties,
                                              length_uom = length_uom,
-                                             time_index = 0 if next_date_index else None,
+                                             time_index = next_date_index - 1 if next_date_index else None,
                                              time_series_uuid = time_series.uuid if next_date_index else None)
         if not success:
             return None
@@ -751,7 +753,9 @@ class BlockedWell(BaseResqpy):
                               grid_name_to_check = None,
                               use_face_centres = True,
                               add_as_properties = False,
-                              length_uom = None):
+                              length_uom = None,
+                              time_index = None,
+                              time_series_uuid = None):
         """Populate empty blocked well from WELLSPEC-like dataframe; first columns must be IW, JW, L (i, j, k).
 
         note:
@@ -870,7 +874,11 @@ class BlockedWell(BaseResqpy):
             trajectory_mds = trajectory_mds)
 
         self.create_md_datum_and_trajectory(grid, trajectory_mds, trajectory_points, length_uom, well_name)
-        self.__add_as_properties_if_specified(add_as_properties = add_as_properties, df = df, length_uom = length_uom)
+        self.__add_as_properties_if_specified(add_as_properties = add_as_properties,
+                                              df = df,
+                                              length_uom = length_uom,
+                                              time_index = time_index,
+                                              time_series_uuid = time_series_uuid)
 
         return self
 
@@ -1080,14 +1088,15 @@ class BlockedWell(BaseResqpy):
 
         if add_as_properties and len(df.columns) > 3:
             # NB: atypical writing of hdf5 data and xml creation in order to support related properties
-            self.write_hdf5()
-            self.create_xml()
+            if self.root is None:
+                self.write_hdf5()
+                self.create_xml()
             if isinstance(add_as_properties, list):
                 for col in add_as_properties:
                     assert col in df.columns[3:]  # could just skip missing columns
                 property_columns = add_as_properties
             else:
-                property_columns = df.columns[3:]
+                property_columns = [col for col in df.columns[3:] if col not in ['GRID', 'DATE']]
             self.add_df_properties(df,
                                    property_columns,
                                    length_uom = length_uom,
-- 
2.43.0


From 7c372f5c0e7de01cc7cbc73328043b6c7db01acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 153/192] fix: length unit for properties at later times when
 deriving blocked well from wellspec

---
 resqpy/well/_blocked_well.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index afe8141..cc80988 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -709,7 +709,8 @@ class BlockedWell(BaseResqpy):
             return None
 
         # for each (remaining) date in dates_list, if present in well df, creete subset df, compare row count with init, add props
-        length_uom = grid.z_units()
+        if not length_uom:
+            length_uom = grid.z_units()
         for date_index in range(next_date_index, len(dates_list)):
             date_df = df[df['DATE'] == dates_list[date_index]]
             if len(date_df) == 0:
-- 
2.43.0


From 91017445e89e29b8d112a3234234beb9d6fa8def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 154/192] fix: blocked well with properties from wellspec
 holding rows for more than one grid

---
 resqpy/well/_blocked_well.py | 5 ++++-
 resqpy/well/well_utils.py    | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index cc80988..78d66c6 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -668,6 +668,9 @@ class BlockedWell(BaseResqpy):
         df = wellspec_dict[well_name]
         assert len(df) > 0, 'no rows of perforation data found in wellspec for well ' + well_name
 
+        if name_for_check and 'GRID' in df.columns:  # discard rows for other grids, to keep rows in step with cells
+            df = df[df['GRID'].isna() | (df['GRID'].astype(str).str.upper() == name_for_check)]
+
         if 'DATE' not in df.columns or not dates_list:
             last_data_only = True
 
@@ -897,7 +900,7 @@ class BlockedWell(BaseResqpy):
     def __verify_grid_name(grid_name_to_check, row, skipped_warning_grid, well_name):
         """Check whether the grid associated with a row of the dataframe matches the expected grid name."""
         skip_row = False
-        if grid_name_to_check and pd.notna(row['GRID']) and grid_name_to_check != str(row['GRID']).upper():
+        if grid_name_to_check and 'GRID' in row and pd.notna(row['GRID']) and grid_name_to_check != str(row['GRID']).upper():
             other_grid = str(row['GRID'])
             if skipped_warning_grid != other_grid:
                 log.warning('skipping perforation(s) in grid ' + other_grid + ' for well ' + str(well_name))
diff --git a/resqpy/well/well_utils.py b/resqpy/well/well_utils.py
index 324b038..c256e3f 100644
--- a/resqpy/well/well_utils.py
+++ b/resqpy/well/well_utils.py
@@ -161,7 +161,8 @@ def _derive_from_wellspec_check_grid_name(check_grid_name, grid, col_list):
         if not grid_name:
             name_for_check = None
         else:
-            col_list.append('GRID')
+            if col_list:  # note: an empty list indicates that all columns will be loaded
+                col_list.append('GRID')
             name_for_check = grid_name
     else:
         name_for_check = None
-- 
2.43.0


From 4be11c3776bf707b578888df55f7802f4d4e7725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 155/192] fix: wellspec not writable with default arguments

---
 resqpy/well/_blocked_well.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 78d66c6..7b0bdb6 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -3100,7 +3100,10 @@ class BlockedWell(BaseResqpy):
 
         if write_nexus_units:
             length_uom_system_list = ['METRIC', 'ENGLISH']
-            length_uom_index = ['m', 'ft'].index(length_uom)
+            uom = length_uom
+            if uom is None and self.trajectory is not None:
+                uom = self.trajectory.md_uom
+            length_uom_index = ['m', 'ft'].index(uom)
             fp.write(f'{length_uom_system_list[length_uom_index]}\n\n')
 
         if length_uom_comment and self.trajectory is not None and ('LENGTH' in extra_columns_list or 'MD'
-- 
2.43.0


From e6047618098a1284f3456b0752a0edff8de481d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 156/192] fix: default well name for wellspec

---
 resqpy/well/_blocked_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 7b0bdb6..15cebd9 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -3057,7 +3057,7 @@ class BlockedWell(BaseResqpy):
                 nexus_friendly += ch
             previous_underscore = (ch == '_')
         if not nexus_friendly:
-            well_name = 'WELL_X'
+            nexus_friendly = 'WELL_X'
         return nexus_friendly
 
     @staticmethod
-- 
2.43.0


From cbd58530ddf67e554112ace9b4bf5fba58f8874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 157/192] fix: sign and units of blocked well dataframe X, Y
 and DEPTH

---
 resqpy/well/_blocked_well.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 15cebd9..886a7e1 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -2076,7 +2076,7 @@ class BlockedWell(BaseResqpy):
                             ('ANGLV' in column_list and 'ANGLV' not in pc_titles), (doing_kh), (do_well_inflow)])
         doing_xyz = any([('X' in column_list and 'X' not in pc_titles), ('Y' in column_list and 'Y' not in pc_titles),
                          ('DEPTH' in column_list and 'DEPTH' not in pc_titles)])
-        doing_entry_exit = any([(doing_angles),
+        doing_entry_exit = any([(doing_angles), (doing_xyz and length_mode == 'straight'),
                                 ('LENGTH' in column_list and 'LENGTH' not in pc_titles and length_mode == 'straight')])
 
         # doing_angles = (('ANGLA' in column_list and 'ANGLA' not in pc_titles) or
@@ -2618,15 +2618,15 @@ class BlockedWell(BaseResqpy):
 
         if length_mode == 'MD' and self.trajectory is not None:
             xyz = self.trajectory.xyz_for_md(md)
-            if length_uom is not None and length_uom != self.trajectory.md_uom:
-                wam.convert_lengths(xyz, traj_crs.z_units, length_uom)
+            if length_uom is not None:
+                xyz = BlockedWell._single_uom_xyz(xyz, traj_crs, length_uom)
             if depth_inc_down and traj_z_inc_down is False:
                 xyz[2] = -xyz[2]
         else:
             xyz = 0.5 * (np.array(exit_xyz) + np.array(entry_xyz))
-            if length_uom is not None and length_uom != ee_crs.z_units:
-                xyz[2] = wam.convert_lengths(xyz[2], ee_crs.z_units, length_uom)
-            if depth_inc_down != ee_crs.z_inc_down:
+            if length_uom is not None:
+                xyz = BlockedWell._single_uom_xyz(xyz, ee_crs, length_uom)
+            if depth_inc_down and not ee_crs.z_inc_down:
                 xyz[2] = -xyz[2]
 
         return xyz
-- 
2.43.0


From 6269be35573ea50952d72c2f77a4f0e28b8bb736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 158/192] fix: units conversion applied twice to wellbore
 vector used in blocked well angles

---
 resqpy/well/_blocked_well.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 886a7e1..596e129 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -2338,11 +2338,8 @@ class BlockedWell(BaseResqpy):
         vector = vec.unit_vector(np.array(exit_xyz) - np.array(entry_xyz))  # nominal wellbore vector for interval
         if traj_z_inc_down is not None and traj_z_inc_down != grid_crs.z_inc_down:
             vector[2] = -vector[2]
-        if grid.crs.xy_units == grid.crs.z_units:
-            unit_adjusted_vector = vector
-        else:
-            unit_adjusted_vector = vector.copy()
-            unit_adjusted_vector[2] = wam.convert_lengths(unit_adjusted_vector[2], grid.crs.z_units, grid.crs.xy_units)
+        # note: entry and exit points are already in a single uom so no further units adjustment is needed
+        unit_adjusted_vector = vector
         v_ref_vector = BlockedWell.__get_ref_vector(grid, grid_crs, cell_kji0, anglv_ref)
         # log.debug('v ref vector: ' + str(v_ref_vector))
         if angla_plane_ref == anglv_ref:
-- 
2.43.0


From 14f216677e0a75e0eaaa49f92729be5cced959c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:28 +0000
Subject: [PATCH 159/192] fix: date of previous well used for wellspec data
 before first time in file

---
 resqpy/olio/wellspec_keywords.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 46918e1..c16b037 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -403,8 +403,10 @@ def get_well_pointers(
     current_date = None  # Before first TIME
     if no_date_replacement is not None:
         current_date = no_date_replacement.isoformat()
+    initial_date = current_date
     for well, well_pointer_list in well_pointers.items():
         for i, well_pointer in enumerate(well_pointer_list):
+            current_date = initial_date
             for time_pointer, date in time_pointers.items():
                 if well_pointer[0] > time_pointer:
                     current_date = date
-- 
2.43.0


From 0285e3d9e0124a7ed1999a5a57daea62d1ffb8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 160/192] fix: wellspec rows for same cell indices in different
 grids treated as duplicates

---
 resqpy/olio/wellspec_keywords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index c16b037..19506dd 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -515,9 +515,10 @@ def get_well_data(
     if not keep_null_columns:
         df.drop(columns = df.columns[df.isna().all()], inplace = True)
 
-    if not keep_duplicate_cells and any(df.duplicated(subset = ["IW", "JW", "L"])):
+    cell_columns = ["IW", "JW", "L"] + (["GRID"] if "GRID" in df.columns else [])
+    if not keep_duplicate_cells and any(df.duplicated(subset = cell_columns)):
         log.warning(f"There are duplicate cells for well {well_name}.")
-        df.drop_duplicates(subset = ["IW", "JW", "L"], keep = "last", inplace = True)
+        df.drop_duplicates(subset = cell_columns, keep = "last", inplace = True)
 
     def stat_tranformation(row):
         if row["STAT"] == "ON":
-- 
2.43.0


From 2286f07de7c8a9cba3682610882ed1b915a3827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:49 +0000
Subject: [PATCH 161/192] fix: active only argument ignored when blocking a
 well from its trajectory

---
 resqpy/grid_surface/_blocked_well_populate.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 9a167e0..a37fbed 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -188,9 +188,11 @@ def populate_blocked_well_from_trajectory(blocked_well,
             if rqgs.point_is_within_cell(traj_xyz[-1], grid, kji0):
                 # well terminates within cell: add termination blocked interval (or unblocked if inactive cell)
                 log.debug(f'adding termination interval for cell {kji0}')
-                # todo: check for inactive cell and make an unblocked interval instead, if required
                 node_mds_list.append(trajectory.measured_depths[-1])
                 node_count += 1
+                if active_only and grid.inactive is not None and grid.inactive[tuple(kji0)]:
+                    grid_indices_list.append(-1)
+                    break
                 grid_indices_list.append(0)
                 cell_indices_list.append(grid.natural_cell_index(kji0))
                 cell_count += 1
@@ -206,13 +208,15 @@ def populate_blocked_well_from_trajectory(blocked_well,
         else:
             exit_fraction = __segment_fraction(traj_xyz, exit_knot, exit_xyz)
             log.debug(f'adding blocked interval for cell kji0: {kji0}')
-            # todo: check for inactive cell and make an unblocked interval instead, if required
             node_mds_list.append(__back_calculated_md(trajectory, exit_knot, exit_fraction))
             node_count += 1
-            grid_indices_list.append(0)
-            cell_indices_list.append(grid.natural_cell_index(kji0))
-            cell_count += 1
-            face_pairs_list.append(((entry_axis, entry_polarity), (exit_axis, exit_polarity)))
+            if active_only and grid.inactive is not None and grid.inactive[tuple(kji0)]:
+                grid_indices_list.append(-1)
+            else:
+                grid_indices_list.append(0)
+                cell_indices_list.append(grid.natural_cell_index(kji0))
+                cell_count += 1
+                face_pairs_list.append(((entry_axis, entry_polarity), (exit_axis, exit_polarity)))
 
             previous_kji0 = kji0
             # log.debug(f'previous kji0 set to {previous_kji0}')
-- 
2.43.0


From 215ff39048a4480344e388e4b5394ab4fe525e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 162/192] fix: nudging of start point modified caller's point,
 leading to spurious unblocked intervals at faults

---
 resqpy/grid_surface/_trajectory_intersects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_trajectory_intersects.py b/resqpy/grid_surface/_trajectory_intersects.py
index bda745f..fe4d859 100644
--- a/resqpy/grid_surface/_trajectory_intersects.py
+++ b/resqpy/grid_surface/_trajectory_intersects.py
@@ -177,9 +177,9 @@ def find_first_intersection_of_trajectory_with_surface(trajectory,
     if nudge is not None and nudge != 0.0:
         remaining = trajectory.control_points[knot + 1] - start_xyz
         if vec.naive_length(remaining) <= nudge:
-            start_xyz += 0.9 * remaining
+            start_xyz = start_xyz + 0.9 * remaining
         else:
-            start_xyz += nudge * vec.unit_vector(remaining)
+            start_xyz = start_xyz + nudge * vec.unit_vector(remaining)
     while knot < trajectory.knot_count - 1:
         if start_xyz is None:
             line_p = trajectory.control_points[knot]
@@ -383,7 +383,7 @@ def find_intersection_of_trajectory_interval_with_column_face(trajectory,
     log.debug(f"intersecting trajectory segment with column face ji0 {col_ji0} face {'KJI'[axis]}{'-+'[polarity]}")
     if start_xyz is not None:
         if nudge is not None and nudge != 0.0:  # here we typically nudge back up the wellbore
-            start_xyz += nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
+            start_xyz = start_xyz + nudge * vec.unit_vector(trajectory.control_points[start_knot + 1] - start_xyz)
         line_p = start_xyz
     else:
         line_p = trajectory.control_points[start_knot]
-- 
2.43.0


From 267aaa9ecbd3ae00c239e9b018cddead9855a168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 163/192] fix: skin of faulted grid with only one row or column
 of cells

---
 resqpy/grid/_face_functions.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index f854621..02bedc2 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -53,16 +53,10 @@ def split_column_faces(grid):
     if (hasattr(grid, 'array_j_column_face_split') and grid.array_j_column_face_split is not None and
             hasattr(grid, 'array_i_column_face_split') and grid.array_i_column_face_split is not None):
         return grid.array_j_column_face_split, grid.array_i_column_face_split
-    if grid.nj == 1:
-        grid.array_j_column_face_split = None
-    else:
-        grid.array_j_column_face_split = np.zeros((grid.nj - 1, grid.ni),
-                                                  dtype = bool)  # NB. internal faces only, index for +ve face
-    if grid.ni == 1:
-        grid.array_i_column_face_split = None
-    else:
-        grid.array_i_column_face_split = np.zeros((grid.nj, grid.ni - 1),
-                                                  dtype = bool)  # NB. internal faces only, index for +ve face
+    grid.array_j_column_face_split = np.zeros((grid.nj - 1, grid.ni),
+                                              dtype = bool)  # NB. internal faces only, index for +ve face
+    grid.array_i_column_face_split = np.zeros((grid.nj, grid.ni - 1),
+                                              dtype = bool)  # NB. internal faces only, index for +ve face
     grid.create_column_pillar_mapping()
     for spi in grid.split_pillar_indices_cached:
         j_p, i_p = divmod(spi, grid.ni + 1)
-- 
2.43.0


From 1908399147cb2d31da6ac873a3326b76e9abe1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:01 +0000
Subject: [PATCH 164/192] fix: cell indices after re-entry to grid not handled
 when blocking well

---
 resqpy/grid_surface/_blocked_well_populate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index a37fbed..b95d656 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -164,6 +164,8 @@ def populate_blocked_well_from_trajectory(blocked_well,
     while next_cell_info is not None:
         entry_shared, kji0, entry_axis, entry_polarity, entry_knot, entry_fraction, entry_xyz = next_cell_info
 
+        kji0 = np.array(kji0, dtype = int)
+
         # log.debug('next cell entry x,y,z: ' + str(entry_xyz) + '; knot: ' + str(entry_knot) + '; cell kji0: ' +
         #           str(kji0) + '; face: ' + 'KJI'[entry_axis] + '-+'[entry_polarity])
 
-- 
2.43.0


From 4a669413a1ba57ab62b6b14860c4a361c9271de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 165/192] fix: fault faces in grid skin mistaken when all
 faults are in the I faces of columns

---
 resqpy/grid_surface/_grid_skin.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index c9d10c1..6563db8 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -29,6 +29,7 @@ class GridSkin:
         self.skin = None  #: compostite surface constructed during initialisation
         self.fault_j_face_cols_ji0 = None  # split internal J faces
         self.fault_i_face_cols_ji0 = None  # split internal I faces
+        self.fault_index_list = []  # 0, 1, 2, 3 for J-, J+, I-, I+ for each fault surface present in the skin
         self.polygon = None  # not yet in use
         self.is_regular = is_regular  #: indicates a simplified skin for a regular aligned grid
 
@@ -160,9 +161,11 @@ class GridSkin:
             surf_list = [top_surf, base_surf, j_minus_surf, j_plus_surf, i_minus_surf, i_plus_surf]
             for k_gap_surf in k_gap_surf_list:
                 surf_list.append(k_gap_surf)
-            for fault_surf in [j_minus_fault_surf, j_plus_fault_surf, i_minus_fault_surf, i_plus_fault_surf]:
+            for fault_index, fault_surf in enumerate(
+                [j_minus_fault_surf, j_plus_fault_surf, i_minus_fault_surf, i_plus_fault_surf]):
                 if fault_surf is not None:
                     surf_list.append(fault_surf)
+                    self.fault_index_list.append(fault_index)
 
         else:
 
@@ -324,17 +327,17 @@ class GridSkin:
                     polarity = 0
 
             else:  # fault face
-                axis, polarity = divmod(surf_index - (6 + 2 * self.k_gaps), 2)
+                fault_index = self.fault_index_list[surf_index - (6 + 2 * self.k_gaps)]
+                axis, polarity = divmod(fault_index, 2)
                 axis += 1
                 log.debug('penetration through fault face ' + 'KJI'[axis] + '-+'[polarity])
                 assert self.skin.is_combined_list[surf_index]
                 fault_surf_list = self.skin.surface_list[surf_index]
                 col_surf_index, _ = fault_surf_list.surface_index_for_triangle_index(surf_tri_index)
                 col_ji0 = np.empty((2,), dtype = int)
-                surf_index -= 6 + 2 * self.k_gaps
-                if surf_index in [0, 1]:  # J-/+ fault face
+                if fault_index in [0, 1]:  # J-/+ fault face
                     col_ji0[:] = self.fault_j_face_cols_ji0[col_surf_index]
-                elif surf_index in [2, 3]:  # I-/+ fault face
+                elif fault_index in [2, 3]:  # I-/+ fault face
                     col_ji0[:] = self.fault_i_face_cols_ji0[col_surf_index]
                 else:  # should not be possible
                     raise Exception('code failure')
-- 
2.43.0


From c4aac50abe306ae34122c416701ff264f6e57aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:54 +0000
Subject: [PATCH 166/192] fix: pinched out cell blocked upon re-entry to grid

---
 resqpy/grid_surface/_blocked_well_populate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index b95d656..24aa829 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -170,6 +170,8 @@ def populate_blocked_well_from_trajectory(blocked_well,
         #           str(kji0) + '; face: ' + 'KJI'[entry_axis] + '-+'[entry_polarity])
 
         if not entry_shared:
+            while entry_axis == 0 and grid.pinched_out(cell_kji0 = kji0, cache_pinchout_array = True):
+                kji0[0] += 1 - 2 * entry_polarity
             log.debug('adding unblocked interval')
             node_mds_list.append(__back_calculated_md(trajectory, entry_knot, entry_fraction))
             node_count += 1
-- 
2.43.0


From 659feb0bae78a0c498024cf678a4aa8b398586a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:25 +0000
Subject: [PATCH 167/192] fix: later crossing of fault plane mistaken for entry
 to cell, missing cells in between

---
 resqpy/grid_surface/_blocked_well_populate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_blocked_well_populate.py b/resqpy/grid_surface/_blocked_well_populate.py
index 24aa829..466ccf3 100644
--- a/resqpy/grid_surface/_blocked_well_populate.py
+++ b/resqpy/grid_surface/_blocked_well_populate.py
@@ -424,7 +424,7 @@ def __faulted(trajectory, grid, segment, kji0, axis, polarity, xyz, lazy, use_si
                                                                                             start = segment,
                                                                                             start_xyz = xyz,
                                                                                             nudge = -0.1)
-    if xyz_f is not None:
+    if xyz_f is not None and segment_f == segment:
         # back out cell info from triangle index; note 'column_from...' is actually x_section cell face
         k0, j_or_i0 = x_sect_surf.column_from_triangle_index(tri_index_f)
         kji0[0] = k0
-- 
2.43.0


From afd8faf3e8f3d11821bb274f4e481a4a8096bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:37 +0000
Subject: [PATCH 168/192] fix: cells missed when trajectory re-enters grid in a
 later segment after exit through fault face

---
 resqpy/grid_surface/_grid_skin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index 6563db8..dd68524 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -370,7 +370,8 @@ class GridSkin:
             if exclude_kji0 is None or not np.all(kji0 == exclude_kji0):
                 return xyz, kji0, axis, polarity, segment
 
-        return None, None, None, None, None
+        # only the excluded cell found so far: continue along trajectory
+        return self.find_first_intersection_of_trajectory(trajectory, start = segment, start_xyz = xyz, nudge = 0.05)
 
     def _make_k_gap_surfaces(self, quad_triangles = True):
         """Returns a list of newly created surfaces representing top and base of each k gap."""
-- 
2.43.0


From 3887188e8ecfe6f8aa9008eff2201fa8b1dacba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:03 +0000
Subject: [PATCH 169/192] fix: properties from wellspec without dates

---
 resqpy/well/_blocked_well.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 596e129..a8ea1c6 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -1100,7 +1100,9 @@ class BlockedWell(BaseResqpy):
                     assert col in df.columns[3:]  # could just skip missing columns
                 property_columns = add_as_properties
             else:
-                property_columns = [col for col in df.columns[3:] if col not in ['GRID', 'DATE']]
+                property_columns = [
+                    col for col in df.columns[3:] if col != 'GRID' and (col != 'DATE' or df[col].isna().all())
+                ]
             self.add_df_properties(df,
                                    property_columns,
                                    length_uom = length_uom,
-- 
2.43.0


From 358e50bfd3307fb0f706284b31faf8f5796c1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:59 +0000
Subject: [PATCH 170/192] fix: blocked well not derivable from wellspec angles
 without use of face centres

---
 resqpy/well/_blocked_well.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index a8ea1c6..076a946 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -922,13 +922,14 @@ class BlockedWell(BaseResqpy):
             entry_axis, entry_polarity, exit_axis, exit_polarity = BlockedWell.__calculate_entry_and_exit_axes_polarities_and_points_using_indices(
                 df = df, i = i, cell_kji0 = cell_kji0, blocked_cells_kji0 = blocked_cells_kji0)
 
-        entry_xyz, exit_xyz = BlockedWell.__override_vector_based_xyz_entry_and_exit_points_if_necessary(
-            use_face_centres = use_face_centres,
-            entry_axis = entry_axis,
-            exit_axis = exit_axis,
-            entry_polarity = entry_polarity,
-            exit_polarity = exit_polarity,
-            cp = cp)
+        if use_face_centres:
+            entry_xyz, exit_xyz = BlockedWell.__override_vector_based_xyz_entry_and_exit_points_if_necessary(
+                use_face_centres = use_face_centres,
+                entry_axis = entry_axis,
+                exit_axis = exit_axis,
+                entry_polarity = entry_polarity,
+                exit_polarity = exit_polarity,
+                cp = cp)
 
         return entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz
 
-- 
2.43.0


From 148562eace0cb3974b16939a9a9458979c3f1e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:00 +0000
Subject: [PATCH 171/192] fix: wellspec angles taken relative to upward
 direction when z increases upwards

---
 resqpy/well/_blocked_well.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index 076a946..f4af193 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -831,7 +831,8 @@ class BlockedWell(BaseResqpy):
                     blocked_cells_kji0 = blocked_cells_kji0,
                     use_face_centres = use_face_centres,
                     xy_units = grid.crs.xy_units,
-                    z_units = grid.crs.z_units)
+                    z_units = grid.crs.z_units,
+                    z_inc_down = grid.crs.z_inc_down)
             log.debug(
                 f'cell: {cell_kji0}; entry axis: {entry_axis}; polarity {entry_polarity}; exit axis: {exit_axis}; polarity {exit_polarity}'
             )
@@ -910,11 +911,13 @@ class BlockedWell(BaseResqpy):
 
     @staticmethod
     def __calculate_entry_and_exit_axes_polarities_and_points(angles_present, row, cp, well_name, df, i, cell_kji0,
-                                                              blocked_cells_kji0, use_face_centres, xy_units, z_units):
+                                                              blocked_cells_kji0, use_face_centres, xy_units, z_units,
+                                                              z_inc_down = True):
         if angles_present:
             entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz =  \
             BlockedWell.__calculate_entry_and_exit_axes_polarities_and_points_using_angles(
-                row = row, cp = cp, well_name = well_name, xy_units = xy_units, z_units = z_units)
+                row = row, cp = cp, well_name = well_name, xy_units = xy_units, z_units = z_units,
+                z_inc_down = z_inc_down)
         else:
             # fabricate entry and exit axes and polarities based on indices alone
             # note: could use geometry but here a cheap rough-and-ready approach is used
@@ -934,7 +937,8 @@ class BlockedWell(BaseResqpy):
         return entry_axis, entry_polarity, entry_xyz, exit_axis, exit_polarity, exit_xyz
 
     @staticmethod
-    def __calculate_entry_and_exit_axes_polarities_and_points_using_angles(row, cp, well_name, xy_units, z_units):
+    def __calculate_entry_and_exit_axes_polarities_and_points_using_angles(row, cp, well_name, xy_units, z_units,
+                                                                           z_inc_down = True):
         """Calculate entry and exit axes, polarities and points using azimuth and inclination angles."""
 
         angla = row['ANGLA']
@@ -945,6 +949,8 @@ class BlockedWell(BaseResqpy):
             i_vector = np.sum(cp[:, :, 1] - cp[:, :, 0], axis = (0, 1))
             azimuth = vec.azimuth(i_vector) - angla  # see Nexus keyword reference doc
         well_vector = vec.unit_vector_from_azimuth_and_inclination(azimuth, inclination) * 10000.0
+        if not z_inc_down:
+            well_vector[2] = -well_vector[2]  # inclination is relative to downward direction
         if xy_units != z_units:
             well_vector[2] = wam.convert_lengths(well_vector[2], xy_units, z_units)
             well_vector = vec.unit_vector(well_vector) * 10000.0
-- 
2.43.0


From f4fff651af12dff164a0515be6aa3543834ae1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 172/192] fix: measured depth at end of tail of blocked well
 trajectory when length unit differs from that of grid

---
 resqpy/well/_blocked_well.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index f4af193..dd36c2b 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -876,7 +876,8 @@ class BlockedWell(BaseResqpy):
             cell_kji0 = cell_kji0,
             grid = grid,
             trajectory_points = trajectory_points,
-            trajectory_mds = trajectory_mds)
+            trajectory_mds = trajectory_mds,
+            length_uom = length_uom)
 
         self.create_md_datum_and_trajectory(grid, trajectory_mds, trajectory_points, length_uom, well_name)
         self.__add_as_properties_if_specified(add_as_properties = add_as_properties,
@@ -1074,7 +1075,7 @@ class BlockedWell(BaseResqpy):
 
     @staticmethod
     def __add_tail_to_trajectory_if_necessary(blocked_count, exit_axis, exit_polarity, cell_kji0, grid,
-                                              trajectory_points, trajectory_mds):
+                                              trajectory_points, trajectory_mds, length_uom):
         """Add tail to trajcetory if last segment terminates at bottom face in bottom layer."""
 
         if blocked_count > 0 and exit_axis == 0 and exit_polarity == 1 and cell_kji0[
@@ -1083,7 +1084,7 @@ class BlockedWell(BaseResqpy):
             tail_xyz = trajectory_points[-1].copy()
             tail_xyz[2] += tail_length * (1.0 if grid.z_inc_down() else -1.0)
             trajectory_points.append(tail_xyz)
-            new_md = trajectory_mds[-1] + tail_length
+            new_md = trajectory_mds[-1] + wam.convert_lengths(tail_length, grid.crs.z_units, length_uom)
             trajectory_mds.append(new_md)
 
         return trajectory_points, trajectory_mds
-- 
2.43.0


From d1950b480d7292c383241fe201cac68b3e3ea26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:17 +0000
Subject: [PATCH 173/192] fix: cached xyz box of regular grid changed when
 making its skin, affecting subsequent blocking of wells

---
 resqpy/grid_surface/_grid_skin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_grid_skin.py b/resqpy/grid_surface/_grid_skin.py
index dd68524..ea90a72 100644
--- a/resqpy/grid_surface/_grid_skin.py
+++ b/resqpy/grid_surface/_grid_skin.py
@@ -38,7 +38,7 @@ class GridSkin:
         if self.is_regular:
 
             # build a simplified two triangle surface for each of the six skin surfaces
-            xyz_box = grid.xyz_box(local = True)
+            xyz_box = grid.xyz_box(local = True).copy()
             for axis in range(3):
                 if grid.block_dxyz_dkji[2 - axis, axis] < 0.0:
                     xyz_box[:, axis] = (xyz_box[1, axis], xyz_box[0, axis])
-- 
2.43.0


From 41cf32131516729a9b4cedd118e4daa44cb9f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:00 +0000
Subject: [PATCH 174/192] fix: blocked well dataframe and derivation from cells
 fail for grid without its crs object loaded

---
 resqpy/well/_blocked_well.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index dd36c2b..e922327 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -776,8 +776,9 @@ class BlockedWell(BaseResqpy):
 
         assert len(df) > 0, 'empty dataframe for blocked well ' + str(well_name)
 
+        grid_z_units = grid.z_units()  # note: ensures grid crs object is in place
         if not length_uom:
-            length_uom = grid.z_units()
+            length_uom = grid_z_units
         # assert grid.xy_units() == length_uom, 'mixed length units in grid crs'
 
         previous_xyz = None
@@ -2109,6 +2110,8 @@ class BlockedWell(BaseResqpy):
         for grid in self.grid_list:
             grid_crs = crs.Crs(self.model, uuid = grid.crs_uuid)
             grid_crs_list.append(grid_crs)
+            if grid.crs is None:
+                grid.crs = grid_crs
         return grid_crs_list
 
     def __get_trajectory_crs_and_z_inc_down(self):
-- 
2.43.0


From c1c15e76e03e157e375c3e571011ea71e546e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:18 +0000
Subject: [PATCH 175/192] fix: blocked well dataframe with grid properties
 fails when grid's property collection not yet loaded

---
 resqpy/well/_blocked_well.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/well/_blocked_well.py b/resqpy/well/_blocked_well.py
index e922327..ae8f4b4 100644
--- a/resqpy/well/_blocked_well.py
+++ b/resqpy/well/_blocked_well.py
@@ -1873,7 +1873,7 @@ class BlockedWell(BaseResqpy):
             prop_uuid = uuid_or_dict[grid.uuid]
         else:
             prop_uuid = uuid_or_dict  # uuid either in form of string or uuid.UUID
-        return grid.property_collection.single_array_ref(uuid = prop_uuid)
+        return grid.extract_property_collection().single_array_ref(uuid = prop_uuid)
 
     @staticmethod
     def __get_ref_vector(grid, grid_crs, cell_kji0, mode):
-- 
2.43.0


From 36f9b4dac03677171ebded7abf438ea3abd86050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:48 +0000
Subject: [PATCH 176/192] fix: bisector treated as curtain, losing layers, when
 parts have same mean k but are not vertically uniform

---
 resqpy/grid_surface/_find_faces.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index fdb8e4d..d77af9f 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1931,9 +1931,11 @@ def _shallow_or_curtain(a: np.ndarray, true_count: int, raw: bool) -> bool:
     opposite_mean_k: float = float(opposite_k_sum) / float(a.size - true_count)
     if mean_k > opposite_mean_k and not raw:
         a[:] = np.logical_not(a)
-    if abs(mean_k - opposite_mean_k) <= 0.001:
-        # log.warning('unable to determine which side of surface is shallower')
-        is_curtain = True
+    is_curtain = True
+    for k in range(1, a.shape[0]):
+        if np.any(a[k] != a[0]):
+            is_curtain = False
+            break
     return is_curtain
 
 
-- 
2.43.0


From 7b8676c85b4289ccaa87b58442cabb34c432f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:48 +0000
Subject: [PATCH 177/192] fix: find faces wrapper function raises exception
 instead of reporting lack of success when no faces found

---
 resqpy/multi_processing/wrappers/grid_surface_mp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/multi_processing/wrappers/grid_surface_mp.py b/resqpy/multi_processing/wrappers/grid_surface_mp.py
index f9c2c9a..1c03b43 100644
--- a/resqpy/multi_processing/wrappers/grid_surface_mp.py
+++ b/resqpy/multi_processing/wrappers/grid_surface_mp.py
@@ -259,7 +259,7 @@ def find_faces_to_represent_surface_regular_wrapper(
     else:
         gcs = returns
 
-    if gcs.count > 0:
+    if gcs is not None and gcs.count > 0:
         success = True
         gcs.write_hdf5()
         gcs.create_xml(extra_metadata = extra_metadata)
-- 
2.43.0


From 9d6bfe9179298157ea916665838fa18d20be761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:24 +0000
Subject: [PATCH 178/192] fix: surface left with inconsistent crs or altered
 points after finding faces, giving wrong results subsequently

---
 resqpy/grid_surface/_find_faces.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index d77af9f..b9306cd 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -90,7 +90,7 @@ def find_faces_to_represent_surface_staffa(grid, surface, name, feature_type = "
         i_faces = None
 
     # log.debug('finding surface triangle boxes')
-    t, p = surface.triangles_and_points()
+    t, p = surface.triangles_and_points(copy = True)
     if not bu.matching_uuids(grid.crs_uuid, surface.crs_uuid):
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
@@ -261,7 +261,7 @@ def find_faces_to_represent_surface_regular(
         log.debug("making all triangles clockwise")
         # note: following will shuffle order of vertices within t cached in surface
         surface.make_all_clockwise_xy(reorient = True)
-    t, p = surface.triangles_and_points()
+    t, p = surface.triangles_and_points(copy = True)
     assert t is not None and p is not None, f"surface {surface.title} is empty"
     if agitate:
         if random_agitation:
@@ -275,7 +275,6 @@ def find_faces_to_represent_surface_regular(
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, p)
-        surface.crs_uuid = grid.crs.uuid
         log.debug(f"surface: {surface.title}; p0: {p[0]}; crs uuid: {surface.crs_uuid}")
         log.debug(f"surface min xyz: {np.min(p, axis = 0)}")
         log.debug(f"surface max xyz: {np.max(p, axis = 0)}")
@@ -601,7 +600,7 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         grid.block_dxyz_dkji[1, 1],
         grid.block_dxyz_dkji[0, 2],
     )
-    triangles, points = surface.triangles_and_points()
+    triangles, points = surface.triangles_and_points(copy = True)
     t_dtype = np.int32 if len(triangles) < 2_000_000_000 else np.int64
     assert (triangles is not None and points is not None), f"surface {surface.title} is empty"
     if agitate:
@@ -617,7 +616,6 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
@@ -982,7 +980,6 @@ def find_faces_to_represent_surface_regular_optimised(grid,
         log.debug("converting from surface crs to grid crs")
         s_crs = rqc.Crs(surface.model, uuid = surface.crs_uuid)
         s_crs.convert_array_to(grid.crs, points)
-        surface.crs_uuid = grid.crs.uuid
         # log.debug(f'surface: {surface.title}; p0: {points[0]}; crs uuid: {surface.crs_uuid}')
         # log.debug(f'surface min xyz: {np.min(points, axis = 0)}')
         # log.debug(f'surface max xyz: {np.max(points, axis = 0)}')
-- 
2.43.0


From 51b2766a67d96965c7e4ad470bd20a77ed4b5ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:24 +0000
Subject: [PATCH 179/192] fix: depth returned for J and I faces representing a
 surface is y or x value

---
 resqpy/grid_surface/_find_faces.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index b9306cd..e312890 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1063,9 +1063,6 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             j_faces_kji0[:, 2] = j_hits[:, 2]
             if return_offsets:
                 j_offsets = (j_depths - j_faces.astype(np.float64) - 0.5) * dy
-            if return_depths:
-                j_depths[:] += 0.5
-                j_depths[:] *= dy
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 j_faces = np.repeat(np.expand_dims(j_faces_kji0, axis = 0), grid.nk, axis = 0)
                 j_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
@@ -1073,8 +1070,8 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 j_triangles = np.repeat(j_triangles, grid.nk, axis = 0)
                 if return_offsets:
                     j_offsets = np.repeat(j_offsets, grid.nk, axis = 0)
-                if return_depths:
-                    j_depths = np.repeat(j_depths, grid.nk, axis = 0)
+            if return_depths:  # z of line between cell centres
+                j_depths = (j_faces_kji0[:, 0].astype(np.float64) + 0.5) * dz
             j_props = []
             if return_triangles:
                 j_props.append(j_triangles)
@@ -1115,9 +1112,6 @@ def find_faces_to_represent_surface_regular_optimised(grid,
             i_faces_kji0[:, 2] = i_faces
             if return_offsets:
                 i_offsets = (i_depths - i_faces.astype(np.float64) - 0.5) * dx
-            if return_depths:
-                i_depths[:] += 0.5
-                i_depths[:] *= dx
             if is_curtain and grid.nk > 1:  # expand arrays to all layers
                 i_faces = np.repeat(np.expand_dims(i_faces_kji0, axis = 0), grid.nk, axis = 0)
                 i_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
@@ -1125,8 +1119,8 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 i_triangles = np.repeat(i_triangles, grid.nk, axis = 0)
                 if return_offsets:
                     i_offsets = np.repeat(i_offsets, grid.nk, axis = 0)
-                if return_depths:
-                    i_depths = np.repeat(i_depths, grid.nk, axis = 0)
+            if return_depths:  # z of line between cell centres
+                i_depths = (i_faces_kji0[:, 0].astype(np.float64) + 0.5) * dz
             i_props = []
             if return_triangles:
                 i_props.append(i_triangles)
-- 
2.43.0


From 3dc8a8656737783818c57ea6f9e6169adb4e564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 180/192] fix: normal vectors for faces representing a surface
 converted the wrong way when xy and z units differ

---
 resqpy/grid_surface/_find_faces.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index e312890..c2d6010 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -476,7 +476,8 @@ def find_faces_to_represent_surface_regular(
         log.debug(f"gcs count: {gcs.count}; all normals shape: {all_normals.shape}")
         assert all_normals.shape == (gcs.count, 3)
         if grid.crs.xy_units != grid.crs.z_units:
-            wam.convert_lengths(all_normals[:, 2], grid.crs.z_units, grid.crs.xy_units)
+            # note: component of normal in z scales inversely with z
+            wam.convert_lengths(all_normals[:, 2], grid.crs.xy_units, grid.crs.z_units)
             all_normals = vec.unit_vectors(all_normals)
 
     if progress_fn is not None:
-- 
2.43.0


From ab8291334c9ea37ec0302d974fcb7725fc82e325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 181/192] fix: offsets for faces representing a surface fail
 when grid has extent of one in an axis

---
 resqpy/grid_surface/_find_faces.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index c2d6010..f4ace65 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -332,6 +332,7 @@ def find_faces_to_represent_surface_regular(
     else:
         k_faces = None
         k_sides = None
+        k_offsets = None
         k_normals = None
 
     if progress_fn is not None:
@@ -382,6 +383,7 @@ def find_faces_to_represent_surface_regular(
     else:
         j_faces = None
         j_sides = None
+        j_offsets = None
         j_normals = None
 
     if progress_fn is not None:
@@ -432,6 +434,7 @@ def find_faces_to_represent_surface_regular(
     else:
         i_faces = None
         i_sides = None
+        i_offsets = None
         i_normals = None
 
     if progress_fn is not None:
-- 
2.43.0


From 7003b134ffd8072806f7b2100ce49834d4aad159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 182/192] fix: grid shadow for surface without K faces raises
 exception

---
 resqpy/grid_surface/_find_faces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index f4ace65..7abfe92 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1565,6 +1565,8 @@ def shadow_from_face_indices(extent_kji, kji0):
     assert len(extent_kji) == 3
     limit = extent_kji[0] - 1  # maximum number of iterations needed to spead shadow
     shadow = np.zeros(extent_kji, dtype = np.int8)
+    if kji0 is None:  # no K faces
+        return shadow
     shadow[kji0[:, 0], kji0[:, 1], kji0[:, 2]] = 1
     shadow[kji0[:, 0] + 1, kji0[:, 1], kji0[:, 2]] += 2
     for _ in range(limit):
@@ -1601,6 +1603,8 @@ def shadow_from_faces(extent_kji, k_faces):
     assert len(extent_kji) == 3
     limit = extent_kji[0] - 1  # maximum number of iterations needed to spead shadow
     shadow = np.zeros(extent_kji, dtype = np.int8)
+    if k_faces is None:  # no K faces
+        return shadow
     shadow[:-1] = np.where(k_faces, 1, 0)
     shadow[1:] += np.where(k_faces, 2, 0)
     for _ in range(limit):
-- 
2.43.0


From c1720ea4b305b1bd56eed4459bce8c01a16a0a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 183/192] fix: depth of top layer returned for all layers of
 curtain faces by dense find faces function

---
 resqpy/grid_surface/_find_faces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 7abfe92..3e25d32 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -706,7 +706,7 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
         if is_curtain and grid.nk > 1:  # expand arrays to all layers
             j_faces = np.repeat(j_faces, grid.nk, axis = 0)
             j_triangles = np.repeat(j_triangles, grid.nk, axis = 0)
-            j_depths = np.repeat(j_depths, grid.nk, axis = 0)
+            j_depths = j_depths + (np.arange(grid.nk) * grid_dxyz[2]).reshape((-1, 1, 1))
             j_offsets = np.repeat(j_offsets, grid.nk, axis = 0)
         log.debug(f"j face count: {np.count_nonzero(j_faces)}")
     else:
@@ -756,7 +756,7 @@ def find_faces_to_represent_surface_regular_dense_optimised(grid,
             # log.debug('expanding curtain faces')
             i_faces = np.repeat(i_faces, grid.nk, axis = 0)
             i_triangles = np.repeat(i_triangles, grid.nk, axis = 0)
-            i_depths = np.repeat(i_depths, grid.nk, axis = 0)
+            i_depths = i_depths + (np.arange(grid.nk) * grid_dxyz[2]).reshape((-1, 1, 1))
             i_offsets = np.repeat(i_offsets, grid.nk, axis = 0)
         log.debug(f"i face count: {np.count_nonzero(i_faces)}")
     else:
-- 
2.43.0


From d21d5721ef15e552b80b40d715a3d39f1a7092bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:49 +0000
Subject: [PATCH 184/192] fix: triangles and offsets assigned to wrong faces of
 curtain when grid has more than one layer

---
 resqpy/grid_surface/_find_faces.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index 3e25d32..dbbc824 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1071,9 +1071,9 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 j_faces = np.repeat(np.expand_dims(j_faces_kji0, axis = 0), grid.nk, axis = 0)
                 j_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
                 j_faces_kji0 = j_faces.reshape((-1, 3))
-                j_triangles = np.repeat(j_triangles, grid.nk, axis = 0)
+                j_triangles = np.tile(j_triangles, grid.nk)
                 if return_offsets:
-                    j_offsets = np.repeat(j_offsets, grid.nk, axis = 0)
+                    j_offsets = np.tile(j_offsets, grid.nk)
             if return_depths:  # z of line between cell centres
                 j_depths = (j_faces_kji0[:, 0].astype(np.float64) + 0.5) * dz
             j_props = []
@@ -1120,9 +1120,9 @@ def find_faces_to_represent_surface_regular_optimised(grid,
                 i_faces = np.repeat(np.expand_dims(i_faces_kji0, axis = 0), grid.nk, axis = 0)
                 i_faces[:, :, 0] = np.expand_dims(np.arange(grid.nk, dtype = np.int32), axis = -1)
                 i_faces_kji0 = i_faces.reshape((-1, 3))
-                i_triangles = np.repeat(i_triangles, grid.nk, axis = 0)
+                i_triangles = np.tile(i_triangles, grid.nk)
                 if return_offsets:
-                    i_offsets = np.repeat(i_offsets, grid.nk, axis = 0)
+                    i_offsets = np.tile(i_offsets, grid.nk)
             if return_depths:  # z of line between cell centres
                 i_depths = (i_faces_kji0[:, 0].astype(np.float64) + 0.5) * dz
             i_props = []
-- 
2.43.0


From 09bbe2a4a2e44c178e69cf92dbd4948066121da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 185/192] fix: J faces representing a surface have cells of
 pair in opposite order to K and I faces when consistent_side

---
 resqpy/grid_surface/_find_faces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index dbbc824..cdf5bcf 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -350,7 +350,7 @@ def find_faces_to_represent_surface_regular(
             (t_count, grid.nk, grid.ni))
         del j_centres
         if consistent_side:
-            cwt = vec.clockwise_triangles(p, t, projection = "xz") >= 0.0
+            cwt = vec.clockwise_triangles(p, t, projection = "xz") <= 0.0  # xz axes have opposite handedness to xy & yz
         for j_t, j_k, j_i in np.stack(np.where(j_hits), axis = -1):
             xyz = meet.line_triangle_intersect(
                 centres[j_k, 0, j_i],
-- 
2.43.0


From 548f4217b7973a256fe0885614408ea007f65066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:31 +0000
Subject: [PATCH 186/192] fix: planar approximation of face of unstructured
 grid tilted the wrong way

---
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 4611a63..2684ced 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -691,11 +691,11 @@ class UnstructuredGrid(BaseResqpy):
         normal = self.face_normal(face_index)
         az = vec.azimuth(normal)
         incl = vec.inclination(normal)
-        vec.tilt_points(face_centre, az, -incl, face_points)  # modifies face_points in situ
+        vec.tilt_points(face_centre, az, incl, face_points)  # modifies face_points in situ
         face_points[..., 2] = 0.0
         if not xy_plane:
             face_centre[2] = 0.0
-            vec.tilt_points(face_centre, az, incl, face_points)  # tilt back to original average normal
+            vec.tilt_points(face_centre, az, -incl, face_points)  # tilt back to original average normal
             if crs.xy_units != crs.z_units:
                 wam.convert_lengths(face_points[:, 2], crs.xy_units, crs.z_units)
             face_points[..., 2] += z_centre
-- 
2.43.0


From 0c44ab9412b7ac164f46c898195266e59807c5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:31 +0000
Subject: [PATCH 187/192] fix: maximum face count for unstructured grid with
 one cell raises exception

---
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 2684ced..ca71e67 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -453,7 +453,7 @@ class UnstructuredGrid(BaseResqpy):
         """Returns the largest number of faces in use by any one cell."""
 
         self.cache_all_geometry_arrays()
-        return max(self.faces_per_cell_cl[0], np.max(self.faces_per_cell_cl[1:] - self.faces_per_cell_cl[:-1]))
+        return max(self.faces_per_cell_cl[0], np.max(self.faces_per_cell_cl[1:] - self.faces_per_cell_cl[:-1], initial = 0))
 
     def node_count_for_face(self, face_index):
         """Returns the number of nodes for a particular face."""
@@ -466,7 +466,7 @@ class UnstructuredGrid(BaseResqpy):
         """Returns the largest number of nodes in use by any one face."""
 
         self.cache_all_geometry_arrays()
-        return max(self.nodes_per_face_cl[0], np.max(self.nodes_per_face_cl[1:] - self.nodes_per_face_cl[:-1]))
+        return max(self.nodes_per_face_cl[0], np.max(self.nodes_per_face_cl[1:] - self.nodes_per_face_cl[:-1], initial = 0))
 
     def node_indices_for_face(self, face_index):
         """Returns numpy list of node indices for a single face.
-- 
2.43.0


From 1f396c60504dae9746ae193f34c4eb644d1fbb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 188/192] fix: NaN rotation matrix for vector in direction of
 negative z axis

---
 resqpy/olio/vector_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 1548e83..1602da9 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -449,6 +449,8 @@ def rotation_matrix_3d_vector(v):
        the returned matrix will map a positive z axis vector onto v
     """
     v = v / np.linalg.norm(v)
+    if v[2] <= -1.0:  # antiparallel to z axis: any half turn about a horizontal axis will do
+        return np.diag((-1.0, 1.0, -1.0))
     kmat = np.array([[0, 0, -v[0]], [0, 0, -v[1]], [v[0], v[1], 0]])
     rotation_matrix = np.eye(3) + kmat + kmat.dot(kmat) * (1 / (1 + v[2]))
 
-- 
2.43.0


From 7a6ba2f529a390beaa0edf1cf57e54264ee0498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 189/192] fix: column count, triangulation and top faces not
 available for vertical prism grid with a single layer

---
 resqpy/unstructured/_prism_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7551487..15aaca9 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -412,7 +412,7 @@ class VerticalPrismGrid(PrismGrid):
     def column_count(self):
         """Returns the number of columns in the grid."""
 
-        assert self.nk > 1, 'no layer information set for vertical prism grid'
+        assert self.nk is not None and self.nk > 0, 'no layer information set for vertical prism grid'
         n_col, remainder = divmod(self.cell_count, self.nk)
         assert remainder == 0, 'code failure for vertical prism grid: cell and layer counts not compatible'
         return n_col
-- 
2.43.0


From 44de4af5d60a00e676f6da40b2a12713caf8b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 190/192] fix: shape of centre point of a single cell of
 vertical prism grid

---
 resqpy/unstructured/_prism_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 15aaca9..876f0b2 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -428,7 +428,8 @@ class VerticalPrismGrid(PrismGrid):
         """
 
         cp = self.corner_points(cell = cell)
-        return np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        centres = np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        return centres if cell is None else centres[0]
 
     def corner_points(self, cell = None):
         """Returns corner points for all cells or for a single cell.
-- 
2.43.0


From 884090337faa7a96f6d2e7a0e3bac237a423561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 191/192] fix: handedness of faces, and so sign of volumes,
 wrong for hexa grid made from grid with right handed xyz axes

---
 resqpy/unstructured/_hexa_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 3f94bb5..5fbea2a 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -190,8 +190,8 @@ class HexaGrid(rug.UnstructuredGrid):
         # here the assumption is clockwise ordering of nodes viewed from within cell means 'right handed'
         hexa_grid.cell_face_is_right_handed = np.zeros(6 * hexa_grid.cell_count,
                                                        dtype = bool)  # initially set to left handed
-        # if IJK grid's ijk handedness matches the xyz handedness, then set +ve faces to right handed; else -ve faces
-        if ijk_grid.off_handed():
+        # if IJK grid is left handed, then set +ve faces to right handed; else -ve faces
+        if ijk_grid.extract_grid_is_right_handed():
             hexa_grid.cell_face_is_right_handed[0::2] = True  # negative faces are right handed
         else:
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
-- 
2.43.0


From a1930ded6b9858dba50b5bafc0ad828cf51bd189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:43 +0000
Subject: [PATCH 192/192] fix: active property written to hdf5 but left without
 xml for hexa grid made without inheriting properties

---
 resqpy/unstructured/_hexa_grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/unstructured/_hexa_grid.py b/resqpy/unstructured/_hexa_grid.py
index 5fbea2a..fd8d42f 100644
--- a/resqpy/unstructured/_hexa_grid.py
+++ b/resqpy/unstructured/_hexa_grid.py
@@ -196,6 +196,9 @@ class HexaGrid(rug.UnstructuredGrid):
         else:
             hexa_grid.cell_face_is_right_handed[1::2] = True  # positive faces are right handed
 
+        if write_active is None:  # if inheriting, any active property of the ijk grid will be amongst the inherited properties
+            write_active = (hexa_grid.inactive is not None and not inherit_properties)
+
         hexa_grid.write_hdf5(write_active = write_active)
         hexa_grid.create_xml(write_active = write_active)
 
-- 
2.43.0

