From 221582d3714f6d75b6049b25b5b80d452548f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 01/89] fix: store mean dip, rather than mean azimuth, in fault
 interpretation MeanDip xml

---
 resqpy/organize/fault_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index 703ef64..fb89a9d 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -219,7 +219,7 @@ class FaultInterpretation(BaseResqpy):
         if self.mean_dip is not None:
             dip = rqet.SubElement(fi, ns['resqml2'] + 'MeanDip')
             dip.set(ns['xsi'] + 'type', ns['eml'] + 'PlaneAngleMeasure')
-            dip.text = str(self.mean_azimuth)
+            dip.text = str(self.mean_dip)
 
         if self.throw_interpretation_list is not None and len(self.throw_interpretation_list):
             previous_has_occurred_during = ('never', 'never')
-- 
2.43.0


From c9de63aac0c37c5b729b8c0bd5741f2365c638e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 02/89] fix: load domain of an existing geobody interpretation
 from xml

---
 resqpy/organize/geobody_interpretation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index dd0bfb4..a046898 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -60,6 +60,7 @@ class GeobodyInterpretation(BaseResqpy):
 
     def _load_from_xml(self):
         root_node = self.root
+        self.domain = rqet.find_tag_text(root_node, 'Domain')
         interp_feature_ref_node = rqet.find_tag(root_node, 'InterpretedFeature')
         assert interp_feature_ref_node is not None
         self.feature_root = self.model.referenced_node(interp_feature_ref_node)
-- 
2.43.0


From 7869ae1e580e24df3d20c63635079498b5d441eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 03/89] fix: restore md datum and wellbore interpretation when
 loading an existing deviation survey

---
 resqpy/well/_deviation_survey.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 6a67a4b..23b6264 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -287,6 +287,7 @@ class DeviationSurvey(BaseResqpy):
         # Set related objects
         self.md_datum = self._load_related_datum()
         self.represented_interp = self._load_related_wellbore_interp()
+        self.wellbore_interpretation = self.represented_interp
 
         # Validate
         assert self.measured_depths is not None
@@ -461,11 +462,9 @@ class DeviationSurvey(BaseResqpy):
     def _load_related_datum(self):
         """Return related MdDatum object from XML if present."""
 
-        md_datum_uuid = bu.uuid_from_string(rqet.find_tag(rqet.find_tag(self.root, 'MdDatum'), 'UUID'))
-        if md_datum_uuid is not None:
-            md_datum_part = 'obj_MdDatum_' + str(md_datum_uuid) + '.xml'
-            md_datum = rqmdd.MdDatum(self.model,
-                                     md_datum_root = self.model.root_for_part(md_datum_part, is_rels = False))
+        md_datum_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(self.root, ['MdDatum', 'UUID']))
+        if md_datum_uuid is not None and self.model.part_for_uuid(md_datum_uuid) is not None:
+            md_datum = rqmdd.MdDatum(self.model, uuid = md_datum_uuid)
         else:
             md_datum = None
         return md_datum
-- 
2.43.0


From 912bf1977de6e002939b65ffd17aa401c170c942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 04/89] fix: load surface role of an existing triangulated
 surface from xml

---
 resqpy/surface/_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d2b183e..e62cb3b 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -225,6 +225,9 @@ class Surface(rqsb.BaseSurface):
     def _load_from_xml(self):
         root_node = self.root
         assert root_node is not None
+        surface_role = rqet.find_tag_text(root_node, 'SurfaceRole')
+        if surface_role:
+            self.surface_role = surface_role
         self.extract_patches(root_node)
         ref_node = rqet.find_tag(root_node, 'RepresentedInterpretation')
         if ref_node is not None:
-- 
2.43.0


From ba7fc947b29a300b1c61d3d1213bdf8ec0405498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 05/89] fix: keep previously stored epc intact if storing is
 interrupted or fails

---
 resqpy/model/_forestry.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index feaa787..9f1c1a0 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -4,6 +4,7 @@ import logging
 
 log = logging.getLogger(__name__)
 
+import contextlib
 import copy
 import os
 import shutil
@@ -333,6 +334,23 @@ def _load_relationships(epc, model, epc_subdir, names):
                 _fell_part(model, name)
 
 
+@contextlib.contextmanager
+def _replacing_when_complete(file_name):
+    """Yields a temporary file path, which replaces the named file only if the context exits without exception."""
+
+    target = os.path.realpath(file_name)
+    temporary = f'{target}.{os.getpid()}.tmp'
+    try:
+        yield temporary
+        if os.path.exists(target):
+            shutil.copymode(target, temporary)
+        os.replace(temporary, target)
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
+
+
 def _store_epc(model, epc_file = None, main_xml_name = '[Content_Types].xml', only_if_modified = False, quiet = False):
     """Write xml parts of model to epc file (HDF5 arrays are not written here)."""
 
@@ -353,7 +371,7 @@ def _store_epc(model, epc_file = None, main_xml_name = '[Content_Types].xml', on
     if model.main_root is None:
         model.main_root = model.main_tree.getroot()
 
-    with zf.ZipFile(epc_file, mode = 'w') as epc:
+    with _replacing_when_complete(epc_file) as temp_epc_file, zf.ZipFile(temp_epc_file, mode = 'w') as epc:
         with epc.open(main_xml_name, mode = 'w') as main_xml:
             rqet.write_xml(main_xml, model.main_tree, standalone = 'yes')
         for part_name, (_, _, part_tree) in model.parts_forest.items():
-- 
2.43.0


From daae8d984ce568d695113768872584725a350c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 06/89] fix: do not cache a zero filled array when reading from
 hdf5 fails

---
 resqpy/model/_hdf5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 82e2ce0..968fe80 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -231,16 +231,16 @@ def _h5_array_element(model,
             required_shape = shape_tuple
         else:
             required_shape = tuple(required_shape)
-        object.__dict__[array_attribute] = np.zeros(required_shape, dtype = dtype)
+        loaded = np.zeros(required_shape, dtype = dtype)  # only cached as attribute once successfully populated
         if shape_tuple == required_shape:
-            object.__dict__[array_attribute][:] = h5_root[h5_key_pair[1]]
+            loaded[:] = h5_root[h5_key_pair[1]]
         elif (len(shape_tuple) == len(required_shape) and ('bool' in str_dtype or 'uint8' in str_dtype) and
               8 * (shape_tuple[-1] - 1) < required_shape[-1] <= 8 * shape_tuple[-1]):
             a = np.unpackbits(h5_root[h5_key_pair[1]], axis = -1).astype(bool)
-            object.__dict__[array_attribute][:] = a[..., :required_shape[-1]]
+            loaded[:] = a[..., :required_shape[-1]]
         else:
-            object.__dict__[array_attribute][:] =  \
-                np.array(h5_root[h5_key_pair[1]], dtype = dtype).reshape(required_shape)
+            loaded[:] = np.array(h5_root[h5_key_pair[1]], dtype = dtype).reshape(required_shape)
+        object.__dict__[array_attribute] = loaded
         _h5_release(model)
         if index is None:
             return None
-- 
2.43.0


From 76c08e71c6a6eb845610ca141d21ac84481039a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 07/89] fix: release hdf5 file on exit from ModelContext even
 if storing the epc fails

---
 resqpy/model/_context.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/resqpy/model/_context.py b/resqpy/model/_context.py
index b5473ad..65e1143 100644
--- a/resqpy/model/_context.py
+++ b/resqpy/model/_context.py
@@ -76,9 +76,10 @@ class ModelContext:
     def __exit__(self, exc_type, exc_value, exc_tb):
         """Exit the runtime context, close the model."""
 
-        # Only write to disk if no exception has occured
-        if self.mode in ["read/write", "create"] and exc_type is None:
-            self._model.store_epc()
-
-        # Release file handles
-        self._model.h5_release()
+        try:
+            # Only write to disk if no exception has occured
+            if self.mode in ["read/write", "create"] and exc_type is None:
+                self._model.store_epc()
+        finally:
+            # Release file handles
+            self._model.h5_release()
-- 
2.43.0


From 14396d234a4f6eb78745351097a80d7e49b4df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 08/89] fix: raise, rather than only log, failure to write data
 to ascii file

---
 resqpy/olio/write_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/write_data.py b/resqpy/olio/write_data.py
index 1ed63a7..415e463 100644
--- a/resqpy/olio/write_data.py
+++ b/resqpy/olio/write_data.py
@@ -100,7 +100,7 @@ def write_array_to_ascii_file(file_name,
 
         except Exception:
             log.error('Failed to write data to ascii file %s', file_name)
-            # could abort at this point, or raise
+            raise
 
     if use_binary:
         extension, _ = abt.binary_file_extension_and_np_type_for_data_type(data_type)
-- 
2.43.0


From f536c5a59ea6abd052a61a9116e43f5e88454611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 09/89] fix: raise, rather than silently drop part, if a part
 cannot be read when loading epc

---
 resqpy/model/_forestry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 9f1c1a0..6cf665b 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -9,6 +9,7 @@ import copy
 import os
 import shutil
 import zipfile as zf
+import zlib
 
 import resqpy.model._catalogue as m_c
 import resqpy.model._xml as m_x
@@ -71,6 +72,11 @@ def _load_part(model, epc, part_name, is_rels = None):
 
         return True
 
+    except (OSError, zf.BadZipFile, zlib.error):  # not okay to continue: part exists but could not be read
+
+        log.error('failed to read part: ' + part_name)
+        raise
+
     except Exception:
 
         log.exception('(okay to continue?) failed to load part: ' + part_name)
-- 
2.43.0


From 859121f9bcd5881f6d18fb7efc848322187f0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 10/89] fix: allow removal of a part which has no relationships

---
 resqpy/model/_forestry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 6cf665b..b2a7e91 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -523,7 +523,9 @@ def _del_uuid_relations(model, part_name):
     uuid = model.uuid_for_part(part_name)
     if uuid is None:
         return
-    relations = model.uuid_rels_dict[uuid.int]
+    relations = model.uuid_rels_dict.get(uuid.int)
+    if relations is None:  # part has no relationships
+        return
     for related_uuid_int in relations[0]:
         model.uuid_rels_dict[related_uuid_int][1].remove(uuid.int)
     for related_uuid_int in relations[1]:
-- 
2.43.0


From 0f61a0ebf959b242776f16939300d8e7981bfadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 11/89] fix: record soft relationships for parts which have no
 reference relationships

---
 resqpy/model/_forestry.py | 5 ++---
 resqpy/model/_xml.py      | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index b2a7e91..9dce557 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -221,9 +221,8 @@ def _add_uuid_soft_relations(model, uuid_int, part):
                 if relation_uuid_str is None:
                     return  # probably HDF5 external resource
                 relation_uuid_int = _hex_to_int(relation_uuid_str)
-                rels_sets = model.uuid_rels_dict.get(uuid_int)
-                if rels_sets is not None and relation_uuid_int not in rels_sets[
-                        0] and relation_uuid_int not in rels_sets[1]:
+                rels_sets = model.uuid_rels_dict.setdefault(uuid_int, (set(), set(), set()))
+                if relation_uuid_int not in rels_sets[0] and relation_uuid_int not in rels_sets[1]:
                     rels_sets[2].add(relation_uuid_int)
 
 
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index a0e5ffd..53da272 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -629,10 +629,10 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
     rel_uuid_a_int = rel_uuid_a.int
     rel_uuid_b_int = rel_uuid_b.int
 
-    value = model.uuid_rels_dict.get(rel_uuid_a_int)
-    if value is not None and rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_a_int, (set(), set(), set()))
+    if rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
         value[2].add(rel_uuid_b_int)
 
-    value = model.uuid_rels_dict.get(rel_uuid_b_int)
-    if value is not None and rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_b_int, (set(), set(), set()))
+    if rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
         value[2].add(rel_uuid_a_int)
-- 
2.43.0


From 4e89487b9f4ca071dc48c8cabe66ba05d639e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 12/89] fix: escape special characters in xml attribute values
 when storing epc

---
 resqpy/olio/xml_et.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/xml_et.py b/resqpy/olio/xml_et.py
index 2e2d5a0..e36d84f 100644
--- a/resqpy/olio/xml_et.py
+++ b/resqpy/olio/xml_et.py
@@ -672,6 +672,12 @@ def creation_date_for_node(node):
     return find_nested_tags_text(node, ['Citation', 'Creation'])
 
 
+def _escaped_attribute(val):
+    """Returns the attribute value with characters that are special within a quoted xml attribute escaped."""
+
+    return val.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
+
+
 def write_xml_node(xml_fp, root, level = 0, namespace_keys = []):
     """Recursively write an xml node to an open file; return number of nodes written."""
     if root is None:
@@ -708,9 +714,9 @@ def write_xml_node(xml_fp, root, level = 0, namespace_keys = []):
             type_attr, type_pre_colon = colon_prefixed(val)
             attrib_list.append(colon_attrib_key + '="' + type_attr + '"')
         elif ct_special and colon_attrib_key == 'PartName' and val.startswith('obj_'):
-            attrib_list.append(colon_attrib_key + '="/' + val + '"')
+            attrib_list.append(colon_attrib_key + '="/' + _escaped_attribute(val) + '"')
         else:
-            attrib_list.append(colon_attrib_key + '="' + val + '"')
+            attrib_list.append(colon_attrib_key + '="' + _escaped_attribute(val) + '"')
 
     for attrib_ns in attrib_ns_list:
         line += ' xmlns:' + attrib_ns + '="' + ns[attrib_ns] + '"'
-- 
2.43.0


From 40ab7e9faa538e24287f7a5f08b534b571d74a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 13/89] fix: relate mesh to its supporting mesh

---
 resqpy/surface/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 73a1825..69cf5b1 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -298,7 +298,7 @@ class Mesh(rqsb.BaseSurface):
 
         p_node = self.__create_xml_basics(g2d_node)
 
-        ref_root = None
+        ref_root = self.model.root_for_uuid(self.ref_uuid) if self.flavour == 'ref&z' else None
 
         if self.flavour == 'regular':
             self.__create_xml_regular(p_node)
-- 
2.43.0


From 17d7551c906f98f639fc07f09fc14049079c1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:21 +0000
Subject: [PATCH 14/89] fix: remove relationship of external part with a part
 which is removed from model

---
 resqpy/model/_forestry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 9dce557..7782898 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -500,10 +500,11 @@ def _remove_part(model, part_name, remove_relationship_part):
         else:
             related_parts = m_c._parts_list_filtered_by_related_uuid(model, m_c._list_of_parts(model),
                                                                      rqet.uuid_in_part_name(part_name))
+            related_parts = related_parts + m_c._external_parts_list(model)
             for relative in related_parts:
                 (rel_uuid, rel_tree) = model.rels_forest[rqet.rels_part_name_for_part(relative)]
                 rel_root = rel_tree.getroot()
-                for child in rel_root:
+                for child in list(rel_root):
                     if rqet.stripped_of_prefix(child.tag) != 'Relationship':
                         continue
                     if child.attrib['Target'] == part_name:
-- 
2.43.0


From fd00408b539549b02f0294abd5ae537f79042097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:56 +0000
Subject: [PATCH 15/89] fix: filtering of parts by epc sub-directory

---
 resqpy/model/_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 0a74510..67b0a4f 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -719,7 +719,7 @@ def _filtered_by_epc_subdir(model, parts_list, epc_subdir):
             epc_subdir += '/'
         filtered_list = []
         for part in parts_list:
-            if part.startswith[epc_subdir]:
+            if part.startswith(epc_subdir):
                 filtered_list.append(part)
         return filtered_list
     else:
-- 
2.43.0


From 9ab4c52996c40c1f42f4f8de9d72e59e955c7e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:03 +0000
Subject: [PATCH 16/89] fix: do not treat an empty parts list as all parts when
 filtering

---
 resqpy/model/_catalogue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 67b0a4f..84e9f3d 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -25,7 +25,7 @@ def _parts(model,
            sort_by = None):
     """Returns a list of parts matching all of the arguments passed."""
 
-    if not parts_list:
+    if parts_list is None:
         parts_list = _list_of_parts(model)
     if uuid is not None:
         part_name = model.uuid_part_dict.get(bu.uuid_as_int(uuid))
-- 
2.43.0


From 440c21c600973d80ceb6b38686a9fcd2ad533df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 17/89] fix: load relationships of parts in sub-directories of
 epc

---
 resqpy/model/_forestry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 7782898..3fb658f 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -333,7 +333,7 @@ def _load_relationships(epc, model, epc_subdir, names):
     for name in names:
         if _exclude(name, epc_subdir):
             continue
-        if name.startswith('_rels/'):
+        if name.startswith('_rels/') or '/_rels/' in name:
             load_success = _load_part(model, epc, name, is_rels = True)
             if not load_success:
                 _fell_part(model, name)
-- 
2.43.0


From 4e6439419685f8d2c6469087a5a1b93e39582ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 18/89] fix: relationships of parts in sub-directories of epc

---
 resqpy/model/_xml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index 53da272..7836662 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -579,14 +579,18 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
 
     uuid_a = node_a.attrib['uuid']
     obj_type_a = rqet.stripped_of_prefix(rqet.content_type(node_a.attrib[ns['xsi'] + 'type']))
-    part_name_a = rqet.part_name_for_object(obj_type_a, uuid_a)
+    part_name_a = model.part_for_uuid(uuid_a)  # caters for part in sub-directory
+    if part_name_a is None:
+        part_name_a = rqet.part_name_for_object(obj_type_a, uuid_a)
     rel_part_name_a = rqet.rels_part_name_for_part(part_name_a)
     (rel_uuid_a, rel_tree_a) = model.rels_forest[rel_part_name_a]
     rel_root_a = rel_tree_a.getroot()
 
     uuid_b = node_b.attrib['uuid']
     obj_type_b = rqet.stripped_of_prefix(rqet.content_type(node_b.attrib[ns['xsi'] + 'type']))
-    part_name_b = rqet.part_name_for_object(obj_type_b, uuid_b)
+    part_name_b = model.part_for_uuid(uuid_b)  # caters for part in sub-directory
+    if part_name_b is None:
+        part_name_b = rqet.part_name_for_object(obj_type_b, uuid_b)
     rel_part_name_b = rqet.rels_part_name_for_part(part_name_b)
     (rel_uuid_b, rel_tree_b) = model.rels_forest[rel_part_name_b]
     rel_root_b = rel_tree_b.getroot()
-- 
2.43.0


From ea67954cdd5b283d4b234b13917c9c65ae0b77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 19/89] fix: do not pack arrays which follow a packed boolean
 array in imported list

---
 resqpy/property/property_collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 83aaf95..383799a 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2473,10 +2473,11 @@ class PropertyCollection():
                 uuid = entry[0]
                 cached_name = entry[3]
             tail = 'points_patch0' if entry[18] else 'values_patch0'
+            entry_dtype = dtype
             if use_pack and (str(dtype).startswith('bool') or
                              (dtype is None and str(self.__dict__[cached_name].dtype) == 'bool')):
-                dtype = 'pack'
-            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
+                entry_dtype = 'pack'
+            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = entry_dtype)
         h5_reg.write(file = file_name, mode = mode, use_int32 = use_int32)
 
     def write_hdf5_for_part(self,
-- 
2.43.0


From 61c93384310425c090a66f7dd115649c83e76b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 20/89] fix: shape and type of a points property

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 383799a..a5c5819 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1875,9 +1875,9 @@ class PropertyCollection():
 
     def _shape_and_type_of_part_get_h5keypair(self, part, part_node, model):
         if self.points_for_part(part):
-            patch_list = rqet.list_of_tag(part_node, 'PatchOfpoints')
+            patch_list = rqet.list_of_tag(part_node, 'PatchOfPoints')
             assert len(patch_list) == 1  # todo: handle more than one patch of points
-            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Coordinates'))
+            return model.h5_uuid_and_path_for_node(rqet.find_tag(patch_list[0], 'Points'), tag = 'Coordinates')
         else:
             patch_list = rqet.list_of_tag(part_node, 'PatchOfValues')
             assert len(patch_list) == 1  # todo: handle more than one patch of values
-- 
2.43.0


From f8f03b61b1e2a4bee701c67f524f5b5f05ae313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 21/89] fix: clearing of hdf5 filename cache

---
 resqpy/model/_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 968fe80..1dd3d79 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -294,7 +294,7 @@ def _h5_overwrite_array(model, h5_key_pair, array):
     dset[...] = array
 
 
-def h5_clear_filename_cache(model):
+def _h5_clear_filename_cache(model):
     """Clears the cached filenames associated with all ext uuids."""
 
     _h5_release(model)
-- 
2.43.0


From 6b1e0df1b52a686dcd2e36efc7dc4f09258b1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 22/89] fix: default hdf5 compression of none

---
 resqpy/olio/write_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index 50005b2..b09fe0e 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -121,7 +121,7 @@ class H5Register():
                 chunks = a.shape
         if compression is None:
             compression = self.default_compression
-        elif compression == 'none':
+        if compression == 'none':
             compression = None
         if compression is not None and chunks is None:
             chunks = True
-- 
2.43.0


From 2770ddcbdc39c9d0a669f7dbf127297af88bfb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 23/89] fix: raise, rather than ignore, failure of a delayed
 write of hdf5 data

---
 resqpy/model/_hdf5.py     |  2 ++
 resqpy/olio/write_hdf5.py | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 1dd3d79..fcece9c 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -284,6 +284,7 @@ def _h5_overwrite_array_slice(model, h5_key_pair, slice_tuple, array_slice):
     h5_root = _h5_access(model, h5_key_pair[0], mode = 'a')
     dset = h5_root[h5_key_pair[1]]
     dset[slice_tuple] = array_slice
+    dset.flush()  # an error in a delayed write would otherwise be ignored by h5py, when dset is deallocated
 
 
 def _h5_overwrite_array(model, h5_key_pair, array):
@@ -292,6 +293,7 @@ def _h5_overwrite_array(model, h5_key_pair, array):
     h5_root = _h5_access(model, h5_key_pair[0], mode = 'a')
     dset = h5_root[h5_key_pair[1]]
     dset[...] = array
+    dset.flush()
 
 
 def _h5_clear_filename_cache(model):
diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index b09fe0e..6daadb3 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -167,11 +167,16 @@ class H5Register():
                 dtype = 'uint8'
             # log.debug('Writing hdf5 dataset ' + internal_path + ' of size ' + str(a.size) + ' type ' + str(dtype))
             if chunks is None:
-                fp.create_dataset(internal_path, data = a, dtype = dtype)
+                dset = fp.create_dataset(internal_path, data = a, dtype = dtype)
             elif compression is None:
-                fp.create_dataset(internal_path, data = a, dtype = dtype, chunks = chunks)
+                dset = fp.create_dataset(internal_path, data = a, dtype = dtype, chunks = chunks)
             else:
-                fp.create_dataset(internal_path, data = a, dtype = dtype, chunks = chunks, compression = compression)
+                dset = fp.create_dataset(internal_path,
+                                         data = a,
+                                         dtype = dtype,
+                                         chunks = chunks,
+                                         compression = compression)
+            dset.flush()  # an error in a delayed write would otherwise be ignored by h5py, when dset is deallocated
 
     def write(self, file = None, mode = 'w', release_after = True, use_int32 = None):
         """Create or append to an hdf5 file, writing the pre-registered datasets (arrays).
@@ -335,11 +340,12 @@ def copy_h5_path_list(file_in, file_out, hdf5_path_list, mode = 'w', chunks = No
                             fp_out.create_group(build)
                 build += '/' + group_list[-1]
                 if chunks is None or chunks == 'none':
-                    fp_out.create_dataset(build, data = fp_in[path])
+                    dset = fp_out.create_dataset(build, data = fp_in[path])
                 elif compression is None or compression == 'none':
-                    fp_out.create_dataset(build, data = fp_in[path], chunks = True)
+                    dset = fp_out.create_dataset(build, data = fp_in[path], chunks = True)
                 else:
-                    fp_out.create_dataset(build, data = fp_in[path], chunks = True, compression = compression)
+                    dset = fp_out.create_dataset(build, data = fp_in[path], chunks = True, compression = compression)
+                dset.flush()
                 # fp_in.copy(path, fp_out[path], expand_soft = True, expand_external = True, expand_refs = True)
                 copy_count += 1
     return copy_count
-- 
2.43.0


From 522488b5553c47ef26126f5678ce7394debea82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 24/89] fix: release hdf5 file after a failed write

---
 resqpy/olio/write_hdf5.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index 6daadb3..d7be523 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -209,9 +209,11 @@ class H5Register():
         if mode == 'a' and isinstance(file, str) and not os.path.exists(file):
             mode = 'w'
         assert isinstance(file, h5py._hl.files.File)
-        self.write_fp(file, use_int32 = use_int32)
-        if release_after:
-            self.model.h5_release()
+        try:
+            self.write_fp(file, use_int32 = use_int32)
+        finally:
+            if release_after:
+                self.model.h5_release()
 
 
 def copy_h5(file_in, file_out, uuid_inclusion_list = None, uuid_exclusion_list = None, mode = 'w'):
-- 
2.43.0


From 9c06b33045c40d8d06152113b2471e77110c544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 25/89] fix: write boolean arrays as uint8 also when dtype is
 given as a type

---
 resqpy/olio/write_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index d7be523..731ac08 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -163,7 +163,7 @@ class H5Register():
                 dtype = a.dtype
                 if use_int32 and str(dtype) == 'int64':
                     dtype = 'int32'
-            if write_bool_as_uint8 and str(dtype).lower().startswith('bool'):
+            if write_bool_as_uint8 and np.dtype(dtype) == bool:
                 dtype = 'uint8'
             # log.debug('Writing hdf5 dataset ' + internal_path + ' of size ' + str(a.size) + ' type ' + str(dtype))
             if chunks is None:
-- 
2.43.0


From 76a781bb58b0f12094bb26be59090cba8464cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 26/89] fix: create an hdf5 file while another one is open

---
 resqpy/model/_hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index fcece9c..0180f50 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -145,7 +145,8 @@ def _h5_access(model, uuid = None, mode = 'r', override = 'default', file_path =
         file_name = _h5_file_name(model, uuid = uuid, override = override, file_must_exist = (mode == 'r'))
     if mode == 'a' and not os.path.exists(file_name):
         mode = 'w'
-    if model.h5_currently_open_root is not None and os.path.samefile(model.h5_currently_open_path, file_name):
+    if (model.h5_currently_open_root is not None and os.path.exists(file_name) and
+            os.path.samefile(model.h5_currently_open_path, file_name)):
         return model.h5_currently_open_root
     if model.h5_currently_open_root is not None:
         _h5_release(model)
-- 
2.43.0


From 4e701bbdb90b49c1da1a8a3f564df7663784a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 27/89] fix: raise, rather than only log, failure to read
 points or z values of a mesh or point set from hdf5

---
 resqpy/surface/_mesh.py     | 11 ++++++++---
 resqpy/surface/_pointset.py |  3 ++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/resqpy/surface/_mesh.py b/resqpy/surface/_mesh.py
index 69cf5b1..ef15d0c 100644
--- a/resqpy/surface/_mesh.py
+++ b/resqpy/surface/_mesh.py
@@ -557,7 +557,8 @@ class Mesh(rqsb.BaseSurface):
                                         dtype = 'float')
             # todo: could extend with z values of zero if only xy present?
         except Exception:
-            log.exception('hdf5 points failure for mesh')
+            log.error('hdf5 points failure for mesh')
+            raise
 
     def __full_array_ref_regular(self):
         self.full_array = np.empty((self.nj, self.ni, 3))
@@ -581,7 +582,9 @@ class Mesh(rqsb.BaseSurface):
                                         array_attribute = 'temp_z',
                                         dtype = 'float')
         except Exception:
-            log.exception('hdf5 failure for mesh z values')
+            self.full_array = None  # do not leave array cached without its z values
+            log.error('hdf5 failure for mesh z values')
+            raise
         self.full_array[..., 2] = self.temp_z
         delattr(self, 'temp_z')
 
@@ -599,7 +602,9 @@ class Mesh(rqsb.BaseSurface):
                                         array_attribute = 'temp_z',
                                         dtype = 'float')
         except Exception:
-            log.exception('hdf5 failure for mesh z values')
+            self.full_array = None  # do not leave array cached without its z values
+            log.error('hdf5 failure for mesh z values')
+            raise
         self.full_array[..., 2] = self.temp_z
         #        if np.any(np.isnan(self.temp_z)): log.warning('z values include some NaNs')
         delattr(self, 'temp_z')
diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index 8a55ee0..6ed4c4c 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -256,7 +256,8 @@ class PointSet(rqsb.BaseSurface):
                                         array_attribute = 'temp_points',
                                         dtype = 'float')
         except Exception:
-            log.exception('hdf5 points failure for point set patch ' + str(patch_index))
+            log.error('hdf5 points failure for point set patch ' + str(patch_index))
+            raise
         assert self.temp_points.ndim == 2 and self.temp_points.shape[1] == 3,  \
             'unsupported dimensionality to points array'
         self.patch_array_list[patch_index] = self.temp_points.copy()
-- 
2.43.0


From 69a15a71f8cdc5b61202a59b125756b4faef27dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 28/89] fix: do not leave partially populated cached arrays in
 a grid when reading from hdf5 fails

---
 resqpy/grid/_cell_properties.py   |  1 -
 resqpy/grid/_extract_functions.py | 15 +++++++++------
 resqpy/grid/_face_functions.py    |  2 +-
 resqpy/grid/_points_functions.py  | 10 +++++++---
 resqpy/grid/_xyz.py               | 15 ++++++++-------
 5 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index d7ca8da..bb66bc4 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -98,7 +98,6 @@ def thickness(grid,
             if cell_kji0 is None:
                 return grid.array_thickness
             return grid.array_thickness[tuple(cell_kji0)]  # could check for nan here and return None
-        grid.array_thickness = np.empty(tuple(grid.extent_kji))
         points = grid.point_raw(cache_array = True)  # cache points regardless
         if points is None:
             return None  # geometry not present
diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 16d490f..d927c32 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -499,15 +499,17 @@ def extract_inactive_mask(grid, check_pinchout = False):
     if grid.inactive is not None and not check_pinchout:
         return grid.inactive
     geom_defined = grr_dg.cell_geometry_is_defined_ref(grid)
-    if grid.inactive is None:
+    inactive = grid.inactive  # NB: attribute only set when everything needed to populate it has been loaded
+    if inactive is None:
         if geom_defined is None or geom_defined is True:
-            grid.inactive = np.zeros(tuple(grid.extent_kji))  # ie. all active
+            inactive = np.zeros(tuple(grid.extent_kji))  # ie. all active
         else:
-            grid.inactive = np.logical_not(grr_dg.cell_geometry_is_defined_ref(grid))
+            inactive = np.logical_not(grr_dg.cell_geometry_is_defined_ref(grid))
     if check_pinchout:
-        grid.inactive = np.logical_or(grid.inactive, grid.pinched_out())
+        inactive = np.logical_or(inactive, grid.pinched_out())
     gpc = grid.extract_property_collection()
     if gpc is None:
+        grid.inactive = inactive
         grid.all_inactive = np.all(grid.inactive)
         return grid.inactive
     active_gpc = rprop.GridPropertyCollection()
@@ -534,7 +536,7 @@ def extract_inactive_mask(grid, check_pinchout = False):
             log.warning('more than one property found with bespoke kind "active", using last encountered')
         active_part = active_parts[-1]
         active_array = active_gpc.cached_part_array_ref(active_part, dtype = 'bool')
-        grid.inactive = np.logical_or(grid.inactive, np.logical_not(active_array))
+        inactive = np.logical_or(inactive, np.logical_not(active_array))
         grid.active_property_uuid = active_gpc.uuid_for_part(active_part)
         active_gpc.uncache_part_array(active_part)
     else:  # for backward compatibility with earlier versions of resqpy
@@ -546,9 +548,10 @@ def extract_inactive_mask(grid, check_pinchout = False):
         if inactive_gpc.number_of_parts() == 1:
             inactive_part = inactive_gpc.parts()[0]
             inactive_array = inactive_gpc.cached_part_array_ref(inactive_part, dtype = 'bool')
-            grid.inactive = np.logical_or(grid.inactive, inactive_array)
+            inactive = np.logical_or(inactive, inactive_array)
             inactive_gpc.uncache_part_array(inactive_part)
 
+    grid.inactive = inactive
     grid.all_inactive = np.all(grid.inactive)
     return grid.inactive
 
diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index 8f7fc64..947b080 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -53,6 +53,7 @@ def split_column_faces(grid):
     if (hasattr(grid, 'array_j_column_face_split') and grid.array_j_column_face_split is not None and
             hasattr(grid, 'array_i_column_face_split') and grid.array_i_column_face_split is not None):
         return grid.array_j_column_face_split, grid.array_i_column_face_split
+    grid.create_column_pillar_mapping()  # NB: before allocating the cached arrays
     if grid.nj == 1:
         grid.array_j_column_face_split = None
     else:
@@ -63,7 +64,6 @@ def split_column_faces(grid):
     else:
         grid.array_i_column_face_split = np.zeros((grid.nj, grid.ni - 1),
                                                   dtype = bool)  # NB. internal faces only, index for +ve face
-    grid.create_column_pillar_mapping()
     for spi in grid.split_pillar_indices_cached:
         j_p, i_p = divmod(spi, grid.ni + 1)
         if j_p > 0 and j_p < grid.nj:
diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 26ccc95..f497661 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -820,12 +820,14 @@ def corner_points(grid, cell_kji0 = None, points_root = None, cache_resqml_array
     if cache_resqml_array:
         grid.point_raw(points_root = points_root, cache_array = True)
     if cache_cp_array:
-        grid.array_corner_points = np.zeros((grid.nk, grid.nj, grid.ni, 2, 2, 2, 3))
         points = grid.points_ref()
         if points is None:
             return None  # geometry not present
         if grid.has_split_coordinate_lines:
             grid.create_column_pillar_mapping()
+        # NB: cached array only allocated when everything needed to populate it has been loaded
+        grid.array_corner_points = np.zeros((grid.nk, grid.nj, grid.ni, 2, 2, 2, 3))
+        if grid.has_split_coordinate_lines:
             # todo: replace j,i for loops with numpy broadcasting
             if grid.k_gaps:
                 for j in range(grid.nj):
@@ -935,14 +937,16 @@ def centre_point(grid, cell_kji0 = None, cache_centre_array = False):
         return grid.array_centre_point[tuple(cell_kji0)]  # could check for nan here and return None
     if cache_centre_array:
         # todo: turn off nan warnings
-        grid.array_centre_point = np.empty((grid.nk, grid.nj, grid.ni, 3))
         points = grid.points_ref(masked = False)  # todo: think about masking
+        if grid.has_split_coordinate_lines:
+            grid.create_column_pillar_mapping()
+        # NB: cached array only allocated when everything needed to populate it has been loaded
+        grid.array_centre_point = np.empty((grid.nk, grid.nj, grid.ni, 3))
         if hasattr(grid, 'array_corner_points'):
             grid.array_centre_point = 0.125 * np.sum(grid.array_corner_points,
                                                      axis = (3, 4, 5))  # mean of eight corner points for each cell
         elif grid.has_split_coordinate_lines:
             # todo: replace j,i for loops with numpy broadcasting
-            grid.create_column_pillar_mapping()
             if grid.k_gaps:
                 for j in range(grid.nj):
                     for i in range(grid.ni):
diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index ad05335..90a7897 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -33,7 +33,7 @@ def xyz_box(grid, points_root = None, lazy = True, local = False):
     """
 
     if grid.xyz_box_cached is None or (not lazy and not grid.xyz_box_cached_thoroughly):
-        grid.xyz_box_cached = np.zeros((2, 3))
+        box = np.zeros((2, 3))
         if lazy:
             eight_corners = np.zeros((2, 2, 2, 3))
             for kp in [0, 1]:
@@ -46,16 +46,17 @@ def xyz_box(grid, points_root = None, lazy = True, local = False):
                                                                corner_index = [kp, jp, ip],
                                                                points_root = points_root,
                                                                cache_array = False)
-            grid.xyz_box_cached[0, :] = np.nanmin(eight_corners, axis = (0, 1, 2))
-            grid.xyz_box_cached[1, :] = np.nanmax(eight_corners, axis = (0, 1, 2))
+            box[0, :] = np.nanmin(eight_corners, axis = (0, 1, 2))
+            box[1, :] = np.nanmax(eight_corners, axis = (0, 1, 2))
         else:
             ps = grid.points_ref()
             if grid.has_split_coordinate_lines:
-                grid.xyz_box_cached[0, :] = np.nanmin(ps, axis = (0, 1))
-                grid.xyz_box_cached[1, :] = np.nanmax(ps, axis = (0, 1))
+                box[0, :] = np.nanmin(ps, axis = (0, 1))
+                box[1, :] = np.nanmax(ps, axis = (0, 1))
             else:
-                grid.xyz_box_cached[0, :] = np.nanmin(ps, axis = (0, 1, 2))
-                grid.xyz_box_cached[1, :] = np.nanmax(ps, axis = (0, 1, 2))
+                box[0, :] = np.nanmin(ps, axis = (0, 1, 2))
+                box[1, :] = np.nanmax(ps, axis = (0, 1, 2))
+        grid.xyz_box_cached = box  # only cached once successfully populated
         grid.xyz_box_cached_thoroughly = not lazy
     if local:
         return grid.xyz_box_cached
-- 
2.43.0


From 0d3fb46ced3fa859de603dc48afba8f4d136da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 29/89] fix: do not cache triangles of only some patches of a
 surface when reading from hdf5 fails

---
 resqpy/surface/_surface.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index e62cb3b..5c523ea 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -303,16 +303,18 @@ class Surface(rqsb.BaseSurface):
         if patch is None:
             if self.triangles is None or self.points is None:
                 if self.triangles is None:
+                    triangles, points = None, None  # NB: only cached when all patches have been loaded
                     points_offset = 0
                     for triangulated_patch in self.patch_list:
                         (t, p) = triangulated_patch.triangles_and_points()
                         if points_offset == 0:
-                            self.triangles = t
-                            self.points = p
+                            triangles = t
+                            points = p
                         else:
-                            self.triangles = np.concatenate((self.triangles, t.copy() + points_offset))
-                            self.points = np.concatenate((self.points, p))
+                            triangles = np.concatenate((triangles, t.copy() + points_offset))
+                            points = np.concatenate((points, p))
                         points_offset += p.shape[0]
+                    self.triangles, self.points = triangles, points
             if copy:
                 return (self.triangles.copy(), self.points.copy())
             else:
-- 
2.43.0


From 0ea6afe8367256be57f51d10497451abb529adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 30/89] fix: complete loading of jagged arrays of a grid after
 reading from hdf5 has failed part way

---
 resqpy/grid/_grid.py                      | 2 +-
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_grid.py b/resqpy/grid/_grid.py
index ad9cff1..a0c5228 100644
--- a/resqpy/grid/_grid.py
+++ b/resqpy/grid/_grid.py
@@ -420,7 +420,7 @@ class Grid(BaseResqpy):
                                             object = self,
                                             array_attribute = 'split_pillar_indices_cached',
                                             dtype = 'int')
-            if not hasattr(self, 'cols_for_split_pillars'):
+            if not hasattr(self, 'cols_for_split_pillars') or not hasattr(self, 'cols_for_split_pillars_cl'):
                 if split_root is None:
                     split_root = self.resolve_geometry_child('SplitCoordinateLines')
                 cpscl_root = rqet.find_tag(split_root, 'ColumnsPerSplitCoordinateLine')
diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 4611a63..af20c72 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -167,11 +167,11 @@ class UnstructuredGrid(BaseResqpy):
 
         self.points_ref()
 
-        if self.nodes_per_face is None:
+        if self.nodes_per_face is None or self.nodes_per_face_cl is None:
             self._load_jagged_array('NodesPerFace', 'nodes_per_face')
             assert len(self.nodes_per_face_cl) == self.face_count
 
-        if self.faces_per_cell is None:
+        if self.faces_per_cell is None or self.faces_per_cell_cl is None:
             self._load_jagged_array('FacesPerCell', 'faces_per_cell')
             assert len(self.faces_per_cell_cl) == self.cell_count
 
-- 
2.43.0


From d306de2c7f1f79c3f540cd3727430fcaac384146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 31/89] fix: raise, rather than ignore, failure to read a part
 of an epc which has corrupted compression details

---
 resqpy/model/_forestry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 3fb658f..2cc06b1 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -72,7 +72,7 @@ def _load_part(model, epc, part_name, is_rels = None):
 
         return True
 
-    except (OSError, zf.BadZipFile, zlib.error):  # not okay to continue: part exists but could not be read
+    except (OSError, EOFError, RuntimeError, zf.BadZipFile, zlib.error):  # not okay to continue: part exists but could not be read
 
         log.error('failed to read part: ' + part_name)
         raise
-- 
2.43.0


From 9dad20f1ba6a45631d987588b23608064cb0ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:59 +0000
Subject: [PATCH 32/89] fix: test checksum of a part of an epc before
 attempting to parse it

---
 resqpy/model/_forestry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index 2cc06b1..e551071 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -6,6 +6,7 @@ log = logging.getLogger(__name__)
 
 import contextlib
 import copy
+import io
 import os
 import shutil
 import zipfile as zf
@@ -52,7 +53,7 @@ def _load_part(model, epc, part_name, is_rels = None):
         else:
             (part_type, part_uuid, _) = model.parts_forest[part_name]  # part_type must already have been established
 
-        with epc.open(part_name) as part_xml:
+        with io.BytesIO(epc.read(part_name)) as part_xml:  # whole part read, and its checksum tested, before parsing
             part_tree = rqet.parse(part_xml)
             if is_rels:
                 model.rels_forest[part_name] = (part_uuid, part_tree)
-- 
2.43.0


From 765071376bd5a63169c3fd54b218840e985e92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 33/89] fix: carriage returns in text, and line breaks and tabs
 in attributes, when storing epc

---
 resqpy/olio/xml_et.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/xml_et.py b/resqpy/olio/xml_et.py
index e36d84f..40ce37b 100644
--- a/resqpy/olio/xml_et.py
+++ b/resqpy/olio/xml_et.py
@@ -675,7 +675,8 @@ def creation_date_for_node(node):
 def _escaped_attribute(val):
     """Returns the attribute value with characters that are special within a quoted xml attribute escaped."""
 
-    return val.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
+    val = val.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
+    return val.replace('\r', '&#13;').replace('\n', '&#10;').replace('\t', '&#9;')
 
 
 def write_xml_node(xml_fp, root, level = 0, namespace_keys = []):
@@ -739,7 +740,7 @@ def write_xml_node(xml_fp, root, level = 0, namespace_keys = []):
         if (not text or text.isspace()) and tag.endswith('Title'):
             text = 'untitled'
         if text and not text.isspace():
-            line += text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
+            line += text.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#13;')
         xml_fp.write(line.encode())
 
         indentation = ''
-- 
2.43.0


From 22acbc1756871eefe82a3891d4431ef3d4da16e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 34/89] fix: copying parts held in a sub-directory of the epc
 from another model

---
 resqpy/model/_forestry.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index e551071..cd9710e 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -538,14 +538,19 @@ def _del_uuid_relations(model, part_name):
     model.uuid_rels_dict.pop(uuid.int)
 
 
-def _duplicate_node(model, existing_node, add_as_part = True, add_to_rels_dict = True):
+def _duplicate_node(model, existing_node, add_as_part = True, add_to_rels_dict = True, epc_subdir = None):
     """Creates a deep copy of the xml node (typically from another model) and optionally adds as part."""
 
     new_node = copy.deepcopy(existing_node)
     if add_as_part:
         uuid = rqet.uuid_for_part_root(new_node)
         if m_c._part_for_uuid(model, uuid) is None:
-            _add_part(model, rqet.node_type(new_node), uuid, new_node, add_to_rels_dict = add_to_rels_dict)
+            _add_part(model,
+                      rqet.node_type(new_node),
+                      uuid,
+                      new_node,
+                      epc_subdir = epc_subdir,
+                      add_to_rels_dict = add_to_rels_dict)
     return new_node
 
 
@@ -594,7 +599,11 @@ def _copy_part_from_other_model(model,
 
     if resident_uuid is None:
 
-        root_node = _duplicate_node(model, other_root, add_to_rels_dict = False)  # adds duplicated node as part
+        # adds duplicated node as part, in the same sub-directory (if any) as in the other model
+        root_node = _duplicate_node(model,
+                                    other_root,
+                                    add_to_rels_dict = False,
+                                    epc_subdir = part[:part.rfind('/') + 1])
         assert root_node is not None
 
         _set_realization_index_node_if_required(realization, root_node)  # todo: handle extra metadata realization
@@ -741,8 +750,7 @@ def _copy_relationships_for_present_targets(model, other_model, consolidate, for
                                                                                          immigrant_model = other_model)
                     if resident_related_uuid is None:
                         continue
-                    resident_related_part = rqet.part_name_for_object(m_c._type_of_part(other_model, related_part),
-                                                                      resident_related_uuid)
+                    resident_related_part = m_c._part_for_uuid(model, resident_related_uuid)
                     if resident_related_part is None:
                         continue
                 else:
-- 
2.43.0


From c62454d4d1a159ae7e38862e1eba02a9b7ec006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 35/89] fix: dangling reference when copying an object with
 several references to a consolidated part

---
 resqpy/model/_forestry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index cd9710e..d48f189 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -728,11 +728,12 @@ def _copy_referenced_parts(model, other_model, realization, consolidate, force,
                 for ref_node in ref_nodes:
                     uuid_node = rqet.find_tag(ref_node, 'UUID')
                     uuid_int = bu.uuid_from_string(uuid_node.text).int
-                    reference_node_dict[uuid_int] = uuid_node
-            uuid_node = reference_node_dict[ref_uuid_int]
-            uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
-            reference_node_dict.pop(ref_uuid_int)
-            reference_node_dict[resident_uuid_int] = uuid_node
+                    # note: there may be more than one reference to the same object
+                    reference_node_dict.setdefault(uuid_int, []).append(uuid_node)
+            uuid_nodes = reference_node_dict.pop(ref_uuid_int)
+            for uuid_node in uuid_nodes:
+                uuid_node.text = str(bu.uuid_from_int(resident_uuid_int))
+            reference_node_dict.setdefault(resident_uuid_int, []).extend(uuid_nodes)
 
 
 def _copy_relationships_for_present_targets(model, other_model, consolidate, force, resident_uuid, root_node):
-- 
2.43.0


From 54555c05fd8bc177df8e2e0d8c1d52476ebb7bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 36/89] fix: hdf5 references of a copied part whose arrays are
 already in the hdf5 file

---
 resqpy/model/_forestry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index d48f189..ede3849 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -611,9 +611,10 @@ def _copy_part_from_other_model(model,
         if hdf5_copy_needed:
             # copy hdf5 data
             hdf5_internal_paths = [node.text for node in rqet.list_of_descendant_tag(other_root, 'PathInHdfFile')]
-            hdf5_count = whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
+            whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
             # create relationship with hdf5 if needed and modify h5 file uuid in xml references
-            _copy_part_hdf5_setup(model, hdf5_count, h5_uuid, root_node)
+            # (also if the arrays are already there, due to an earlier copying)
+            _copy_part_hdf5_setup(model, len(hdf5_internal_paths), h5_uuid, root_node)
         # NB. assumes ext part is already established when sharing a common hdf5 file
 
         # cut references to objects to be excluded
-- 
2.43.0


From 4a3b8f5ec5c277933033c5dcbffd2405fa638a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 37/89] fix: failed copying of a part left it incomplete in the
 model

---
 resqpy/model/_forestry.py | 47 ++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index ede3849..00a8a77 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -606,32 +606,39 @@ def _copy_part_from_other_model(model,
                                     epc_subdir = part[:part.rfind('/') + 1])
         assert root_node is not None
 
-        _set_realization_index_node_if_required(realization, root_node)  # todo: handle extra metadata realization
+        try:
 
-        if hdf5_copy_needed:
-            # copy hdf5 data
-            hdf5_internal_paths = [node.text for node in rqet.list_of_descendant_tag(other_root, 'PathInHdfFile')]
-            whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
-            # create relationship with hdf5 if needed and modify h5 file uuid in xml references
-            # (also if the arrays are already there, due to an earlier copying)
-            _copy_part_hdf5_setup(model, len(hdf5_internal_paths), h5_uuid, root_node)
-        # NB. assumes ext part is already established when sharing a common hdf5 file
+            _set_realization_index_node_if_required(realization, root_node)  # todo: handle extra metadata realization
 
-        # cut references to objects to be excluded
-        if cut_refs_to_uuids:
-            rqet.cut_obj_references(root_node, cut_refs_to_uuids)
+            if hdf5_copy_needed:
+                # copy hdf5 data
+                hdf5_internal_paths = [node.text for node in rqet.list_of_descendant_tag(other_root, 'PathInHdfFile')]
+                whdf5.copy_h5_path_list(other_h5_file_name, self_h5_file_name, hdf5_internal_paths, mode = 'a')
+                # create relationship with hdf5 if needed and modify h5 file uuid in xml references
+                # (also if the arrays are already there, due to an earlier copying)
+                _copy_part_hdf5_setup(model, len(hdf5_internal_paths), h5_uuid, root_node)
+            # NB. assumes ext part is already established when sharing a common hdf5 file
 
-        if cut_node_types:
-            rqet.cut_nodes_of_types(root_node, cut_node_types)
+            # cut references to objects to be excluded
+            if cut_refs_to_uuids:
+                rqet.cut_obj_references(root_node, cut_refs_to_uuids)
 
-        if model.uuid_rels_dict.get(uuid.int) is None:
-            model.uuid_rels_dict[uuid.int] = (set(), set(), set())
+            if cut_node_types:
+                rqet.cut_nodes_of_types(root_node, cut_node_types)
 
-        # recursively copy in referenced parts where they don't already exist in this model
-        _copy_referenced_parts(model, other_model, realization, consolidate, force, cut_refs_to_uuids, cut_node_types,
-                               self_h5_file_name, h5_uuid, other_h5_file_name, root_node, uuid, hdf5_copy_needed)
+            if model.uuid_rels_dict.get(uuid.int) is None:
+                model.uuid_rels_dict[uuid.int] = (set(), set(), set())
 
-        _add_uuid_relations(model, uuid.int, part)
+            # recursively copy in referenced parts where they don't already exist in this model
+            _copy_referenced_parts(model, other_model, realization, consolidate, force, cut_refs_to_uuids, cut_node_types,
+                                   self_h5_file_name, h5_uuid, other_h5_file_name, root_node, uuid, hdf5_copy_needed)
+
+            _add_uuid_relations(model, uuid.int, part)
+
+        except Exception:
+            # do not leave an incomplete part in the model, as a repeated attempt to copy would then take it to be present
+            _remove_part(model, m_c._part_for_uuid(model, uuid), True)
+            raise
 
         resident_uuid = uuid
 
-- 
2.43.0


From 2b3a4c56c10a4e7c7229030cd3ee71edd17c3d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 38/89] fix: consolidation failed in the presence of geologic
 time series

---
 resqpy/olio/consolidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index 5bd82f9..eb65890 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -90,7 +90,7 @@ class Consolidation:
         elif obj_type.endswith('Crs'):
             immigrant_obj = rqc.Crs(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'TimeSeries':
-            immigrant_obj = rqt.TimeSeries(immigrant_model, uuid = immigrant_uuid)
+            immigrant_obj = rqt.any_time_series(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'StringTableLookup':
             immigrant_obj = rqp.StringLookup(immigrant_model, uuid = immigrant_uuid)
         elif obj_type == 'PropertyKind':
@@ -108,7 +108,7 @@ class Consolidation:
             elif obj_type.endswith('Crs'):
                 resident_obj = rqc.Crs(self.model, uuid = resident_uuid)
             elif obj_type == 'TimeSeries':
-                resident_obj = rqt.TimeSeries(self.model, uuid = resident_uuid)
+                resident_obj = rqt.any_time_series(self.model, uuid = resident_uuid)
             elif obj_type == 'StringTableLookup':
                 resident_obj = rqp.StringLookup(self.model, uuid = resident_uuid)
             elif obj_type == 'PropertyKind':
-- 
2.43.0


From 78ce1c9c80c942d7792c4664b8767dad7c69f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 39/89] fix: consolidation with a part which is itself still
 being copied

---
 resqpy/olio/consolidation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index eb65890..ca3acbe 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -103,6 +103,8 @@ class Consolidation:
             # log.debug('   considering resident: ' + str(resident_uuid))
             if ignore_identical_part and bu.matching_uuids(resident_uuid, immigrant_uuid):
                 continue
+            if self._incomplete(resident_uuid):
+                continue
             if obj_type.endswith('Interpretation') or obj_type.endswith('Feature'):
                 resident_obj = rqo.__dict__[obj_type](self.model, uuid = resident_uuid)
             elif obj_type.endswith('Crs'):
@@ -126,6 +128,15 @@ class Consolidation:
                 return resident_uuid_int
         return None
 
+    def _incomplete(self, resident_uuid):
+        """Returns True if resident part refers to parts which are not present, eg. as it is itself still being copied."""
+
+        for ref_node in rqet.list_obj_references(self.model.root_for_uuid(resident_uuid)):
+            ref_uuid = rqet.find_tag_text(ref_node, 'UUID')
+            if ref_uuid and self.model.part_for_uuid(bu.uuid_from_string(ref_uuid)) is None:
+                return True
+        return False
+
     def force_uuid_equivalence(self, immigrant_uuid, resident_uuid):
         """Forces immigrant object to be treated as equivalent to (same as) resident object, identified by uuids."""
 
-- 
2.43.0


From e1ac14f3eb818c7304814e4a9c2d513b655869db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 40/89] fix: multiprocessing function when a task returns no
 list of uuids

---
 resqpy/multi_processing/_multiprocessing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/multi_processing/_multiprocessing.py b/resqpy/multi_processing/_multiprocessing.py
index 004b221..b322920 100644
--- a/resqpy/multi_processing/_multiprocessing.py
+++ b/resqpy/multi_processing/_multiprocessing.py
@@ -143,9 +143,10 @@ def function_multiprocessing(function: Callable,
                 if attempt >= 10:
                     raise FileNotFoundError(f'timeout waiting for mp epc {epc}')
                 time.sleep(1)
-        uuids = cons.sort_uuids_list(model, uuids_list[i])
+        uuids = uuids_list[i]
         if uuids is None:
             uuids = model.uuids()
+        uuids = cons.sort_uuids_list(model, uuids)
         for u in uuids:
             attempt = 0
             while True:
-- 
2.43.0


From 17e8e325421597b687f5faac0ac0913ec3b01c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 41/89] fix: sorting of uuids which are a mixture of strings
 and UUID objects

---
 resqpy/olio/consolidation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/consolidation.py b/resqpy/olio/consolidation.py
index ca3acbe..031a201 100644
--- a/resqpy/olio/consolidation.py
+++ b/resqpy/olio/consolidation.py
@@ -207,5 +207,5 @@ def sort_uuids_list(model, uuids_list):
     pair_list = [
         (_ordering(model.type_of_part(model.part_for_uuid(uuid), strip_obj = True)), uuid) for uuid in uuids_list
     ]
-    pair_list.sort()
+    pair_list.sort(key = lambda pair: pair[0])  # note: uuids may be a mixture of UUID objects and strings
     return [uuid for _, uuid in pair_list]
-- 
2.43.0


From b0337cbd7bcf8b70264f9977efb1c0b1557880a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 42/89] fix: report failure of a find faces task when the
 surface does not intersect the grid

---
 resqpy/multi_processing/wrappers/grid_surface_mp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/multi_processing/wrappers/grid_surface_mp.py b/resqpy/multi_processing/wrappers/grid_surface_mp.py
index f9c2c9a..1c03b43 100644
--- a/resqpy/multi_processing/wrappers/grid_surface_mp.py
+++ b/resqpy/multi_processing/wrappers/grid_surface_mp.py
@@ -259,7 +259,7 @@ def find_faces_to_represent_surface_regular_wrapper(
     else:
         gcs = returns
 
-    if gcs.count > 0:
+    if gcs is not None and gcs.count > 0:
         success = True
         gcs.write_hdf5()
         gcs.create_xml(extra_metadata = extra_metadata)
-- 
2.43.0


From 75d8bee74e789abcbf007ae8002448f685634f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 43/89] fix: grid shadow property when no K faces represent the
 surface

---
 resqpy/grid_surface/_find_faces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/grid_surface/_find_faces.py b/resqpy/grid_surface/_find_faces.py
index fdb8e4d..5879e87 100644
--- a/resqpy/grid_surface/_find_faces.py
+++ b/resqpy/grid_surface/_find_faces.py
@@ -1570,6 +1570,8 @@ def shadow_from_face_indices(extent_kji, kji0):
     assert len(extent_kji) == 3
     limit = extent_kji[0] - 1  # maximum number of iterations needed to spead shadow
     shadow = np.zeros(extent_kji, dtype = np.int8)
+    if kji0 is None or len(kji0) == 0:  # no K faces
+        return shadow
     shadow[kji0[:, 0], kji0[:, 1], kji0[:, 2]] = 1
     shadow[kji0[:, 0] + 1, kji0[:, 1], kji0[:, 2]] += 2
     for _ in range(limit):
-- 
2.43.0


From 18a41a1b0954aa4761728faa8a6dafc924c85ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 44/89] fix: keep face properties in step with sorted faces of
 a grid connection set when there are no duplicates

---
 resqpy/fault/_grid_connection_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d094452..2ec5a1c 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -2317,9 +2317,9 @@ def _sort_and_remove_duplicates(a, props = None):
     m = np.empty(a.size, dtype = bool)
     m[0] = True
     m[1:] = (a[1:] != a[:-1])
-    if np.all(m):
+    if np.all(m) and no_props:
         return a
-    if not no_props:
+    if not no_props:  # note: sorting is needed even if there are no duplicates
         for i in range(len(props)):
             p = props[i][si]
             props[i] = p[m]
-- 
2.43.0


From 9bd5da864550d31454e34b8cd016d76ac664c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 45/89] fix: inherited active property was added to the model
 twice when its grid's xml had already added it

---
 resqpy/property/_collection_add_part.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 24cdb97..a7610da 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -203,6 +203,9 @@ def _process_imported_property(collection, attributes, property_kind_uuid, strin
 
     log.debug('processing imported property ' + str(p_keyword))
     assert not points or not p_discrete
+    existing_node = collection.model.root_for_uuid(p_uuid)
+    if existing_node is not None:  # eg. active property, already added as a part when the xml for the grid was created
+        return existing_node
     if local_property_kind_uuid is None:
         local_property_kind_uuid = property_kind_uuid
     if not p_discrete:
-- 
2.43.0


From 33231053297c9db63edb2f96a9ff1483d45f19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 46/89] fix: crs of a grid derived into a new file was looked
 up before the new model had a default crs

---
 resqpy/derived_model/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index f0b3f6c..4532213 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -146,7 +146,7 @@ def _write_grid(epc_file,
         crs_root = model.duplicate_node(grid.model.root_for_uuid(grid.crs_uuid))
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
-        grid.crs = rqc.Crs(model, uuid = model.crs_uuid)
+        grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
     log.debug('write_grid(): number of starting parts: ' + str(model.number_of_parts()))
 
     if grid.inactive is not None and geometry:
-- 
2.43.0


From b3231ac64ca8f5f6eec47ebdf718bcd7498ee3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 47/89] fix: properties inherited into a new file referred to
 time series, lookups and kinds left behind

---
 resqpy/derived_model/_common.py       | 13 +++++++++++++
 resqpy/derived_model/_refined_grid.py |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/resqpy/derived_model/_common.py b/resqpy/derived_model/_common.py
index 4532213..8243e91 100644
--- a/resqpy/derived_model/_common.py
+++ b/resqpy/derived_model/_common.py
@@ -75,6 +75,17 @@ def _prepare_simple_inheritance(grid, source_grid, inherit_properties, inherit_r
     return collection
 
 
+def _copy_objects_used_by_properties(source_model, target_model, property_collection, uuids = []):
+    """Copies time series, string lookups and local property kinds used by an imported list, where not in target model."""
+    uuids = list(uuids)
+    if property_collection is not None and property_collection.imported_list is not None:
+        for entry in property_collection.imported_list:
+            uuids += [entry[16], entry[19], entry[20]]  # local property kind, time series, string lookup
+    for uuid in uuids:
+        if uuid is not None and target_model.part(uuid = uuid) is None and source_model.part(uuid = uuid) is not None:
+            target_model.copy_uuid_from_other_model(source_model, uuid)
+
+
 def _write_grid(epc_file,
                 grid,
                 ext_uuid = None,
@@ -144,6 +155,8 @@ def _write_grid(epc_file,
         model = rq.new_model(epc_file)
         ext_uuid = model.h5_uuid()
         crs_root = model.duplicate_node(grid.model.root_for_uuid(grid.crs_uuid))
+        _copy_objects_used_by_properties(working_model, model, property_collection,
+                                         [time_series_uuid, string_lookup_uuid])
         grid.model = model
         grid.crs_uuid = model.uuid_for_root(crs_root)
         grid.crs = rqc.Crs(model, uuid = grid.crs_uuid)
diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index 1accb0b..acc4f3e 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -115,6 +115,8 @@ def refined_grid(epc_file,
     collection = None
     if inherit_properties:
         collection = _inherit_properties(source_grid, grid, fine_coarse, inherit_realization, inherit_all_realizations)
+        if model is not model_in:
+            rqdm_c._copy_objects_used_by_properties(model_in, model, collection)
 
     if set_parent_window:
         _set_parent_window(set_parent_window, source_grid, grid, fine_coarse)
-- 
2.43.0


From df2f1f1d1404d37bc3a73f404e8da1f451f4692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 48/89] fix: gathering an ensemble with grids of one shape
 raised TypeError instead of matching titles

---
 resqpy/derived_model/_gather_ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_gather_ensemble.py b/resqpy/derived_model/_gather_ensemble.py
index 0910a1f..455f74e 100644
--- a/resqpy/derived_model/_gather_ensemble.py
+++ b/resqpy/derived_model/_gather_ensemble.py
@@ -89,7 +89,7 @@ def gather_ensemble(case_epc_list,
                     if grid_extent in host_grid_shapes:
                         if title_match_required:
                             case_grid_title = rqet.citation_title_for_node(grid_root)
-                            for host_grid_index in len(host_grid_uuids):
+                            for host_grid_index in range(len(host_grid_uuids)):
                                 if grid_extent == host_grid_shapes[
                                         host_grid_index] and case_grid_title == host_grid_titles[host_grid_index]:
                                     host_index = host_grid_index
-- 
2.43.0


From bdaebfaaafb32e159f6c75d9bf6a8e200bee6780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 49/89] fix: extract_box raised for grids of which the geometry
 is defined throughout

---
 resqpy/derived_model/_extract_box.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_extract_box.py b/resqpy/derived_model/_extract_box.py
index 8d0347d..997e11f 100644
--- a/resqpy/derived_model/_extract_box.py
+++ b/resqpy/derived_model/_extract_box.py
@@ -109,7 +109,7 @@ def extract_box(epc_file = None,
     source_grid.cache_all_geometry_arrays()
 
     # determine cell geometry is defined
-    if hasattr(source_grid, 'array_cell_geometry_is_defined'):
+    if getattr(source_grid, 'array_cell_geometry_is_defined', None) is not None:
         grid.array_cell_geometry_is_defined = _array_box(source_grid.array_cell_geometry_is_defined, box)
         grid.geometry_defined_for_all_cells_cached = np.all(grid.array_cell_geometry_is_defined)
     else:
@@ -117,7 +117,7 @@ def extract_box(epc_file = None,
 
     # copy info for pillar geometry is defined
     grid.geometry_defined_for_all_pillars_cached = source_grid.geometry_defined_for_all_pillars_cached
-    if hasattr(source_grid, 'array_pillar_geometry_is_defined'):
+    if getattr(source_grid, 'array_pillar_geometry_is_defined', None) is not None:
         grid.array_pillar_geometry_is_defined = _array_box(source_grid.array_pillar_geometry_is_defined, box)
         grid.geometry_defined_for_all_pillars_cached = np.all(grid.array_pillar_geometry_is_defined)
 
-- 
2.43.0


From d9f54014a716b3d929e34a707f83bdfb3f664998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 50/89] fix: vertical rescaling of a surface read from a
 dataset had no patches to work on

---
 resqpy/surface/_surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index 5c523ea..d64324f 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -995,9 +995,11 @@ class Surface(rqsb.BaseSurface):
         """
         if scaling_factor == 1.0:
             return
+        self.extract_patches(self.root)  # ensure patches are present
         if ref_depth is None:
             for patch in self.patch_list:
-                patch_min = np.min(patch.points[:, 2])
+                _, patch_points = patch.triangles_and_points()  # ensure points are loaded
+                patch_min = np.min(patch_points[:, 2])
                 if ref_depth is None or patch_min < ref_depth:
                     ref_depth = patch_min
         assert ref_depth is not None, 'no z values found for vertical rescaling of surface'
-- 
2.43.0


From 7834e489f45fc8abbe5586d2adee8532e67483c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 51/89] fix: connection set for added faults could not be made
 when writing to a new file

---
 resqpy/derived_model/_add_faults.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index ac5e494..24558e0 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -269,7 +269,7 @@ def _create_gcs_if_requested(create_gcs, composite_face_set_dict, new_epc_file,
         if new_epc_file is not None:
             grid_uuid = grid.uuid
             model = rq.Model(new_epc_file)
-            grid = grr.Grid(model, root = model.root(uuid = grid_uuid), find_properties = False)
+            grid = grr.Grid(model, uuid = grid_uuid, find_properties = False)
         grid.set_face_set_gcs_list_from_dict(composite_face_set_dict, create_organizing_objects_where_needed = True)
         combined_gcs = grid.face_set_gcs_list[0]
         for gcs in grid.face_set_gcs_list[1:]:
-- 
2.43.0


From 9c9a36a7d31f5738417a727ac98140078bce08c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 52/89] fix: coarsening of saturation corrupted the weights
 used for other properties

---
 resqpy/property/grid_property_collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index badec26..e89d112 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -997,7 +997,7 @@ def _extend_imported_nrv_arrays(fine_ntg_array, coarse_ntg_array, fine_rv_array,
         coarse_nrv_array = coarse_rv_array
     else:
         fine_nrv_array = fine_rv_array * fine_ntg_array
-        coarse_nrv_array = coarse_rv_array * coarse_ntg_array
+        coarse_nrv_array = None if coarse_rv_array is None else coarse_rv_array * coarse_ntg_array
     return fine_nrv_array, coarse_nrv_array
 
 
@@ -1026,8 +1026,8 @@ def _extend_imported_coarsen_sat(source_sat, other, box, collection, realization
     fine_sat_weight = fine_nrv_array
     coarse_sat_weight = coarse_nrv_array
     if fine_poro_array is not None:
-        fine_sat_weight *= fine_poro_array
-        coarse_sat_weight *= coarse_poro_array
+        fine_sat_weight = fine_sat_weight * fine_poro_array  # nb. not in situ: input arrays are used elsewhere
+        coarse_sat_weight = None if coarse_sat_weight is None else coarse_sat_weight * coarse_poro_array
     for (part, info) in source_sat.dict.items():
         if not copy_all_realizations and info[0] != realization:
             continue
-- 
2.43.0


From 6f9de891a18409e5b38b878ccd19ce2e0d41c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 53/89] fix: displacement properties of derived grids were
 stored without their arrays

---
 resqpy/derived_model/_drape_to_surface.py       | 2 +-
 resqpy/derived_model/_fault_throw_scaling.py    | 2 +-
 resqpy/derived_model/_local_depth_adjustment.py | 2 +-
 resqpy/derived_model/_tilted_grid.py            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/derived_model/_drape_to_surface.py b/resqpy/derived_model/_drape_to_surface.py
index 5f6cc65..5ff30c8 100644
--- a/resqpy/derived_model/_drape_to_surface.py
+++ b/resqpy/derived_model/_drape_to_surface.py
@@ -178,7 +178,7 @@ def drape_to_surface(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid flexed from ' + str(rqet.citation_title_for_node(source_grid.root))
diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 3127b66..016aec7 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -141,7 +141,7 @@ def fault_throw_scaling(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid with fault throws scaled by ' + str(scaling_factor) + ' from ' +  \
diff --git a/resqpy/derived_model/_local_depth_adjustment.py b/resqpy/derived_model/_local_depth_adjustment.py
index 7c3b283..cb49573 100644
--- a/resqpy/derived_model/_local_depth_adjustment.py
+++ b/resqpy/derived_model/_local_depth_adjustment.py
@@ -166,7 +166,7 @@ def local_depth_adjustment(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'grid derived from {0} with local depth shift of {1:3.1f} applied'.format(
diff --git a/resqpy/derived_model/_tilted_grid.py b/resqpy/derived_model/_tilted_grid.py
index cd347f1..efe7ba6 100644
--- a/resqpy/derived_model/_tilted_grid.py
+++ b/resqpy/derived_model/_tilted_grid.py
@@ -82,7 +82,7 @@ def tilted_grid(epc_file,
     if collection is None:
         collection = displacement_collection
     elif displacement_collection is not None:
-        collection.inherit_imported_list_from_other_collection(displacement_collection, copy_cached_arrays = False)
+        collection.inherit_imported_list_from_other_collection(displacement_collection)
 
     if new_grid_title is None or len(new_grid_title) == 0:
         new_grid_title = 'tilted version ({0:4.2f} degree dip) of '.format(abs(dip)) + str(
-- 
2.43.0


From c5632102198b00170de7ed89a517895c0aebcf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 54/89] fix: inherited properties lost their string lookup and
 null value

---
 resqpy/property/grid_property_collection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index e89d112..d0170a2 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -874,7 +874,8 @@ def _add_to_imported(collection, a, title, info, null_value = None, const_value
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_initial_assertions(other, box, refinement, coarsening):
@@ -1133,7 +1134,7 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         indexable_element = 'cells',
         uom = info[15],
         time_index = info[12],
-        null_value = None,  # todo: extract from other's xml
+        null_value = info[19],
         property_kind = info[7],
         local_property_kind_uuid = info[17],
         facet_type = info[8],
@@ -1141,7 +1142,8 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         realization = info[0],
         const_value = const_value,
         points = info[21],
-        time_series_uuid = info[11])
+        time_series_uuid = info[11],
+        string_lookup_uuid = info[16])
 
 
 def _extend_imported_no_coarsening_single_resampling(a, info, collection, refinement):
-- 
2.43.0


From 56d940578bc4b6b24ad1983a3b788f2ebda110c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 55/89] fix: inheriting properties of elements other than cells
 raised or mislabelled them as cells

---
 resqpy/property/grid_property_collection.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index d0170a2..d4b465a 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -1089,6 +1089,8 @@ def _extend_imported_coarsen_other(other, box, collection, realization, uncache_
             continue
         if info[7] in handled_kinds:
             continue
+        if info[6] != 'cells':
+            continue  # todo: appropriate coarsening of data for other indexable elements
         fine_ordinary_array = _array_box(other, part, box = box, uncache_other_arrays = uncache_other_arrays)
         if info[4]:
             coarse_ordinary_array = _coarsening_weighted_mean(coarsening,
@@ -1117,6 +1119,10 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
     if not copy_all_realizations and info[0] != realization:
         return
 
+    if info[6] != 'cells' and (box is not None or refinement is not None):
+        # todo: appropriate boxing and refinement of data for other indexable elements
+        return
+
     const_value = info[20]
     if const_value is None:
         a = _array_box(source_collection, part, box = box, uncache_other_arrays = uncache_other_arrays)
@@ -1131,7 +1137,8 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
         'copied from grid ' + str(other.support.uuid),
         info[10],  # citation_title
         discrete = not info[4],
-        indexable_element = 'cells',
+        indexable_element = info[6],
+        count = info[5],
         uom = info[15],
         time_index = info[12],
         null_value = info[19],
@@ -1147,9 +1154,6 @@ def _extend_imported_no_coarsening_single(source_collection, part, info, collect
 
 
 def _extend_imported_no_coarsening_single_resampling(a, info, collection, refinement):
-    if info[6] != 'cells':
-        # todo: appropriate refinement of data for other indexable elements
-        return
     # todo: dividing up of values when needed, eg. volumes, areas, lengths
     assert tuple(a.shape) == tuple(refinement.coarse_extent_kji)
     assert collection.support is not None and tuple(collection.support.extent_kji) == tuple(refinement.fine_extent_kji)
-- 
2.43.0


From 594120fd58eceddf707cb6a34322c0f68ad5a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 56/89] fix: inactive cells of a faulted grid became active in
 a refined grid inheriting its properties

---
 resqpy/derived_model/_refined_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_refined_grid.py b/resqpy/derived_model/_refined_grid.py
index acc4f3e..e6e23b7 100644
--- a/resqpy/derived_model/_refined_grid.py
+++ b/resqpy/derived_model/_refined_grid.py
@@ -189,10 +189,12 @@ def _refined_faulted_grid(model, source_grid, fine_coarse):
                 fine_cp[fine_k_base : fine_k_base + k_ratio, fine_j_base : fine_j_base + j_ratio, fine_i_base : fine_i_base + i_ratio, 1, 1, 1] =  \
                    shared_fine_points[1:, 1:, 1:]
 
-    return rqi.grid_from_cp(model,
+    grid = rqi.grid_from_cp(model,
                             fine_cp,
                             source_grid.crs_uuid,
                             ijk_handedness = 'right' if source_grid.grid_is_right_handed else 'left')
+    grid.inactive = None  # otherwise an all active mask would replace any inherited active cell property
+    return grid
 
 
 def _refined_unfaulted_grid(model, source_grid, fine_coarse):
-- 
2.43.0


From cfcbe6b192151d2a02dc4d8da28534cd6a3d2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 57/89] fix: faults which split no pillars left a grid which
 could not be read back

---
 resqpy/derived_model/_add_faults.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resqpy/derived_model/_add_faults.py b/resqpy/derived_model/_add_faults.py
index 24558e0..54151de 100644
--- a/resqpy/derived_model/_add_faults.py
+++ b/resqpy/derived_model/_add_faults.py
@@ -222,6 +222,13 @@ def _fault_from_pillar_list(grid, full_pillar_list, delta_throw_left, delta_thro
         lr_foursome = gf.left_right_foursome(full_pillar_list, p_index)
         cl = _processs_foursome(grid, n_primaries, primary, original_p, existing_foursome, lr_foursome, primary_ji0,
                                 throw_right_vector, throw_left_vector, cl)
+    # if nothing has been split, return to unfaulted representation
+    if len(grid.split_pillar_indices_cached) == 0:
+        grid.points_cached = grid.points_cached.reshape((grid.nk_plus_k_gaps + 1, grid.nj + 1, grid.ni + 1, 3))
+        grid.split_pillar_indices_cached = None
+        grid.cols_for_split_pillars = None
+        grid.cols_for_split_pillars_cl = None
+        grid.has_split_coordinate_lines = False
 
 
 def _pillar_vector(grid, p_index):
-- 
2.43.0


From 9222bff1ca7dd1608fcb24a70df33a7b36f71290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 58/89] fix: base of each zone of a zonal grid was the top of
 its deepest layer

---
 resqpy/derived_model/_zonal_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index e169f0a..495628b 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -303,8 +303,8 @@ def _process_geometry(source_grid, grid, single_layer_mode, k0_min, k0_max, zone
             for zone_i in range(zone_count):
                 if zone_i == 0:
                     grid.points_cached[0] = source_points[zone_layer_range_list[zone_i][0]]
-                grid.points_cached[zone_i + 1] = source_points[zone_layer_range_list[zone_i]
-                                                               [1]]  # or could use 0th element of tuple for zone_i+1
+                zk_base = min(zone_layer_range_list[zone_i][1] + 1, source_grid.nk)
+                grid.points_cached[zone_i + 1] = source_points[zk_base]  # or could use 0th element of tuple for zone_i+1
     elif not grid.has_split_coordinate_lines:
         log.debug('scanning columns (unsplit pillars) for reference geometry')
         # fill in geometry: todo: replace with array operations if possible
-- 
2.43.0


From c0ab25b654002abf629dd7d8aeb9ebbc37c679b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 59/89] fix: zonal grid from a faulted grid with undefined
 geometry looked one layer below the zone

---
 resqpy/derived_model/_zonal_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index 495628b..8b56282 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -232,7 +232,7 @@ def _scan_columns_for_reference_geometry(source_grid, grid, zone_layer_range_lis
                                     pillar = grid.pillars_for_column[j, i, jp, ip]
                                     grid.points_cached[0, pillar] = source_points[k, pillar]
                             break
-                for k in range(zk0_max + 1, zk0_min - 1, -1):
+                for k in range(zk0_max, zk0_min - 1, -1):
                     if no_cgid or source_grid.array_cell_geometry_is_defined[k, j, i]:
                         for jp in range(2):
                             for ip in range(2):
-- 
2.43.0


From 2924d12a7a8103506d2866a078cc68c00a53ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 60/89] fix: single layer grid from lower layers of a regular
 grid was placed at the top

---
 resqpy/derived_model/_zonal_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index 8b56282..8171a07 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -189,10 +189,11 @@ def _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count):
         assert zone_count == 1
         dxyz_dkji = source_grid.block_dxyz_dkji.copy()
         dxyz_dkji[0] *= k0_max - k0_min + 1
+        origin = np.array(source_grid.block_origin) + k0_min * source_grid.block_dxyz_dkji[0]
         grid = grr.RegularGrid(model,
                                extent_kji = (1, source_grid.nj, source_grid.ni),
                                dxyz_dkji = dxyz_dkji,
-                               origin = source_grid.block_origin,
+                               origin = origin,
                                crs_uuid = source_grid.crs_uuid,
                                set_points_cached = False)
     else:
-- 
2.43.0


From f1db487abb43db41901888b784d2d67102099a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 61/89] fix: zonal grid for a single zone ignored its range of
 layers

---
 resqpy/derived_model/_zonal_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index 8171a07..036f339 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -73,6 +73,8 @@ def zonal_grid(epc_file,
     single_layer_mode = (not zone_title and not zone_uuid and
                          (zone_layer_range_list is None or len(zone_layer_range_list) == 1))
 
+    if single_layer_mode and zone_layer_range_list is not None:
+        k0_min, k0_max, _ = zone_layer_range_list[0]
     k0_min, k0_max = _set_or_check_k_min_max(k0_min, k0_max, source_grid)
 
     if not single_layer_mode:  # process zone array
-- 
2.43.0


From 7a06db3d3c7d45325963f3a3e8a6043090658bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 62/89] fix: single layer grid from lower layers of regular
 grid misplaced when crs has no offsets

---
 resqpy/derived_model/_zonal_grid.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/resqpy/derived_model/_zonal_grid.py b/resqpy/derived_model/_zonal_grid.py
index 036f339..546fec0 100644
--- a/resqpy/derived_model/_zonal_grid.py
+++ b/resqpy/derived_model/_zonal_grid.py
@@ -7,6 +7,7 @@ log = logging.getLogger(__name__)
 import os
 import numpy as np
 
+import resqpy.crs as rqc
 import resqpy.derived_model
 import resqpy.grid as grr
 import resqpy.model as rq
@@ -191,12 +192,33 @@ def _empty_grid(model, source_grid, is_regular, k0_min, k0_max, zone_count):
         assert zone_count == 1
         dxyz_dkji = source_grid.block_dxyz_dkji.copy()
         dxyz_dkji[0] *= k0_max - k0_min + 1
-        origin = np.array(source_grid.block_origin) + k0_min * source_grid.block_dxyz_dkji[0]
+        crs_uuid = source_grid.crs_uuid
+        if k0_min > 0:  # use a crs with its origin at the top of the lowest numbered layer
+            crs = rqc.Crs(model, uuid = crs_uuid)
+            x_offset, y_offset, z_offset = crs.local_to_global(tuple(k0_min * source_grid.block_dxyz_dkji[0]),
+                                                               global_z_inc_down = crs.z_inc_down,
+                                                               global_axis_order = crs.axis_order)
+            crs = rqc.Crs(model,
+                          x_offset = x_offset,
+                          y_offset = y_offset,
+                          z_offset = z_offset,
+                          rotation = crs.rotation,
+                          rotation_units = crs.rotation_units,
+                          xy_units = crs.xy_units,
+                          z_units = crs.z_units,
+                          z_inc_down = crs.z_inc_down,
+                          axis_order = crs.axis_order,
+                          time_units = crs.time_units,
+                          epsg_code = crs.epsg_code,
+                          title = crs.title,
+                          extra_metadata = crs.extra_metadata)
+            crs.create_xml(reuse = True)
+            crs_uuid = crs.uuid
         grid = grr.RegularGrid(model,
                                extent_kji = (1, source_grid.nj, source_grid.ni),
                                dxyz_dkji = dxyz_dkji,
-                               origin = origin,
-                               crs_uuid = source_grid.crs_uuid,
+                               origin = source_grid.block_origin,
+                               crs_uuid = crs_uuid,
                                set_points_cached = False)
     else:
         grid = grr.Grid(model)
-- 
2.43.0


From b31a6606e7da7362afa43115d8541ac7e5dc2aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 63/89] fix: inherited grid connection sets lacked fault
 interpretations in a new file

---
 resqpy/derived_model/_fault_throw_scaling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/resqpy/derived_model/_fault_throw_scaling.py b/resqpy/derived_model/_fault_throw_scaling.py
index 016aec7..ba6a0b3 100644
--- a/resqpy/derived_model/_fault_throw_scaling.py
+++ b/resqpy/derived_model/_fault_throw_scaling.py
@@ -370,6 +370,13 @@ def _inherit_gcs_list(epc_file, gcs_list, source_grid, grid):
         assert len(grid_list_modifications)
         for gi in grid_list_modifications:
             gcs.grid_list[gi] = grid
+        # ensure other objects referred to are present in the model (when writing to a new epc)
+        uuids = [g.uuid for g in gcs.grid_list]
+        if gcs.feature_list:
+            uuids += [bu.uuid_from_string(feature[1]) for feature in gcs.feature_list]
+        for uuid in uuids:
+            if gcs_inheritance_model.part(uuid = uuid) is None:
+                gcs_inheritance_model.copy_uuid_from_other_model(gcs.model, uuid)
         gcs.model = gcs_inheritance_model
         gcs.write_hdf5()
         gcs.create_xml(title = gcs_title)
-- 
2.43.0


From d7f331ace5d9be7ffd689680e21903a9f7eadf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 64/89] fix: coarsening a grid having properties of columns or
 layers failed

---
 resqpy/property/grid_property_collection.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/resqpy/property/grid_property_collection.py b/resqpy/property/grid_property_collection.py
index d4b465a..76c3438 100644
--- a/resqpy/property/grid_property_collection.py
+++ b/resqpy/property/grid_property_collection.py
@@ -934,15 +934,13 @@ def _extend_imported_with_coarsening(collection, other, box, coarsening, realiza
 
 def _extend_imported_get_fine_collections(other, realization):
     # look for properties by kind, process in order: rock volume, net to gross ratio, porosity, permeability, saturation
-    source_rv = rqp_c.selective_version_of_collection(other, realization = realization, property_kind = 'rock volume')
-    source_ntg = rqp_c.selective_version_of_collection(other,
-                                                       realization = realization,
-                                                       property_kind = 'net to gross ratio')
-    source_poro = rqp_c.selective_version_of_collection(other, realization = realization, property_kind = 'porosity')
-    source_sat = rqp_c.selective_version_of_collection(other, realization = realization, property_kind = 'saturation')
-    source_perm = rqp_c.selective_version_of_collection(other,
-                                                        realization = realization,
-                                                        property_kind = 'rock permeability')
+    # note: only cells properties are coarsened
+    source_cells = rqp_c.selective_version_of_collection(other, realization = realization, indexable = 'cells')
+    source_rv = rqp_c.selective_version_of_collection(source_cells, property_kind = 'rock volume')
+    source_ntg = rqp_c.selective_version_of_collection(source_cells, property_kind = 'net to gross ratio')
+    source_poro = rqp_c.selective_version_of_collection(source_cells, property_kind = 'porosity')
+    source_sat = rqp_c.selective_version_of_collection(source_cells, property_kind = 'saturation')
+    source_perm = rqp_c.selective_version_of_collection(source_cells, property_kind = 'rock permeability')
     # todo: add kh and some other property kinds
 
     return source_rv, source_ntg, source_poro, source_sat, source_perm
@@ -1062,6 +1060,7 @@ def _extend_imported_coarsen_lengths(other, box, collection, realization, uncach
     # cell lengths
     source_cell_lengths = rqp_c.selective_version_of_collection(other,
                                                                 realization = realization,
+                                                                indexable = 'cells',
                                                                 property_kind = 'cell length')
     for (part, info) in source_cell_lengths.dict.items():
         if not copy_all_realizations and info[0] != realization:
-- 
2.43.0


From 2caa9c1734530479a953472c289b488d1950cb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:18 +0000
Subject: [PATCH 65/89] fix: add_similar_to_imported_list() honours its
 discrete and string_lookup_uuid arguments

---
 resqpy/property/property_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index a5c5819..f6bdcc6 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2381,7 +2381,7 @@ class PropertyCollection():
         args = {}
         args['keyword'] = get_arg(keyword, get_arg(title, similar.title))
         assert args['keyword'] is not None
-        args['discrete'] = get_arg(uom, not similar.is_continuous())
+        args['discrete'] = get_arg(discrete, not similar.is_continuous())
         args['uom'] = get_arg(uom, similar.uom())
         args['time_index'] = get_arg(time_index, similar.time_index())
         args['null_value'] = get_arg(null_value, similar.null_value())
@@ -2395,7 +2395,7 @@ class PropertyCollection():
         args['const_value'] = const_value  # NB. not inherited
         args['points'] = get_arg(points, similar.is_points())
         args['time_series_uuid'] = get_arg(time_series_uuid, similar.time_series_uuid())
-        args['string_lookup_uuid'] = get_arg(time_series_uuid, similar.string_lookup_uuid())
+        args['string_lookup_uuid'] = get_arg(string_lookup_uuid, similar.string_lookup_uuid())
         em = similar.extra_metadata if hasattr(similar, 'extra_metadata') else {}
         args['source_info'] = get_arg(source_info, em.get('source'))
 
-- 
2.43.0


From 92252e9f6b85f0a1ebb664be358d227b4aa02614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 66/89] fix: uom criterion is applied when selecting properties
 from a collection

---
 resqpy/property/_collection_add_part.py | 4 +++-
 resqpy/property/property_collection.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index a7610da..87f97af 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -18,7 +18,7 @@ import resqpy.property._collection_get_attributes as pcga
 def _add_selected_part_from_other_dict(collection, part, other, realization, support_uuid, uuid, continuous,
                                        categorical, count, points, indexable, property_kind, facet_type, facet,
                                        citation_title, citation_title_match_mode, time_series_uuid, time_index,
-                                       string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes):
+                                       uom, string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes):
     if _check_not_none_and_not_equals(realization, other.realization_for_part, part):
         return
     if _check_not_none_and_not_uuid_match(support_uuid, other.support_uuid_for_part, part):
@@ -47,6 +47,8 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(time_index, other.time_index_for_part, part):
         return
+    if _check_not_none_and_not_equals(uom, other.uom_for_part, part):
+        return
     if _check_not_none_and_not_uuid_match(string_lookup_uuid, other.string_lookup_uuid_for_part, part):
         return
     if _check_not_none_and_not_equals(const_value, other.constant_value_for_part, part):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index f6bdcc6..2c72b11 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -496,8 +496,8 @@ class PropertyCollection():
             pcap._add_selected_part_from_other_dict(self, part, other, realization, support_uuid, uuid, continuous,
                                                     categorical, count, points, indexable, property_kind, facet_type,
                                                     facet, citation_title, citation_title_match_mode, time_series_uuid,
-                                                    time_index, string_lookup_uuid, related_uuid, const_value, extra,
-                                                    ignore_clashes)
+                                                    time_index, uom, string_lookup_uuid, related_uuid, const_value,
+                                                    extra, ignore_clashes)
 
     def inherit_similar_parts_for_time_series_from_other_collection(self,
                                                                     other,
-- 
2.43.0


From 04db53540f77c47c37e5204468b4ffa9d25c341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:18 +0000
Subject: [PATCH 67/89] fix: masked property arrays exclude zero and NaN null
 values, and inactive points

---
 resqpy/property/property_collection.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 2c72b11..cb8a1de 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1697,8 +1697,11 @@ class PropertyCollection():
         """
 
         mask = self._masked_array_apply_inactive(exclude_inactive, points, simple_array)
-        if exclude_value:
-            null_mask = (simple_array == exclude_value)
+        if exclude_value is not None:
+            if isinstance(exclude_value, float) and np.isnan(exclude_value):
+                null_mask = np.isnan(simple_array)
+            else:
+                null_mask = (simple_array == exclude_value)
             if mask is None:
                 mask = null_mask
             else:
@@ -1719,7 +1722,7 @@ class PropertyCollection():
                 if (self.support.inactive.ndim + 1 == simple_array.ndim and
                         self.support.inactive.shape == tuple(simple_array.shape[:-1])):
                     mask = np.empty(simple_array.shape, dtype = bool)
-                    mask[:] = self.support.inactive[:, np.newaxis]
+                    mask[:] = self.support.inactive[..., np.newaxis]
         return mask
 
     def h5_key_pair_for_part(self, part):
-- 
2.43.0


From 9e8b823db9c4ed9a5e83b3aa7672f43453d57209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 68/89] fix: packed boolean properties unpacked whatever dtype
 is asked for and whatever their count

---
 resqpy/model/_hdf5.py                         |  3 +-
 resqpy/olio/write_hdf5.py                     |  3 +-
 resqpy/property/_collection_get_attributes.py | 30 ++++++++++++++-----
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/resqpy/model/_hdf5.py b/resqpy/model/_hdf5.py
index 0180f50..2ced047 100644
--- a/resqpy/model/_hdf5.py
+++ b/resqpy/model/_hdf5.py
@@ -235,7 +235,8 @@ def _h5_array_element(model,
         loaded = np.zeros(required_shape, dtype = dtype)  # only cached as attribute once successfully populated
         if shape_tuple == required_shape:
             loaded[:] = h5_root[h5_key_pair[1]]
-        elif (len(shape_tuple) == len(required_shape) and ('bool' in str_dtype or 'uint8' in str_dtype) and
+        elif (len(shape_tuple) == len(required_shape) and
+              ('bool' in str_dtype or 'uint8' in str_dtype or h5_root[h5_key_pair[1]].dtype == np.uint8) and
               8 * (shape_tuple[-1] - 1) < required_shape[-1] <= 8 * shape_tuple[-1]):
             a = np.unpackbits(h5_root[h5_key_pair[1]], axis = -1).astype(bool)
             loaded[:] = a[..., :required_shape[-1]]
diff --git a/resqpy/olio/write_hdf5.py b/resqpy/olio/write_hdf5.py
index 731ac08..8eb98fc 100644
--- a/resqpy/olio/write_hdf5.py
+++ b/resqpy/olio/write_hdf5.py
@@ -101,7 +101,8 @@ class H5Register():
         assert chunks is None or isinstance(chunks, str) or isinstance(chunks, tuple)
         assert compression is None or (isinstance(compression, str) and compression in ['gzip', 'lzf', 'none'])
         if str(dtype) == 'pack':
-            a = np.packbits(a, axis = -1)  # todo: check this returns uint8 array
+            # note: there is nothing to gain, and the packed shape is ambiguous, if the last axis has extent one
+            a = np.packbits(a, axis = -1) if a.shape[-1] != 1 else a.astype('uint8')
             dtype = 'uint8'
         elif dtype is not None:
             a = a.astype(dtype, copy = copy)
diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 4fc6445..9c66375 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -607,16 +607,24 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
     else:
         first_values_node, tag, dtype = _cached_part_array_ref_get_node_values(part_node, dtype)
 
-    # the required shape is required if a bool array may need to be unpacked from bits
-    required_shape = None
-    str_dtype = str(dtype)
-    if use_pack and ('bool' in str_dtype or 'uint8' in str_dtype):
-        required_shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
-                                                     direction = _part_direction(collection, part))
-
     h5_key_pair = model.h5_uuid_and_path_for_node(first_values_node, tag = tag)
     if h5_key_pair is None:
         return None
+
+    # the required shape is required if a bool array may need to be unpacked from bits
+    required_shape = None
+    if use_pack and not collection.continuous_for_part(part):
+        str_dtype = str(dtype)
+        as_bool = 'bool' in str_dtype or 'uint8' in str_dtype
+        stored_shape, stored_dtype = model.h5_array_shape_and_type(h5_key_pair)
+        if as_bool or (stored_dtype == np.uint8 and collection.support is not None):
+            required_shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
+                                                         direction = _part_direction(collection, part))
+            if required_shape is not None and collection.count_for_part(part) > 1:
+                required_shape.append(collection.count_for_part(part))
+            if not as_bool and not _is_packed_shape(stored_shape, required_shape):
+                required_shape = None
+
     model.h5_array_element(h5_key_pair,
                            index = None,
                            cache_array = True,
@@ -626,6 +634,14 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
                            dtype = dtype)
 
 
+def _is_packed_shape(stored_shape, required_shape):
+    # returns True if stored shape is that of a boolean array packed into bits along the last axis
+    if stored_shape is None or required_shape is None or len(stored_shape) != len(required_shape):
+        return False
+    return (tuple(stored_shape[:-1]) == tuple(required_shape[:-1]) and stored_shape[-1] < required_shape[-1] and
+            stored_shape[-1] == (required_shape[-1] + 7) // 8)
+
+
 def _cached_part_array_ref_const_notnone(collection, part, const_value, cached_array_name):
     assert not collection.points_for_part(part), 'constant arrays not supported for points properties'
     assert collection.support is not None
-- 
2.43.0


From 26868e674de46d9e41def97e80d79be56e6270ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:49 +0000
Subject: [PATCH 69/89] fix: adding to a multi-support property collection does
 not change the support of the parts already there

---
 resqpy/property/_collection_add_part.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 87f97af..10775d0 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -105,7 +105,8 @@ def _add_part_to_dict_get_support_uuid(collection, part):
     if support_uuid is None:
         support_uuid = collection.support_uuid
     elif collection.support_uuid is None:
-        collection.set_support(support_uuid)
+        if all(info[1] is None or bu.matching_uuids(info[1], support_uuid) for info in collection.dict.values()):
+            collection.set_support(support_uuid)
     elif not bu.matching_uuids(support_uuid, collection.support.uuid):  # multi-support collection
         collection.set_support(None)
     if isinstance(support_uuid, str):
-- 
2.43.0


From 036d7e1802aac14b7cf1e104a2e99872f3291053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 70/89] fix: has single/multiple flags and time set kind of a
 property collection follow changes to its parts

---
 resqpy/property/property_collection.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index cb8a1de..f6c2049 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -213,9 +213,6 @@ class PropertyCollection():
         assert self.model is not None and self.support is not None, 'set support for collection before populating from property set'
 
         self.property_set_root = property_set_root
-        self.time_set_kind_attr = rqet.find_tag_text(property_set_root, 'TimeSetKind')
-        self.has_single_property_kind_flag = rqet.find_tag_bool(property_set_root, 'HasSinglePropertyKind')
-        self.has_multiple_realizations_flag = rqet.find_tag_bool(property_set_root, 'HasMultipleRealizations')
         parent_set_ref_root = rqet.find_tag(property_set_root, 'ParentSet')  # at most one parent set handled here
         if parent_set_ref_root is not None:
             self.parent_set_root = self.model.referenced_node(parent_set_ref_root)
@@ -228,6 +225,17 @@ class PropertyCollection():
                 log.warning('property set member missing from resqml dataset')
                 continue
             self.add_part_to_dict(rqet.part_name_for_part_root(property_root))
+        self.time_set_kind_attr = rqet.find_tag_text(property_set_root, 'TimeSetKind')
+        self.has_single_property_kind_flag = rqet.find_tag_bool(property_set_root, 'HasSinglePropertyKind')
+        self.has_multiple_realizations_flag = rqet.find_tag_bool(property_set_root, 'HasMultipleRealizations')
+
+    def _reset_flags(self):
+        # called when the parts in the collection change, so that these are re-established when next needed
+        self.time_set_kind_attr = None
+        self.has_single_property_kind_flag = None
+        self.has_single_uom_flag = None
+        self.has_single_indexable_element_flag = None
+        self.has_multiple_realizations_flag = None
 
     def set_realization(self, realization):
         """Sets the model realization number (within an ensemble) for this collection.
@@ -292,6 +300,7 @@ class PropertyCollection():
         self.dict[part] = (realization, support_uuid, uuid, xml_node, continuous, count, indexable, property_kind,
                            facet_type, facet, citation_title, time_series_uuid, time_index, minimum, maximum, uom,
                            string_lookup_uuid, property_kind_uuid, extra_metadata, null_value, const_value, points)
+        self._reset_flags()
 
     def add_parts_list_to_dict(self, parts_list):
         """Add all the parts named in the parts list to the dictionary for this collection.
@@ -321,6 +330,7 @@ class PropertyCollection():
         if part not in self.dict:
             return
         del self.dict[part]
+        self._reset_flags()
 
     def remove_parts_list_from_dict(self, parts_list):
         """Remove all the parts named in the parts list from the dictionary for this collection.
@@ -389,6 +399,7 @@ class PropertyCollection():
                     continue
                 assert False, 'attempt to inherit a part which already exists in property collection: ' + part
             self.dict[part] = info
+        self._reset_flags()
 
     def add_to_imported_list_sampling_other_collection(self, other, flattened_indices):
         """Makes cut down copies of parts from other collection, using indices, and adds to imported list.
@@ -498,6 +509,7 @@ class PropertyCollection():
                                                     facet, citation_title, citation_title_match_mode, time_series_uuid,
                                                     time_index, uom, string_lookup_uuid, related_uuid, const_value,
                                                     extra, ignore_clashes)
+        self._reset_flags()
 
     def inherit_similar_parts_for_time_series_from_other_collection(self,
                                                                     other,
-- 
2.43.0


From 736143d1a0e151080d3afb9a4aef2c64fdabb83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:54 +0000
Subject: [PATCH 71/89] fix: normalized_part_array() with masked set True
 returns a masked array

---
 resqpy/property/property_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index f6c2049..17378b3 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2183,6 +2183,8 @@ class PropertyCollection():
             return None, min_value, max_value
 
         n_prop = p_array.astype(float)
+        if masked:
+            n_prop.harden_mask()  # so that assignments below do not unmask elements
         # todo: for discrete p_array, set n_prop to nan where p_array == null value
         if use_logarithm:
             n_prop, min_value, max_value = pcga._normalized_part_array_use_logarithm(min_value, n_prop, masked)
-- 
2.43.0


From d3cbcc451da3c51db95a97d13473eb4e223c875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 72/89] fix: discrete property similar to a continuous one does
 not inherit NaN as null value

---
 resqpy/property/property_collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 17378b3..a583402 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2401,7 +2401,8 @@ class PropertyCollection():
         args['discrete'] = get_arg(discrete, not similar.is_continuous())
         args['uom'] = get_arg(uom, similar.uom())
         args['time_index'] = get_arg(time_index, similar.time_index())
-        args['null_value'] = get_arg(null_value, similar.null_value())
+        # note: null value (NaN) of a continuous property is implicit and is not applicable to a discrete property
+        args['null_value'] = get_arg(null_value, None if similar.is_continuous() else similar.null_value())
         args['property_kind'] = get_arg(property_kind, similar.property_kind())
         args['local_property_kind_uuid'] = get_arg(local_property_kind_uuid, similar.local_property_kind_uuid())
         args['facet_type'] = get_arg(facet_type, similar.facet_type())
-- 
2.43.0


From 78637d500902c43c05e584272b80a7a825ddf59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:30 +0000
Subject: [PATCH 73/89] fix: constant properties can be sampled from another
 property collection

---
 resqpy/property/property_collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index a583402..0edd5fc 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -425,7 +425,9 @@ class PropertyCollection():
             target_shape = self.supporting_shape(indexable_element = other.indexable_for_part(part),
                                                  direction = pcga._part_direction(other, part))
             assert np.prod(target_shape) == flattened_indices.size
-            a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
+            a = None
+            if info[20] is None:  # not a constant array
+                a = other.cached_part_array_ref(part).flatten()[flattened_indices].reshape(target_shape)
             self.add_cached_array_to_imported_list(a,
                                                    source,
                                                    info[10],
-- 
2.43.0


From b7e92b4833d5f2a5143d5702bc1c4d21deca3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:49 +0000
Subject: [PATCH 74/89] fix: shape of packed boolean property reported the same
 whether cached or not

---
 resqpy/property/_collection_get_attributes.py | 14 ++++++++++----
 resqpy/property/property_collection.py        |  7 ++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 9c66375..ba46a58 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -618,10 +618,7 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
         as_bool = 'bool' in str_dtype or 'uint8' in str_dtype
         stored_shape, stored_dtype = model.h5_array_shape_and_type(h5_key_pair)
         if as_bool or (stored_dtype == np.uint8 and collection.support is not None):
-            required_shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
-                                                         direction = _part_direction(collection, part))
-            if required_shape is not None and collection.count_for_part(part) > 1:
-                required_shape.append(collection.count_for_part(part))
+            required_shape = _unpacked_shape(collection, part)
             if not as_bool and not _is_packed_shape(stored_shape, required_shape):
                 required_shape = None
 
@@ -634,6 +631,15 @@ def _cached_part_array_ref_const_none(collection, part, dtype, model, cached_arr
                            dtype = dtype)
 
 
+def _unpacked_shape(collection, part):
+    # returns the shape of the array for part, if based on the supporting representation
+    shape = collection.supporting_shape(indexable_element = collection.indexable_for_part(part),
+                                        direction = _part_direction(collection, part))
+    if shape is not None and collection.count_for_part(part) > 1:
+        shape = list(shape) + [collection.count_for_part(part)]
+    return shape
+
+
 def _is_packed_shape(stored_shape, required_shape):
     # returns True if stored shape is that of a boolean array packed into bits along the last axis
     if stored_shape is None or required_shape is None or len(stored_shape) != len(required_shape):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 0edd5fc..be0840e 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1888,7 +1888,12 @@ class PropertyCollection():
         h5_key_pair = self._shape_and_type_of_part_get_h5keypair(part, part_node, model)
         if h5_key_pair is None:
             return None, None
-        return model.h5_array_shape_and_type(h5_key_pair)
+        shape, dtype = model.h5_array_shape_and_type(h5_key_pair)
+        if dtype == np.uint8 and self.support is not None and not self.continuous_for_part(part):
+            unpacked_shape = pcga._unpacked_shape(self, part)
+            if pcga._is_packed_shape(shape, unpacked_shape):
+                shape = tuple(unpacked_shape)  # boolean data packed into bits
+        return shape, dtype
 
     def _shape_and_type_of_part_get_h5keypair(self, part, part_node, model):
         if self.points_for_part(part):
-- 
2.43.0


From 9b559431c95c3d4a13fc1733d189a8aae717b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 75/89] fix: binary copy of a text data file holds all of the
 data of the file it was made from, and a failure to write binary data is
 reported

---
 resqpy/olio/load_data.py          | 26 +++++++++++-----
 resqpy/olio/write_data.py         | 52 +++++++++++++++++++++++++------
 resqpy/rq_import/_import_nexus.py |  6 ++--
 3 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index 88c5163..f3358fb 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -30,6 +30,13 @@ def file_exists(file_name, must_be_more_recent_than_file = None):
     return os.path.getmtime(file_name) > os.path.getmtime(must_be_more_recent_than_file)
 
 
+def file_status(file_name):
+    """Returns a tuple which can be expected to change if the file is rewritten."""
+
+    status = os.stat(file_name)
+    return status.st_ino, status.st_size, status.st_mtime_ns
+
+
 ######################################################################################################
 # load_corp_array_from_file():
 # function to load a nexus corp array of data from a named file
@@ -180,9 +187,13 @@ def load_array_from_file(file_name,
     try:  # tentatively try to read data from an existing binary file, if present
         if file_exists(binary_file_name, must_be_more_recent_than_file = ascii_file_name):
             with open(binary_file_name, 'rb') as binary_file_in:
-                result = np.fromfile(binary_file_in, dtype = ab_type, count = cell_count)
-                if extent is not None:
-                    result = result.reshape(extent)
+                if extent is None:  # note: numpy fromfile() does not notice a read failure if count is -1
+                    size = os.fstat(binary_file_in.fileno()).st_size // np.dtype(ab_type).itemsize
+                    result = np.fromfile(binary_file_in, dtype = ab_type, count = size)
+                    if result.size != size:
+                        raise OSError('failed to read all data from binary file: ' + binary_file_name)
+                else:
+                    result = np.fromfile(binary_file_in, dtype = ab_type, count = cell_count).reshape(extent)
                 # check that end of file has been reached, ie. not too much data in file
                 try:  # expected to return null
                     c = binary_file_in.read(1)
@@ -196,7 +207,8 @@ def load_array_from_file(file_name,
         pass
 
     # read from ascii file
-    result = load_array_from_ascii_file(file_name,
+    ascii_status = file_status(ascii_file_name)
+    result = load_array_from_ascii_file(ascii_file_name,
                                         extent = extent,
                                         data_type = data_type,
                                         keyword = keyword,
@@ -206,10 +218,10 @@ def load_array_from_file(file_name,
 
     # create a binary file (to be used next time)
     try:
-        wd.write_pure_binary_data(binary_file_name, result)
+        # discard the binary version if the ascii file has been rewritten in the meantime
+        wd.write_binary_copy_of_file(binary_file_name, result, lambda: file_status(ascii_file_name) == ascii_status)
     except Exception:
-        log.warn('Failed to write data to binary file %s', binary_file_name)
-        # todo: could delete the binary file in case a corrupt file is left for use next time
+        log.warning('Failed to write data to binary file %s', binary_file_name)
 
     return result
 
diff --git a/resqpy/olio/write_data.py b/resqpy/olio/write_data.py
index 415e463..1739803 100644
--- a/resqpy/olio/write_data.py
+++ b/resqpy/olio/write_data.py
@@ -8,6 +8,7 @@ log = logging.getLogger(__name__)
 
 # only nexus format currently fully supported
 
+import os
 import math as maths
 import numpy as np
 
@@ -15,13 +16,41 @@ import resqpy.olio.ab_toolbox as abt
 
 
 def write_pure_binary_data(binary_file_name, numpy_array):
-    """Writes a numpy array to a file in 'pure binary' format."""
-
-    with open(binary_file_name, 'wb') as binary_file_out:
-        numpy_array.tofile(binary_file_out)
+    """Writes a numpy array to a file in 'pure binary' format; no file is left if the writing fails."""
+
+    try:
+        # note: numpy tofile() does not report an error detected when its buffer is flushed
+        with open(binary_file_name, 'wb') as binary_file_out:
+            binary_file_out.write(np.ascontiguousarray(numpy_array).data)
+    except Exception:
+        if os.path.exists(binary_file_name):
+            os.remove(binary_file_name)
+        raise
     log.info('Binary data file %s created', binary_file_name)
 
 
+def write_binary_copy_of_file(binary_file_name, numpy_array, is_current):
+    """Writes a pure binary copy of data which have been loaded from another file.
+
+    arguments:
+        binary_file_name (str): the path of the file to be written; any existing file is replaced
+        numpy_array (numpy array): the data to be written
+        is_current (callable): a function which is called without arguments once the data have been
+            written; if it returns False, the data are discarded
+
+    note:
+        the data are written to a temporary file which then replaces any existing file, so that a file with
+        the given name never contains just some of the data
+    """
+
+    temporary_file_name = f'{binary_file_name}.{os.getpid()}.tmp'
+    write_pure_binary_data(temporary_file_name, numpy_array)
+    if is_current():
+        os.replace(temporary_file_name, binary_file_name)
+    else:
+        os.remove(temporary_file_name)
+
+
 def write_array_to_ascii_file(file_name,
                               extent_kji,
                               a,
@@ -103,7 +132,7 @@ def write_array_to_ascii_file(file_name,
             raise
 
     if use_binary:
-        extension, _ = abt.binary_file_extension_and_np_type_for_data_type(data_type)
+        extension, ab_type = abt.binary_file_extension_and_np_type_for_data_type(data_type)
         binary_file_name = file_name + extension
         if append and (keyword is not None):
             key = keyword.split()[0].lower()
@@ -114,9 +143,12 @@ def write_array_to_ascii_file(file_name,
         else:
             ap = np.where(np.isnan(a), nan_substitute_value, a)
         try:
-            with open(binary_file_name, 'wb') as binary_file_out:
-                ap.tofile(binary_file_out)
-            log.info('Binary data file %s created', binary_file_name)
+            write_pure_binary_data(binary_file_name, np.asarray(ap).astype(ab_type, copy = False))
+            # make sure that the binary file is seen to be more recent than any ascii file just written
+            if os.path.exists(file_name):
+                ascii_time = os.stat(file_name).st_mtime_ns
+                if os.stat(binary_file_name).st_mtime_ns <= ascii_time:
+                    os.utime(binary_file_name, ns = (ascii_time + 1000000, ascii_time + 1000000))
         except Exception:
-            log.warning('Failed to write data to binary file %s', binary_file_name)
-            # todo: could delete the binary file in case a corrupt file is left for use next time
+            log.error('Failed to write data to binary file %s', binary_file_name)
+            raise
diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index 44342dc..dca7815 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -220,6 +220,7 @@ def import_nexus(
                 except Exception:
                     cp_array = None
             if cp_array is None:
+                corp_status = ld.file_status(corp_file)
                 cp_array = ld.load_corp_array_from_file(
                     corp_file,
                     extent_kji,
@@ -228,8 +229,9 @@ def import_nexus(
                     data_free_of_comments = False,
                     use_binary = use_binary)
                 if use_binary:
-                    wd.write_pure_binary_data(cp_binary_file,
-                                              cp_array)  # NB: this binary file is resequenced, not in nexus ordering!
+                    # NB: this binary file is resequenced, not in nexus ordering!
+                    wd.write_binary_copy_of_file(cp_binary_file, cp_array,
+                                                 lambda: ld.file_status(corp_file) == corp_status)
 
     else:
         raise ValueError('vdb_file and corp_file are both None in import_nexus() call')
-- 
2.43.0


From b3d58a06fa06fe053e7e7de48a02b78455d22463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 76/89] fix: text data file with too few values is rejected
 instead of being padded with uninitialised memory

---
 resqpy/olio/load_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resqpy/olio/load_data.py b/resqpy/olio/load_data.py
index f3358fb..d04469f 100644
--- a/resqpy/olio/load_data.py
+++ b/resqpy/olio/load_data.py
@@ -358,8 +358,14 @@ def load_array_from_ascii_file(file_name,
                     eol = len(b)
                 b[i:eol] = sp * (eol - i)
 
-            result = np.fromstring(b.decode(), dtype = d_type, count = cell_count, sep = ' ')
+            # note: numpy fromstring() does not notice if there are fewer than count items in the string
+            result = np.fromstring(b.decode(), dtype = d_type, count = -1, sep = ' ')
             # note: extra data will go unnoticed if cell count known!
+            if cell_count >= 0:
+                assert result.size >= cell_count, 'not enough data in ascii file: ' + file_name
+                result = result[:cell_count]
+            else:
+                assert result.size, 'no data in ascii file: ' + file_name
             del b
 
         if result is None:
-- 
2.43.0


From 9209983245fd87108efa49f3a288994f65aa6497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 77/89] fix: active cell mask of imported nexus model is kept
 when there are no other properties

---
 resqpy/rq_import/_import_nexus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/rq_import/_import_nexus.py b/resqpy/rq_import/_import_nexus.py
index dca7815..a811943 100644
--- a/resqpy/rq_import/_import_nexus.py
+++ b/resqpy/rq_import/_import_nexus.py
@@ -486,6 +486,9 @@ def import_nexus(
     elif not ensemble_case_dirs_root:
         log.info('no static grid properties to import')
         prop_import_collection = None
+    if prop_import_collection is None and active_mask_file and grid.inactive is not None:  # xml will be needed for active cell property
+        prop_import_collection = rp.GridPropertyCollection()
+        prop_import_collection.set_grid(grid)
     grid.write_hdf5_from_caches(resqml_file_root + '.h5',
                                 geometry = False,
                                 imported_properties = prop_import_collection,
-- 
2.43.0


From eacb8ebd65c7c1d8b6a683ca0daec29180d004a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 78/89] fix: end of ab file is checked before the file is
 closed

---
 resqpy/olio/ab_toolbox.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/resqpy/olio/ab_toolbox.py b/resqpy/olio/ab_toolbox.py
index 5614620..5efc2b2 100644
--- a/resqpy/olio/ab_toolbox.py
+++ b/resqpy/olio/ab_toolbox.py
@@ -21,12 +21,9 @@ def load_array_from_ab_file(file_name, shape, return_64_bit = False):
     dtype = ab_dtype_dict[file_name[-3:]]
     with open(file_name, 'rb') as fp:
         a = np.fromfile(fp, dtype = dtype, count = count).reshape(tuple(shape))
-    try:  # expected to return null
-        c = fp.read(1)
+        c = fp.read(1)  # expected to return null
         if len(c):
             log.warning('binary file contains more data than expected: ' + file_name)
-    except Exception:
-        pass
     return a
 
 
-- 
2.43.0


From 06843be8fa461eb8f61c5d9f3089cf787300690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 79/89] fix: transmissibility multiplier written for a column
 of faces is that of its own faces

---
 resqpy/fault/_grid_connection_set.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index 2ec5a1c..fb4d243 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1580,13 +1580,14 @@ class GridConnectionSet(BaseResqpy):
                     tmult_values = feat_mult_array[msi]
                     del both
                     k = None
-                    i = j = k2 = axis = polarity = None  # only needed to placate flake8 which whinges incorrectly otherwise
+                    i = j = k2 = axis = polarity = tmult = None  # only needed to placate flake8 which whinges incorrectly otherwise
                     for row in range(cell_indices.shape[0]):
                         kp, jp, ip = cell_indices[row]
                         axis_p, polarity_p = face_indices[row]
-                        tmult = tmult_values[row]
+                        tmult_p = tmult_values[row]
                         if k is not None:
-                            if axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1:
+                            if (axis_p != axis or polarity_p != polarity or ip != i or jp != j or kp != k2 + 1 or
+                                    tmult_p != tmult):
                                 write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
                                 k = None
                             else:
@@ -1597,6 +1598,7 @@ class GridConnectionSet(BaseResqpy):
                             k = k2 = kp
                             axis = axis_p
                             polarity = polarity_p
+                            tmult = tmult_p
                     if k is not None:
                         write_row(self, fp, feature_name, i, j, k, k2, axis, polarity, tmult)
 
-- 
2.43.0


From 29218f2f6943f3df416728ce45e5512ddd60d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 80/89] fix: date of a well in a wellspec file does not depend
 on the wells before it

---
 resqpy/olio/wellspec_keywords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/wellspec_keywords.py b/resqpy/olio/wellspec_keywords.py
index 46918e1..c6cb1e5 100644
--- a/resqpy/olio/wellspec_keywords.py
+++ b/resqpy/olio/wellspec_keywords.py
@@ -400,11 +400,12 @@ def get_well_pointers(
             date = date_obj.isoformat()
             time_pointers[file.tell()] = date
 
-    current_date = None  # Before first TIME
+    initial_date = None  # Before first TIME
     if no_date_replacement is not None:
-        current_date = no_date_replacement.isoformat()
+        initial_date = no_date_replacement.isoformat()
     for well, well_pointer_list in well_pointers.items():
         for i, well_pointer in enumerate(well_pointer_list):
+            current_date = initial_date
             for time_pointer, date in time_pointers.items():
                 if well_pointer[0] > time_pointer:
                     current_date = date
-- 
2.43.0


From 5f0b2e725b5ca9c7b957043116b632e6ec2f6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 81/89] fix: truncated mesh files are rejected

---
 resqpy/olio/zmap_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/olio/zmap_reader.py b/resqpy/olio/zmap_reader.py
index 3c30774..5f629fb 100644
--- a/resqpy/olio/zmap_reader.py
+++ b/resqpy/olio/zmap_reader.py
@@ -24,6 +24,7 @@ def read_zmap_header(inputfile):
         headers = 0  # count header+comment lines
         while a < 2:
             line = infile.readline()
+            assert line, f'end of file reached in header of zmap file: {inputfile}'
             headers += 1
             if line[:1] == '@':
                 a += 1
@@ -130,6 +131,8 @@ def read_mesh(inputfile, dtype = np.float64, format = None):
 
     # log.debug("Read {} nodes".format(len(f)))
 
+    assert n == len(f), f'expected {len(f)} values in mesh file: {inputfile}; found: {n}'
+
     if format == 'zmap':
         # reshape it, and swap axis. Beacuse columns major order from fortran.
         f = f.reshape((no_cols, no_rows)).swapaxes(0, 1)
-- 
2.43.0


From 0b7fe36c2c58feb4909f4dd0694ccff5620f142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 82/89] fix: polyline sets of charisma and irap files have the
 lines and points of the file

---
 resqpy/lines/_polyline_set.py | 45 ++++++++++++-----------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/resqpy/lines/_polyline_set.py b/resqpy/lines/_polyline_set.py
index 1481f04..12af03d 100644
--- a/resqpy/lines/_polyline_set.py
+++ b/resqpy/lines/_polyline_set.py
@@ -167,6 +167,7 @@ class PolylineSet(rql_c._BasePolyline):
 
     def _set_from_irap(self, irap_file):
         inpoints = rsl.read_lines(irap_file)
+        assert len(inpoints), f'no polylines loaded from irap file: {irap_file}'
         self.count_perpol = []
         closed_array = []
         if not self.title:
@@ -191,29 +192,21 @@ class PolylineSet(rql_c._BasePolyline):
     def _set_from_charisma(self, charisma_file):
         with open(charisma_file) as f:
             inpoints = f.readlines()
-        self.count_perpol = []
-        closed_array = []
         if not self.title:
             self.title = os.path.basename(charisma_file).split(".")[0]
-        for i, line in enumerate(inpoints):
+        sticks = []  # list of (stick name, list of points)
+        for line in inpoints:
             line = line.split()
-            coord_entry = np.array([[float(line[3]), float(line[4]), float(line[5])]])
-            if i == 0:
-                self.coordinates = coord_entry
-                stick = line[7]
-                count = 1
-            else:
-                self.coordinates = np.concatenate((self.coordinates, coord_entry))
-                count += 1
-                if stick != line[7] or i == len(inpoints) - 1:
-                    if count <= 2 and stick != line[7]:  # Line has fewer than 2 points
-                        log.warning(f"Polylines must contain at least 2 points - ignoring point {self.coordinates[-2]}")
-                        self.coordinates = np.delete(self.coordinates, -2, 0)  # Remove the second to last entry
-                    else:
-                        self.count_perpol.append(count - 1)
-                        closed_array.append(False)
-                    count = 1
-                    stick = line[7]
+            if not sticks or sticks[-1][0] != line[7]:
+                sticks.append((line[7], []))
+            sticks[-1][1].append([float(line[3]), float(line[4]), float(line[5])])
+        for _, points in sticks:
+            if len(points) < 2:
+                log.warning(f"Polylines must contain at least 2 points - ignoring point {points[0]}")
+        points_list = [points for _, points in sticks if len(points) >= 2]
+        self.count_perpol = [len(points) for points in points_list]
+        closed_array = [False] * len(points_list)
+        self.coordinates = np.array([p for points in points_list for p in points])
         self.count_perpol = np.array(self.count_perpol)
         if self.crs_uuid is None:  # If no crs_uuid is provided, assume the main model crs is valid
             self.crs_uuid = self.model.crs_uuid
@@ -478,10 +471,7 @@ class PolylineSet(rql_c._BasePolyline):
         polys = []
         count = 0
         for i in range(len(count_perpol)):
-            if i != len(count_perpol) - 1:
-                subset = coordinates[count:int(count_perpol[i]) + count].copy()
-            else:
-                subset = coordinates[count:int(count_perpol[i]) + count + 1].copy()  # is this correct?
+            subset = coordinates[count:int(count_perpol[i]) + count].copy()
             duplicated_end_points = np.all(np.isclose(subset[0], subset[-1])) and len(subset) > 2
             if closed_array is None:
                 isclosed = duplicated_end_points
@@ -586,12 +576,7 @@ class PolylineSet(rql_c._BasePolyline):
         """
 
         end_of_line = np.array([[999.0, 999.0, 999.0]])
-        for poly in self.polys:
-            if poly == self.polys[0]:
-                out_coords = poly.coordinates
-            else:
-                out_coords = np.concatenate((out_coords, poly.coordinates))
-            out_coords = np.concatenate((out_coords, end_of_line))
+        out_coords = np.concatenate([a for poly in self.polys for a in (poly.coordinates, end_of_line)])
         np.savetxt(file_name, out_coords, delimiter = ' ')
 
     def convert_to_charisma(self, file_name):
-- 
2.43.0


From 62af952cbc4b578e4d6dd609836b6b1c02b69d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 83/89] fix: point sets of a single point can be loaded from
 charisma and irap files

---
 resqpy/surface/_pointset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/surface/_pointset.py b/resqpy/surface/_pointset.py
index 6ed4c4c..0a98dc1 100644
--- a/resqpy/surface/_pointset.py
+++ b/resqpy/surface/_pointset.py
@@ -145,7 +145,7 @@ class PointSet(rqsb.BaseSurface):
             charisma_file: a charisma 3d interpretation file
         """
         with open(charisma_file, 'r') as surf:
-            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8')
+            cpoints = np.loadtxt(surf, usecols = (6, 7, 8), encoding = 'uft-8', ndmin = 2)
         self.add_patch(cpoints)
         assert self.crs_uuid is not None, 'crs uuid missing when establishing point set from charisma file'
         if not self.title:
@@ -160,7 +160,7 @@ class PointSet(rqsb.BaseSurface):
                 it is excluded
         """
         with open(irap_file, 'r') as points:
-            cpoints = np.loadtxt(points, encoding = 'uft-8')
+            cpoints = np.loadtxt(points, encoding = 'uft-8', ndmin = 2)
         assert len(cpoints), f'no points loaded from irap file: {irap_file}'
         assert cpoints.ndim == 2 and cpoints.shape[1] == 3
         if remove_trailing_999 and np.all(np.isclose(cpoints[-1], 999.0)):
-- 
2.43.0


From d27a8d481b54689e9c077c48761a2fa1f42f9ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:24 +0000
Subject: [PATCH 84/89] fix: points of faulted grids with parametric lines can
 be loaded first

---
 resqpy/grid/_points_functions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index f497661..99b3813 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -227,7 +227,16 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         assert hasattr(grid, 'temp_cp') and grid.temp_cp is not None and grid.temp_cp.shape == (2, pp_count, 3)
         pillar_count = pp_count
         if grid.has_split_coordinate_lines:
-            assert hasattr(grid, 'split_pillar_indices_cached') and grid.split_pillar_indices_cached is not None
+            if getattr(grid, 'split_pillar_indices_cached', None) is None:
+                split_root = grid.resolve_geometry_child('SplitCoordinateLines')
+                h5_key_pair = grid.model.h5_uuid_and_path_for_node(rqet.find_tag(split_root, 'PillarIndices'))
+                grid.model.h5_array_element(h5_key_pair,
+                                            index = None,
+                                            cache_array = True,
+                                            object = grid,
+                                            array_attribute = 'split_pillar_indices_cached',
+                                            dtype = 'int')
+            assert grid.split_pillar_indices_cached is not None
             pillar_count += grid.split_pillar_indices_cached.size
         cpp = np.empty((2, pillar_count), dtype = float)
         cpp[:, :pp_count] = grid.temp_cpp
@@ -262,6 +271,7 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         delattr(grid, 'temp_cpp')
         delattr(grid, 'temp_cp')
         delattr(grid, 'temp_parameters')
+        value = None if index is None else grid.points_cached[tuple(index)]
     else:
         raise NotImplementedError(f'grid gepmetry loading for points type: {points_type}')
     if index is None:
-- 
2.43.0


From 407f6952c7381fb1eea1e11a92e6f87ef1ccd1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:24 +0000
Subject: [PATCH 85/89] fix: coarsened local grids with varying ratios have one
 interval per coarse cell

---
 resqpy/grid/_create_grid_xml.py        | 5 +----
 resqpy/grid/_write_hdf5_from_caches.py | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/resqpy/grid/_create_grid_xml.py b/resqpy/grid/_create_grid_xml.py
index e66a787..eb055a3 100644
--- a/resqpy/grid/_create_grid_xml.py
+++ b/resqpy/grid/_create_grid_xml.py
@@ -145,10 +145,7 @@ def _create_grid_xml(grid,
             if grid.parent_window.constant_ratios[axis] is not None:
                 interval_count = 1
             else:
-                if grid.is_refinement:
-                    interval_count = grid.parent_window.coarse_extent_kji[axis]
-                else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                interval_count = grid.parent_window.coarse_extent_kji[axis]
             ic_node = rqet.SubElement(intervals_node, ns['resqml2'] + 'IntervalCount')
             ic_node.set(ns['xsi'] + 'type', ns['xsd'] + 'positiveInteger')
             ic_node.text = str(interval_count)
diff --git a/resqpy/grid/_write_hdf5_from_caches.py b/resqpy/grid/_write_hdf5_from_caches.py
index db82c3b..7bdf784 100644
--- a/resqpy/grid/_write_hdf5_from_caches.py
+++ b/resqpy/grid/_write_hdf5_from_caches.py
@@ -154,7 +154,7 @@ def __write_geometry(grid, h5_reg, use_parametric_lines):
                     pcpi = np.ones(interval_count, dtype = int)
                     ccpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                    interval_count = grid.parent_window.coarse_extent_kji[axis]
                     pcpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                     ccpi = np.ones(interval_count, dtype = int)
             h5_reg.register_dataset(grid.uuid, 'KJI'[axis] + 'Regrid/ParentCountPerInterval', pcpi)
-- 
2.43.0


From b989424d24f02292bc055572e79a74a388a6ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:35 +0000
Subject: [PATCH 86/89] fix: a failed read of an unstructured grid leaves no
 unfinished arrays behind

---
 resqpy/unstructured/_unstructured_grid.py | 32 ++++++++++++-----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index af20c72..47ba1e6 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -241,10 +241,11 @@ class UnstructuredGrid(BaseResqpy):
 
         if self.inactive is not None:
             return self.inactive
-        self.inactive = np.zeros((self.cell_count,), dtype = bool)  # ie. all active
-        self.all_inactive = False
+        inactive = np.zeros((self.cell_count,), dtype = bool)  # ie. all active
         gpc = self.extract_property_collection()
         if gpc is None:
+            self.inactive = inactive
+            self.all_inactive = False
             return self.inactive
         active_gpc = rqp.PropertyCollection()
         # note: use of bespoke (local) property kind 'active' as suggested in resqml usage guide
@@ -256,10 +257,11 @@ class UnstructuredGrid(BaseResqpy):
                 log.warning('more than one property found with bespoke kind "active", using last encountered')
             active_part = active_gpc.parts()[-1]
             active_array = active_gpc.cached_part_array_ref(active_part, dtype = 'bool')
-            self.inactive = np.logical_not(active_array)
+            inactive = np.logical_not(active_array)
             self.active_property_uuid = active_gpc.uuid_for_part(active_part)
             active_gpc.uncache_part_array(active_part)
-            self.all_inactive = np.all(self.inactive)
+        self.inactive = inactive  # only cached once any property has been successfully loaded
+        self.all_inactive = np.all(inactive)
 
         return self.inactive
 
@@ -295,16 +297,17 @@ class UnstructuredGrid(BaseResqpy):
         if self.cells_per_face is not None:
             return self.cells_per_face
         assert self.face_count is not None
-        self.cells_per_face = -np.ones((self.face_count, 2), dtype = int)  # -1 is used here as a null value
+        cells_per_face = -np.ones((self.face_count, 2), dtype = int)  # -1 is used here as a null value
         for cell in range(self.cell_count):
             for face in self.face_indices_for_cell(cell):
-                if self.cells_per_face[face, 0] == -1:
-                    self.cells_per_face[face, 0] = cell
+                if cells_per_face[face, 0] == -1:
+                    cells_per_face[face, 0] = cell
                 else:
-                    assert self.cells_per_face[face, 1] == -1, f'more than two cells use face with index {face}'
-                    self.cells_per_face[face, 1] = cell
+                    assert cells_per_face[face, 1] == -1, f'more than two cells use face with index {face}'
+                    cells_per_face[face, 1] = cell
         if check_all_faces_used:
-            assert np.all(self.cells_per_face[:, 0] >= 0), 'not all faces used by cells'
+            assert np.all(cells_per_face[:, 0] >= 0), 'not all faces used by cells'
+        self.cells_per_face = cells_per_face  # only cached once fully populated
         return self.cells_per_face
 
     def masked_cells_per_face(self, exclude_cell_mask):
@@ -419,10 +422,8 @@ class UnstructuredGrid(BaseResqpy):
         """
 
         if self.xyz_box_cached is None:
-            self.xyz_box_cached = np.empty((2, 3), dtype = float)
             p = self.points_ref()
-            self.xyz_box_cached[0] = np.min(p, axis = 0)
-            self.xyz_box_cached[1] = np.max(p, axis = 0)
+            self.xyz_box_cached = np.array([np.min(p, axis = 0), np.max(p, axis = 0)], dtype = float)
 
         return self.xyz_box_cached
 
@@ -803,9 +804,10 @@ class UnstructuredGrid(BaseResqpy):
             return None
 
         if cache_centre_array:  # calculate for all cells and cache
-            self.array_centre_point = np.empty((self.cell_count, 3))
+            centre_points = np.empty((self.cell_count, 3))
             for cell_index in range(self.cell_count):  # todo: vectorise
-                self.array_centre_point[cell_index] = self.cell_centre_point(cell_index)
+                centre_points[cell_index] = self.cell_centre_point(cell_index)
+            self.array_centre_point = centre_points  # only cached once fully populated
             if cell is None:
                 return self.array_centre_point
             else:
-- 
2.43.0


From fe7ff5e67ef41854d56496ad17e96cdd8ba19031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:35 +0000
Subject: [PATCH 87/89] fix: faces, corners and centres of unstructured grids
 can be asked for before their arrays are loaded

---
 resqpy/unstructured/_prism_grid.py        | 5 ++++-
 resqpy/unstructured/_tetra_grid.py        | 2 ++
 resqpy/unstructured/_unstructured_grid.py | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7551487..55e7df6 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -428,7 +428,8 @@ class VerticalPrismGrid(PrismGrid):
         """
 
         cp = self.corner_points(cell = cell)
-        return np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        cell_centres = np.mean(cp.reshape((-1, 6, 3)), axis = (1))
+        return cell_centres if cell is None else cell_centres[0]
 
     def corner_points(self, cell = None):
         """Returns corner points for all cells or for a single cell.
@@ -447,6 +448,7 @@ class VerticalPrismGrid(PrismGrid):
                 return self.array_corner_points
             return self.array_corner_points[cell]
 
+        self.cache_all_geometry_arrays()
         p = self.points_ref()
         if cell is None:
             cp = np.empty((self.cell_count, 2, 3, 3), dtype = float)
@@ -495,6 +497,7 @@ class VerticalPrismGrid(PrismGrid):
     def top_faces(self):
         """Returns the global face indices for the top triangular faces of the top layer of cells."""
 
+        self.cache_all_geometry_arrays()
         return self.faces_per_cell[:self.column_count() * 5].reshape(-1, 5)[:, 0]
 
     def triangulation(self):
diff --git a/resqpy/unstructured/_tetra_grid.py b/resqpy/unstructured/_tetra_grid.py
index 06795da..225020c 100644
--- a/resqpy/unstructured/_tetra_grid.py
+++ b/resqpy/unstructured/_tetra_grid.py
@@ -73,12 +73,14 @@ class TetraGrid(rug.UnstructuredGrid):
     def faces_for_cell(self, cell):
         """Returns a numpy int array of shape (4,) being the face indices for a single cell."""
 
+        self.cache_all_geometry_arrays()
         start = 4 * cell
         return self.faces_per_cell[start:start + 4]
 
     def nodes_for_face(self, face_index):
         """Returns a numpy int array of shape (3,) being the node indices for a single face."""
 
+        self.cache_all_geometry_arrays()
         start = 3 * face_index
         return self.nodes_per_face[start:start + 3]
 
diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 47ba1e6..abffaf0 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -441,6 +441,7 @@ class UnstructuredGrid(BaseResqpy):
            its barycentre
         """
 
+        self.cache_all_geometry_arrays()
         return np.mean(self.points_cached[self.node_indices_for_face(face_index)], axis = 0)
 
     def face_count_for_cell(self, cell):
-- 
2.43.0


From bf7de9ea893e221907acb42aff900c84c70bb3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:46 +0000
Subject: [PATCH 88/89] fix: a deviation survey loaded from xml knows whether
 its angles are in degrees

---
 resqpy/well/_deviation_survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 23b6264..6127c5f 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -272,6 +272,7 @@ class DeviationSurvey(BaseResqpy):
         # Load XML data
         self.md_uom = rqet.length_units_from_node(rqet.find_tag(node, 'MdUom', must_exist = True))
         self.angle_uom = rqet.find_tag_text(node, 'AngleUom', must_exist = True)
+        self.angles_in_degrees = self.angle_uom.strip().lower().startswith('deg')
         self.station_count = rqet.find_tag_int(node, 'StationCount', must_exist = True)
         self.first_station = rqwu.extract_xyz(rqet.find_tag(node, 'FirstStationLocation', must_exist = True))
         self.is_final = rqet.find_tag_bool(node, 'IsFinal')
-- 
2.43.0


From 3ef027457cdf466d121596027868d3c1b34f631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:46 +0000
Subject: [PATCH 89/89] fix: a trajectory is calculated rightly from a
 deviation survey with angles in radians

---
 resqpy/well/_trajectory.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/resqpy/well/_trajectory.py b/resqpy/well/_trajectory.py
index 624b16e..14c4f9f 100644
--- a/resqpy/well/_trajectory.py
+++ b/resqpy/well/_trajectory.py
@@ -338,11 +338,15 @@ class Trajectory(BaseResqpy):
     def __calculate_trajectory_from_inclination_and_azimuth(self, survey):
         """Calculate well trajectory from inclination and azimuth data."""
 
+        inclinations, azimuths = survey.inclinations, survey.azimuths
+        if not survey.angles_in_degrees:
+            inclinations, azimuths = np.degrees(inclinations), np.degrees(azimuths)
+
         for sp in range(1, self.knot_count):
-            i1 = survey.inclinations[sp - 1]
-            i2 = survey.inclinations[sp]
-            az1 = survey.azimuths[sp - 1]
-            az2 = survey.azimuths[sp]
+            i1 = inclinations[sp - 1]
+            i2 = inclinations[sp]
+            az1 = azimuths[sp - 1]
+            az2 = azimuths[sp]
             delta_md = survey.measured_depths[sp] - survey.measured_depths[sp - 1]
             assert delta_md > 0.0
             if i1 == i2 and az1 == az2:
-- 
2.43.0

