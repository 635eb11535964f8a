From fb77c2dede29fa3c73b8b640695b7cbe0a8b8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:00 +0000
Subject: [PATCH 01/17] fix: use the schema locations of each call when writing
 XML

NdmXmlIo kept the serializer of its first to_string/to_file call, so later
calls on the same object wrote the schema locations of the first one.
---
 ccsds_ndm/ndm_xml_io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index dbec3dc..cd50c17 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -163,12 +163,11 @@ class NdmXmlIo:
         str
             given object tree as xml string
         """
-        # lazy init serializer
-        if self.serializer is None:
-            self.__init_serializer(
-                no_namespace_schema_location=no_namespace_schema_location,
-                schema_location=schema_location,
-            )
+        # init serializer (the schema locations may differ from those of the last call)
+        self.__init_serializer(
+            no_namespace_schema_location=no_namespace_schema_location,
+            schema_location=schema_location,
+        )
 
         return self.serializer.render(ndm_obj)
 
-- 
2.43.0


From e774c5151d5339c471989c00ee3c064aa67a3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:10 +0000
Subject: [PATCH 02/17] fix: accept any path-like object as the KVN output path

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1aa9f8f..a89942f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -12,6 +12,7 @@ from copy import deepcopy
 from dataclasses import dataclass, field
 from decimal import Decimal
 from enum import Enum
+from pathlib import Path
 from typing import Any, Dict, List
 
 from lxml import etree
@@ -223,10 +224,10 @@ class NdmKvnIo:
         ----------
         ndm_obj
             input object tree
-        kvn_write_file_path : Path
-            Path of the XML file to be written
+        kvn_write_file_path : Path or AnyStr
+            Path of the KVN file to be written
         """
-        kvn_write_file_path.write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
 
     def to_string(self, ndm_obj):
         """
-- 
2.43.0


From 5cab5706e6dd9a242f8583c45367dcae0b5083fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 03/17] fix: write the only message of a combined NDM to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a89942f..29e112c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -43,7 +43,7 @@ from ccsds_ndm.models.ndmxml2 import (
     TrackingDataObservationType,
     UserDefinedType,
 )
-from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm
+from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm, _strip_multi_ndm
 
 _MinMaxTuple = namedtuple("_MinMaxTuple", ["min", "max"])
 """Data structure to keep min and max tuples."""
@@ -249,12 +249,15 @@ class NdmKvnIo:
             Combined NDM input for KVN not implemented in CCSDS NDM Standard.
         """
         # check for multi-NDM file
-        if ndm_obj.Meta.name == Ndm.Meta.name and _is_multi_ndm(ndm_obj):
-            raise NotImplementedError(
-                "NDM data appears to have more than one data set (e.g. two OPMs). "
-                "This sort of NDM output to KVN is not supported. "
-                "Try outputting to multiple files instead."
-            )
+        if ndm_obj.Meta.name == Ndm.Meta.name:
+            if _is_multi_ndm(ndm_obj):
+                raise NotImplementedError(
+                    "NDM data appears to have more than one data set (e.g. two OPMs). "
+                    "This sort of NDM output to KVN is not supported. "
+                    "Try outputting to multiple files instead."
+                )
+            # there is a single message in the NDM, write it without the NDM tags
+            ndm_obj = _strip_multi_ndm(ndm_obj)
 
         out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
         self._collate_str_out("", ndm_obj, out_str)
-- 
2.43.0


From a51b12aaeb3e4cadfdec6174df0ea49a1926d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:15 +0000
Subject: [PATCH 04/17] fix: write the quaternion derivatives to KVN

---
 ccsds_ndm/ndm_kvn_io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 29e112c..41f1fe6 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1593,19 +1593,19 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     if quat_last:
                         line.extend(
                             [
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
-                                str(rot_objects[0]["qc_dot"]),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
+                                str(rot_objects[1]["qc_dot"].value),
                             ]
                         )
                     else:
                         line.extend(
                             [
-                                str(rot_objects[0]["qc_dot"]),
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
+                                str(rot_objects[1]["qc_dot"].value),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
                             ]
                         )
             else:
-- 
2.43.0


From d23ac25fa0c56f5dae9b55fa86809013b54a02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 05/17] fix: write the angle type tracking data observations to
 KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 41f1fe6..56db294 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1624,9 +1624,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         # find element with data
 
         item_key, item_value = [
-            (k, v)
+            (k, getattr(v, "value", v))
             for k, v in vars(ndm_obj).items()
-            if isinstance(v, Decimal) and k != "epoch"
+            if v is not None and k != "epoch"
         ][0]
 
         return [
-- 
2.43.0


From d78d7f94e064ad96ecb5eaf385ea40bfdb36f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 06/17] fix: write and read the spin attitude states in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 56db294..d28a16f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -999,6 +999,13 @@ class NdmKvnIo:
             if att_type_key.endswith("RATE"):
                 kw_template.extend([self.__euler_rate_id[key] for key in eu_type_key])
 
+        if att_type_key.startswith("SPIN"):
+            kw_template.extend(
+                ["SPIN_ALPHA", "SPIN_DELTA", "SPIN_ANGLE", "SPIN_ANGLE_VEL"]
+            )
+            if att_type_key.endswith("NUTATION"):
+                kw_template.extend(["NUTATION", "NUTATION_PER", "NUTATION_PHASE"])
+
         # delete unused att types
         for att_state in att_states:
             att_state.special_data["template"] = kw_template
@@ -1610,10 +1617,13 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                         )
             else:
                 # process normally - extract values from the rot objects
+                # (a spin element holds its "value" directly)
                 line = [
                     str(getattr(elem, "value", elem))
                     for rot_obj in rot_objects
-                    for elem in rot_obj.values()
+                    for elem in (
+                        [rot_obj["value"]] if "value" in rot_obj else rot_obj.values()
+                    )
                 ]
 
             # add epoch to the beginning
-- 
2.43.0


From c9ad4c08ff6a92f078ef6f606f04b82959eaf5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 07/17] fix: recognise lower case attitude and quaternion types
 in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index d28a16f..650835c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -966,7 +966,7 @@ class NdmKvnIo:
         att_type_line_index = self._keys.index(
             "ATTITUDE_TYPE", root_ndm_elem.min_max.max
         )
-        att_type_key = self._lines[att_type_line_index][1]
+        att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
         kw_template = ["EPOCH"]
@@ -975,7 +975,7 @@ class NdmKvnIo:
             q_type_line_index = self._keys.index(
                 "QUATERNION_TYPE", root_ndm_elem.min_max.max
             )
-            q_type_key = self._lines[q_type_line_index][1]
+            q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
                 kw_template.extend(["QC", "Q1", "Q2", "Q3"])
@@ -1571,7 +1571,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
                 ).split("=")[-1]
 
-                quat_last = True if quat_type.strip().startswith("LAST") else False
+                quat_last = True if quat_type.strip().upper().startswith("LAST") else False
 
                 if quat_last:
                     line = [
-- 
2.43.0


From 27ad03aedb20dc83a93940b424fe4b9b2d6926d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:28 +0000
Subject: [PATCH 08/17] fix: read the reference frame of the OEM covariance
 matrix from KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 650835c..93514c4 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -935,8 +935,8 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
             # Stacked covariance data
-            datalines = [line[0].split() for line in lines if not line[0].isalpha()]
-            kvnlines = [line for line in lines if line[0].isalpha()]
+            datalines = [line[0].split() for line in lines if line[0] not in kw_list]
+            kvnlines = [line for line in lines if line[0] in kw_list]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
             synth_lines = list(zip(kw_list[3:], data_list))
-- 
2.43.0


From 07015b5309ae7a1d4afcf6a20477d5155f804747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:32 +0000
Subject: [PATCH 09/17] fix: write the OEM covariance comments with the COMMENT
 keyword

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 93514c4..a849b1a 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1646,7 +1646,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is OemCovarianceMatrixType:
         lines = []
         # comment line
-        lines.extend([_fill_str_out_kvn(key, comment) for comment in ndm_obj.comment])
+        lines.extend(
+            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
+        )
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-- 
2.43.0


From cdec84ddeaa9ac8ce15de36c301f0cd3c9df6776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 10/17] fix: keep the comments and the full names of user
 defined parameters in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index a849b1a..01d3569 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1392,8 +1392,11 @@ def _xmlify_list(root_tag, item_list, prefix=None):
 
     if prefix:
         for item in item_list:
-            child = etree.Element(prefix)
-            child.attrib["parameter"] = item[0].replace(prefix + "_", "")
+            if item[0] == "COMMENT":
+                child = etree.Element(item[0])
+            else:
+                child = etree.Element(prefix)
+                child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
             child.text = item[1]
             root.append(child)
     else:
-- 
2.43.0


From 9a757bd8e54c1cd58385fe0667a2486e0f784e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:38 +0000
Subject: [PATCH 11/17] fix: identify the tracking data observations with their
 keywords

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 01d3569..fbb5dbc 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1122,11 +1122,8 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
 
     elif root_ndm_elem.clazz is TrackingDataObservationType:
 
-        # is this a valid date string? take the first element
-        datestr = lines[init_index][1].split()[0]
-
-        # can be of format "2007-075T16:50:01" or normal ISO string
-        if datestr[:4].isnumeric() and datestr[4] == "-":
+        # is this an observation keyword (rather than a comment or the next segment)?
+        if keys[init_index] in root_ndm_elem.kw_list:
             root_min_max = _MinMaxTuple(init_index, init_index + 1)
         else:
             # line is not of correct type, just skip it
-- 
2.43.0


From 0155b04f53daed5dd5f68f1df7bf4547cb585f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:41 +0000
Subject: [PATCH 12/17] fix: do not read the KVN data of a segment as part of
 the previous one

---
 ccsds_ndm/ndm_kvn_io.py | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index fbb5dbc..8b14742 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -757,9 +757,15 @@ class NdmKvnIo:
             else:
                 clean_obj = deepcopy(subclass)
 
+            # do not look for the lines of this element beyond the start of the next one
+            elem_keys, elem_lines = keys, lines
+            end_index = _get_list_elem_end(clean_obj, keys, init_index)
+            if end_index is not None:
+                elem_keys, elem_lines = keys[:end_index], lines[:end_index]
+
             # identify subclasses and find limits
             max_index, subclass_min_max = self.__identify_sub_segments(
-                clean_obj, keys, lines, init_index
+                clean_obj, elem_keys, elem_lines, init_index
             )
 
             if max_index == subclass_min_max.min == subclass_min_max.max:
@@ -1202,6 +1208,39 @@ def _is_class(field_name):
     return True
 
 
+def _get_list_elem_end(ndm_elem, keys, start_index):
+    """
+    Finds where the list element (e.g. a segment) starting at `start_index` ends: at the
+    start of the first block that repeats (with the comments right before this block).
+
+    Returns
+    -------
+    index : int or None
+        Index where the next element starts, `None` if this is the last one
+        (or if the element is a single block)
+    """
+    if (
+        not ndm_elem.subclass_list
+        or ndm_elem.clazz in _special_identification_classes
+    ):
+        return None
+
+    first_tags = set(ndm_elem.subclass_list[0].kw_list) - {"COMMENT"}
+
+    in_first_block = True
+    for i in range(start_index, len(keys)):
+        if keys[i] in first_tags:
+            if not in_first_block:
+                # this is the next element, its comments come before its first tag
+                while keys[i - 1] == "COMMENT":
+                    i -= 1
+                return i
+        elif keys[i] != "COMMENT":
+            in_first_block = False
+
+    return None
+
+
 def _get_index(key, keys, *args):
     """
     Gets the first index belonging to the `key`.
-- 
2.43.0


From f58fe3534e7682cd1de0503f553a012b059106b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 13/17] fix: keep all comments at the beginning of the KVN data
 blocks

---
 ccsds_ndm/ndm_kvn_io.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 8b14742..444c49d 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -639,6 +639,7 @@ class NdmKvnIo:
                 keys,
                 prefix=prefix,
                 single_elem=root_ndm_elem.single_elem,
+                all_comments=_owns_all_comments(root_ndm_elem),
             )
 
         # set index to end of keywords
@@ -1290,7 +1291,17 @@ def _get_ccsds_kw_list(clazz):
         return []
 
 
-def __process_comment_lines(tags, start_index, keys, index_list):
+def _owns_all_comments(ndm_elem):
+    """
+    Checks whether all comments at the beginning of `ndm_elem` have to be its own: true
+    if the first sub-element (e.g. the data lines of an AEM) cannot contain comments.
+    """
+    return bool(ndm_elem.subclass_list) and (
+        "COMMENT" not in ndm_elem.subclass_list[0].kw_list
+    )
+
+
+def __process_comment_lines(tags, start_index, keys, index_list, all_comments=False):
     """
     Process comments with the following algorithm:
         1. If there are no COMMENT tags in the class, skip processing
@@ -1304,8 +1315,12 @@ def __process_comment_lines(tags, start_index, keys, index_list):
     if "COMMENT" in tags:
         if len(tags) == 1:
             # no tags, this is a header sort of class, claim just one COMMENT tag, if available
-            if keys[start_index] == "COMMENT":
-                index_list.extend([start_index])
+            # (or all of them, if they cannot belong to the next block)
+            while start_index < len(keys) and keys[start_index] == "COMMENT":
+                index_list.append(start_index)
+                start_index += 1
+                if not all_comments:
+                    break
 
         elif len(index_list) > 0:
             # some data is available, claim all comments between start_index and max_index
@@ -1321,7 +1336,9 @@ def __process_comment_lines(tags, start_index, keys, index_list):
             index_list.extend(comment_indexes)
 
 
-def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None):
+def _get_min_max_indices(
+    tags, start_index, keys, prefix=None, single_elem=None, all_comments=False
+):
     """
     Gets the min/max indices of the section.
 
@@ -1346,7 +1363,7 @@ def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None)
     ]
 
     # add all comment lines
-    __process_comment_lines(tags, start_index, keys, index_list)
+    __process_comment_lines(tags, start_index, keys, index_list, all_comments)
 
     # check for non-consecutive data and chop them if necessary
     if index_list:
-- 
2.43.0


From 3fe8edc58ed95728b5808fa1b98e6a6fa7e4cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:34 +0000
Subject: [PATCH 14/17] fix: keep the user defined parameters with repeated
 names in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 444c49d..f9bce38 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1362,6 +1362,14 @@ def _get_min_max_indices(
         index_name[1] for index_name in index_named_list if index_name[1] is not None
     ]
 
+    if prefix:
+        # the same parameter name can be used more than once, take all of them
+        index_list = [
+            idx
+            for idx, key in enumerate(keys[start_index:], start=start_index)
+            if key.startswith(prefix)
+        ]
+
     # add all comment lines
     __process_comment_lines(tags, start_index, keys, index_list, all_comments)
 
-- 
2.43.0


From ebc85c69e1bcf690b3b98a793db97a1c573a0849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:08 +0000
Subject: [PATCH 15/17] fix: separate the epoch and value of the KVN tracking
 data

---
 ccsds_ndm/ndm_kvn_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index f9bce38..7a6ef24 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1522,7 +1522,8 @@ def _fill_str_out_multi_kvn(key, value1, value2):
     """
 
     # standard 'key = value' pair or similar (e.g. comment)
-    new_line = f"{key.upper():<20} = {str(value1):<30}{str(value2)} "
+    # (the values are separated with at least one space)
+    new_line = f"{key.upper():<20} = {str(value1) + ' ':<30}{str(value2)} "
 
     return new_line
 
-- 
2.43.0


From 8736e4971bcd145815c2d1dfb196623d59d94811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:30 +0000
Subject: [PATCH 16/17] fix: recognise tab separated KVN data lines between two
 covariance matrices

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 7a6ef24..22d7fbe 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1383,7 +1383,7 @@ def _get_min_max_indices(
         # or it has numerical data in between (which is separated by spaces).
         # If latter case holds, delete the numerical data and the rest.
         if diff_list:
-            containing_spaces = any(" " in keys[n] for n in diff_list)
+            containing_spaces = any(len(keys[n].split()) > 1 for n in diff_list)
 
             # find repeating data
             diff_list_keys = [keys[i] for i in diff_list]
-- 
2.43.0


From abf945b9fa0472eaa0f6213e51af281da0d631a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:39 +0000
Subject: [PATCH 17/17] fix: read and write files in UTF-8 whatever the locale

---
 ccsds_ndm/ndm_io.py     | 2 +-
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 ccsds_ndm/ndm_xml_io.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 0bbcbde..88a73c9 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -45,7 +45,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(input_file_path).read_text()
+        file_contents = Path(input_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 22d7fbe..245ed24 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -176,7 +176,7 @@ class NdmKvnIo:
         object
             Object tree from the file contents
         """
-        with open(kvn_read_file_path, "r") as f:
+        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
             kvn_source = f.read()
 
         return self.from_string(kvn_source)
@@ -227,7 +227,7 @@ class NdmKvnIo:
         kvn_write_file_path : Path or AnyStr
             Path of the KVN file to be written
         """
-        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj), encoding="utf-8")
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index cd50c17..ecca6db 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -81,7 +81,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(xml_read_file_path).read_text()
+        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -197,7 +197,7 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt)
+        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
 
     def __init_parser(self):
         """
-- 
2.43.0

