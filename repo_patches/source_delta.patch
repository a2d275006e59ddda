From bb5ecdb391b6d5c4c6ced0a44d7d2f7e441b67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:41 +0000
Subject: [PATCH 01/48] fix: KVN output of AEM QUATERNION/DERIVATIVE data
 looked up the rates in the quaternion

---
 ccsds_ndm/ndm_kvn_io.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1aa9f8f..3318282 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1589,19 +1589,19 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     if quat_last:
                         line.extend(
                             [
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
-                                str(rot_objects[0]["qc_dot"]),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
+                                str(rot_objects[1]["qc_dot"].value),
                             ]
                         )
                     else:
                         line.extend(
                             [
-                                str(rot_objects[0]["qc_dot"]),
-                                str(rot_objects[0]["q1_dot"]),
-                                str(rot_objects[0]["q2_dot"]),
-                                str(rot_objects[0]["q3_dot"]),
+                                str(rot_objects[1]["qc_dot"].value),
+                                str(rot_objects[1]["q1_dot"].value),
+                                str(rot_objects[1]["q2_dot"].value),
+                                str(rot_objects[1]["q3_dot"].value),
                             ]
                         )
             else:
-- 
2.43.0


From d6a8064d26e098e0346ebe320eb34788c6920552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:58 +0000
Subject: [PATCH 02/48] fix: KVN read and write of AEM SPIN and SPIN/NUTATION
 data lost or garbled the columns

---
 ccsds_ndm/ndm_kvn_io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 3318282..4bbdff5 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -995,6 +995,13 @@ class NdmKvnIo:
             if att_type_key.endswith("RATE"):
                 kw_template.extend([self.__euler_rate_id[key] for key in eu_type_key])
 
+        if att_type_key.startswith("SPIN"):
+            kw_template.extend(
+                ["SPIN_ALPHA", "SPIN_DELTA", "SPIN_ANGLE", "SPIN_ANGLE_VEL"]
+            )
+            if att_type_key.endswith("NUTATION"):
+                kw_template.extend(["NUTATION", "NUTATION_PER", "NUTATION_PHASE"])
+
         # delete unused att types
         for att_state in att_states:
             att_state.special_data["template"] = kw_template
@@ -1546,9 +1553,10 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         if att_obj:
             quaternion = True if str(att_obj[0]).startswith("Quaternion") else False
 
-            # extract rot objects
+            # extract rot objects (spin data are "value and units" pairs,
+            # only the value is part of the line)
             rot_objects = [
-                vars(rot_obj)
+                {att_key: rot_obj} if hasattr(rot_obj, "value") else vars(rot_obj)
                 for att_key, rot_obj in vars(att_obj[0]).items()
                 if att_key != "epoch"
             ]
-- 
2.43.0


From 2959df7d879c5b3fbcbbfb787d098518f9bc06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 03/48] fix: lower case ATTITUDE_TYPE and QUATERNION_TYPE
 values in AEM KVN files were misread

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 4bbdff5..7924706 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -962,7 +962,8 @@ class NdmKvnIo:
         att_type_line_index = self._keys.index(
             "ATTITUDE_TYPE", root_ndm_elem.min_max.max
         )
-        att_type_key = self._lines[att_type_line_index][1]
+        # the standard allows both upper and lower case values
+        att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
 
         kw_template = ["EPOCH"]
@@ -971,7 +972,7 @@ class NdmKvnIo:
             q_type_line_index = self._keys.index(
                 "QUATERNION_TYPE", root_ndm_elem.min_max.max
             )
-            q_type_key = self._lines[q_type_line_index][1]
+            q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
                 kw_template.extend(["QC", "Q1", "Q2", "Q3"])
@@ -1568,7 +1569,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                     x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
                 ).split("=")[-1]
 
-                quat_last = True if quat_type.strip().startswith("LAST") else False
+                quat_last = True if quat_type.strip().upper() == "LAST" else False
 
                 if quat_last:
                     line = [
-- 
2.43.0


From 54418c5bb9a36ce1ff1a1e4d92b15be7634508a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 04/48] fix: COV_REF_FRAME in OEM KVN files was read as a
 covariance element

---
 ccsds_ndm/ndm_kvn_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 7924706..2726b76 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -931,8 +931,9 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is OemCovarianceMatrixType:
             # Stacked covariance data
-            datalines = [line[0].split() for line in lines if not line[0].isalpha()]
-            kvnlines = [line for line in lines if line[0].isalpha()]
+            # (data lines are the ones without a keyword)
+            datalines = [line[0].split() for line in lines if len(line) == 1]
+            kvnlines = [line for line in lines if len(line) > 1]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
             synth_lines = list(zip(kw_list[3:], data_list))
-- 
2.43.0


From 620862fbdd163fbc0cb07f26b16e92caac02ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 05/48] fix: OEM covariance comments were written as
 COVARIANCE_MATRIX lines in KVN

---
 ccsds_ndm/ndm_kvn_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 2726b76..e4b017f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1642,7 +1642,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is OemCovarianceMatrixType:
         lines = []
         # comment line
-        lines.extend([_fill_str_out_kvn(key, comment) for comment in ndm_obj.comment])
+        lines.extend(
+            [_fill_str_out_kvn("comment", comment) for comment in ndm_obj.comment]
+        )
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-- 
2.43.0


From 00c48d62026b6a24b3eccdbbfcbc150288145c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:46 +0000
Subject: [PATCH 06/48] fix: TDM KVN data with a long epoch ran together with
 its value

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index e4b017f..3a27c0b 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1456,7 +1456,7 @@ def _fill_str_out_multi_kvn(key, value1, value2):
     """
 
     # standard 'key = value' pair or similar (e.g. comment)
-    new_line = f"{key.upper():<20} = {str(value1):<30}{str(value2)} "
+    new_line = f"{key.upper():<20} = {str(value1):<29} {str(value2)} "
 
     return new_line
 
-- 
2.43.0


From 44dcb30447bf74c290ffe10a948b4eeb1556902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:49 +0000
Subject: [PATCH 07/48] fix: KVN output of TDM angle observations raised
 IndexError

---
 ccsds_ndm/ndm_kvn_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 3a27c0b..85137c4 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1629,10 +1629,11 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     if type(ndm_obj) is TrackingDataObservationType:
         # find element with data
 
+        # (angles are "value and units" pairs, only the value is part of the line)
         item_key, item_value = [
-            (k, v)
+            (k, getattr(v, "value", v))
             for k, v in vars(ndm_obj).items()
-            if isinstance(v, Decimal) and k != "epoch"
+            if v is not None and k != "epoch"
         ][0]
 
         return [
-- 
2.43.0


From 8d83289dc71b18bf77358f80ece05c05ed0af15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:50 +0000
Subject: [PATCH 08/48] fix: optional KVN keywords missing in a segment were
 taken from the next segment

---
 ccsds_ndm/ndm_kvn_io.py | 48 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 85137c4..4a51510 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -200,6 +200,9 @@ class NdmKvnIo:
         #  Identify data type
         ndm_class = _identify_data_type(self._lines)
 
+        # Keep the start of each segment, a segment ends where the next one starts
+        self._segment_starts = _find_segment_starts(ndm_class, self._lines)
+
         # Delete unnecessary keywords if necessary
         if ndm_class in _deleted_keywords.keys():
             deleted_keys = _deleted_keywords.get(ndm_class)
@@ -744,9 +747,17 @@ class NdmKvnIo:
 
         subclass_list = []
 
+        all_keys, all_lines = keys, lines
+
         # loop as long as there is a next element that belongs to the list
         while has_elements:
 
+            if subclass.name == "segment":
+                # do not look beyond the end of this segment
+                next_starts = [i for i in self._segment_starts if i >= init_index][1:]
+                limit = next_starts[0] if next_starts else len(all_lines)
+                keys, lines = all_keys[:limit], all_lines[:limit]
+
             # start with a clean object with the subclass type
             if subclass.subclass_list:
                 clean_obj = self._extract_object_submap(subclass.name, subclass.clazz)
@@ -773,7 +784,7 @@ class NdmKvnIo:
                 last_max_index = max_index
                 subclass_list.append(clean_obj)
 
-                if max_index >= len(lines):
+                if max_index >= len(all_lines):
                     # End of file reached, stop the while loop
                     has_elements = False
 
@@ -1074,6 +1085,41 @@ def _identify_data_type(kvn_source):
     return data_type
 
 
+def _find_segment_starts(ndm_class, lines):
+    """
+    Finds where the segments start, once the unnecessary keywords are deleted.
+
+    Parameters
+    ----------
+    ndm_class
+        Root class of type Omm, Aem, Cdm etc.
+    lines : List[List[str]]
+        NDM Data as list of KVN strings
+
+    Returns
+    -------
+    list[int]
+        Indices of the first lines (comments included) of the segments
+    """
+    deleted_keys = _deleted_keywords.get(ndm_class, [])
+    starts = []
+    index = 0
+    comments = 0
+
+    for line in lines:
+        if line[0] == "META_START":
+            starts.append(index)
+        elif ndm_class is Cdm and line[0] == "OBJECT":
+            # there is no META_START in CDM, comments come before the first keyword
+            starts.append(index - comments)
+
+        comments = comments + 1 if line[0] == "COMMENT" else 0
+        if line[0] not in deleted_keys:
+            index += 1
+
+    return starts
+
+
 def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefix=None):
     """Identifies the segments of the special objects, as defined in
     `_special_identification_classes`.
-- 
2.43.0


From e3ae35f75bdbd0ac6fa3051d893a059ed4608501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 09/48] fix: AEM, OEM and TDM KVN data after more than one
 comment line were lost

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 4a51510..25fcb22 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -29,6 +29,7 @@ from ccsds_ndm.models.ndmxml2 import (
     Ndm,
     Oem,
     OemCovarianceMatrixType,
+    OemData,
     OemMetadata,
     Omm,
     Opm,
@@ -640,6 +641,13 @@ class NdmKvnIo:
                 single_elem=root_ndm_elem.single_elem,
             )
 
+        if root_ndm_elem.clazz in [AemData, OemData, TdmData]:
+            # data lines do not have comments of their own, claim all comments here
+            max_index = root_min_max.max
+            while keys[max_index : max_index + 1] == ["COMMENT"]:
+                max_index += 1
+            root_min_max = _MinMaxTuple(root_min_max.min, max_index)
+
         # set index to end of keywords
         init_index = root_min_max.max
         max_index = init_index
-- 
2.43.0


From 33009ef58c9b4ff8bec32385989a8e585f46b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 10/48] fix: APM KVN files without Euler elements were read
 with empty ones

---
 ccsds_ndm/ndm_kvn_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 25fcb22..715bbe3 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -886,8 +886,10 @@ class NdmKvnIo:
         ndm_object = parser.from_bytes(xml_data, root_ndm_elem.clazz)
 
         # fill lower level objects
+        is_empty = not local_lines and bool(root_ndm_elem.subclass_list)
         for subclass in root_ndm_elem.subclass_list:
             subobject = self.__build_object_tree(subclass, full_lines, parser)
+            is_empty = is_empty and subobject is None
             if isinstance(getattr(ndm_object, subclass.name), list):
                 if subobject:
                     # this is a list, add the new element
@@ -896,7 +898,8 @@ class NdmKvnIo:
                 # this is not a list, just replace the data
                 setattr(ndm_object, subclass.name, subobject)
 
-        return ndm_object
+        # neither the item nor its subclasses have any content, just skip it
+        return None if is_empty else ndm_object
 
     __att_types = {
         "QUATERNION": "quaternion_state",
-- 
2.43.0


From 31c6d383bddd14618c3b400ad074b79c23d2dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:02 +0000
Subject: [PATCH 11/48] fix: text in square brackets at the end of KVN text
 values was dropped as a unit

---
 ccsds_ndm/ndm_kvn_io.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 715bbe3..dd7479f 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -445,7 +445,12 @@ class NdmKvnIo:
                 if len(line) == 2 and line[1].rstrip().endswith("]"):
                     text = line[1]
                     splitter_index = line[1].find("[")
-                    if splitter_index >= 0:
+                    # only numbers have units, do not chop texts like "ISS [ZARYA]"
+                    if (
+                        splitter_index >= 0
+                        and _is_number(text[0:splitter_index])
+                        and not line[0].startswith("USER_DEFINED")
+                    ):
                         line[1] = text[0:splitter_index]
                         # strip square braces
                         unit = text[splitter_index:].replace("[", "").replace("]", "")
@@ -1225,6 +1230,17 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
         )
 
 
+def _is_number(text):
+    """
+    Returns `True` if `text` is a number.
+    """
+    try:
+        float(text)
+        return True
+    except ValueError:
+        return False
+
+
 def _is_list(field_name):
     """
     Returns `True` if `field_name.default_factory` is of the type list.
-- 
2.43.0


From e7b4cd02563d65571a648899ee83776da3313a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:05 +0000
Subject: [PATCH 12/48] fix: USER_DEFINED_ within a user defined parameter name
 was deleted on KVN read

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index dd7479f..236b4f8 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1464,7 +1464,7 @@ def _xmlify_list(root_tag, item_list, prefix=None):
     if prefix:
         for item in item_list:
             child = etree.Element(prefix)
-            child.attrib["parameter"] = item[0].replace(prefix + "_", "")
+            child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
             child.text = item[1]
             root.append(child)
     else:
-- 
2.43.0


From 721709f8606fe550570ba8691bd67480d90e714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:29 +0000
Subject: [PATCH 13/48] fix: truncated or malformed XML files were silently
 read in part

---
 ccsds_ndm/ndm_xml_io.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index dbec3dc..87156f8 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -11,6 +11,7 @@ CCSDS Navigation Data Messages XML File I/O.
 import xml.etree.ElementTree as ElementTree
 from enum import Enum
 from pathlib import Path
+from xml.parsers import expat
 
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
@@ -254,6 +255,9 @@ def _identify_data_type(xml_source):
         # find data type
         data_type = _NdmDataType.find_element(root.tag).clazz
     except (ElementTree.ParseError, AttributeError):
+        # the parser would recover what it can from a malformed file and drop the rest
+        _check_well_formed(xml_source)
+
         # auto identify failed, try NDM (Combined Instantiation)
         ndm_combi = True
         data_type = Ndm
@@ -261,6 +265,27 @@ def _identify_data_type(xml_source):
     return data_type, ndm_combi
 
 
+def _check_well_formed(xml_source):
+    """
+    Checks whether the XML data is well-formed, except for prefixes without
+    a namespace declaration (e.g. `xsi`), as they are common in NDM files.
+
+    Parameters
+    ----------
+    xml_source : str
+        NDM Data as XML string
+
+    Raises
+    ------
+    ValueError
+        XML data is malformed or truncated.
+    """
+    try:
+        expat.ParserCreate().Parse(xml_source, True)
+    except expat.ExpatError as err:
+        raise ValueError(f"XML data is not well-formed: {err}") from err
+
+
 def _strip_multi_ndm(ndm):
     """
     Identifies whether the Combined Instantiation NDM actually contains
-- 
2.43.0


From 19568548e4d48a16c3005c9b710c3b61467d2045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 14/48] fix: KVN to_file did not accept a path given as a
 string

---
 ccsds_ndm/ndm_kvn_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 236b4f8..01cf67c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -12,6 +12,7 @@ from copy import deepcopy
 from dataclasses import dataclass, field
 from decimal import Decimal
 from enum import Enum
+from pathlib import Path
 from typing import Any, Dict, List
 
 from lxml import etree
@@ -227,10 +228,10 @@ class NdmKvnIo:
         ----------
         ndm_obj
             input object tree
-        kvn_write_file_path : Path
-            Path of the XML file to be written
+        kvn_write_file_path : Path or AnyStr
+            Path of the KVN file to be written
         """
-        kvn_write_file_path.write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
 
     def to_string(self, ndm_obj):
         """
-- 
2.43.0


From 538357477e5172ca25c120fba41891633ff4c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:24 +0000
Subject: [PATCH 15/48] fix: KVN output of an NDM with a single element raised
 AttributeError

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 01cf67c..9adfc85 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -44,7 +44,7 @@ from ccsds_ndm.models.ndmxml2 import (
     TrackingDataObservationType,
     UserDefinedType,
 )
-from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm
+from ccsds_ndm.ndm_xml_io import NdmXmlIo, _is_multi_ndm, _strip_multi_ndm
 
 _MinMaxTuple = namedtuple("_MinMaxTuple", ["min", "max"])
 """Data structure to keep min and max tuples."""
@@ -260,6 +260,10 @@ class NdmKvnIo:
                 "Try outputting to multiple files instead."
             )
 
+        # strip the ndm tags if there is a single element
+        if ndm_obj.Meta.name == Ndm.Meta.name:
+            ndm_obj = _strip_multi_ndm(ndm_obj)
+
         out_str = [_fill_str_out_kvn(ndm_obj.id, ndm_obj.version)]
         self._collate_str_out("", ndm_obj, out_str)
 
-- 
2.43.0


From 2f47752d89e962caeebb0af2831109165a840ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 16/48] fix: schema locations of the first XML output were used
 for all later ones

---
 ccsds_ndm/ndm_xml_io.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 87156f8..723f170 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -164,12 +164,11 @@ class NdmXmlIo:
         str
             given object tree as xml string
         """
-        # lazy init serializer
-        if self.serializer is None:
-            self.__init_serializer(
-                no_namespace_schema_location=no_namespace_schema_location,
-                schema_location=schema_location,
-            )
+        # init serializer, the schema locations are valid for this call only
+        self.__init_serializer(
+            no_namespace_schema_location=no_namespace_schema_location,
+            schema_location=schema_location,
+        )
 
         return self.serializer.render(ndm_obj)
 
-- 
2.43.0


From 75a1fbc4a33bbd6bc662b19122591bd4b1e7758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 17/48] fix: files were read and written in the encoding of the
 locale instead of UTF-8

---
 ccsds_ndm/ndm_io.py     | 2 +-
 ccsds_ndm/ndm_kvn_io.py | 6 ++++--
 ccsds_ndm/ndm_xml_io.py | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 0bbcbde..88a73c9 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -45,7 +45,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(input_file_path).read_text()
+        file_contents = Path(input_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 9adfc85..336a1a8 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -177,7 +177,7 @@ class NdmKvnIo:
         object
             Object tree from the file contents
         """
-        with open(kvn_read_file_path, "r") as f:
+        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
             kvn_source = f.read()
 
         return self.from_string(kvn_source)
@@ -231,7 +231,9 @@ class NdmKvnIo:
         kvn_write_file_path : Path or AnyStr
             Path of the KVN file to be written
         """
-        Path(kvn_write_file_path).write_text(self.to_string(ndm_obj))
+        Path(kvn_write_file_path).write_text(
+            self.to_string(ndm_obj), encoding="utf-8"
+        )
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 723f170..5e125e5 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -82,7 +82,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(xml_read_file_path).read_text()
+        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -198,7 +198,7 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt)
+        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
 
     def __init_parser(self):
         """
-- 
2.43.0


From 0069f2f4a56d60327a3bf075651a802f62d33a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:07 +0000
Subject: [PATCH 18/48] fix: files and bytes starting with a UTF-8 byte order
 mark were rejected

---
 ccsds_ndm/ndm_io.py     | 4 ++--
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 ccsds_ndm/ndm_xml_io.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 88a73c9..c081cd4 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -45,7 +45,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(input_file_path).read_text(encoding="utf-8")
+        file_contents = Path(input_file_path).read_text(encoding="utf-8-sig")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -65,7 +65,7 @@ class NdmIo:
             NDM Object tree from the file contents
         """
         # decode bytes and parse as `from_string()`
-        return self.from_string(ndm_data_source.decode())
+        return self.from_string(ndm_data_source.decode("utf-8-sig"))
 
     def from_string(self, ndm_data_source):
         """
diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 336a1a8..bbe1993 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -177,7 +177,7 @@ class NdmKvnIo:
         object
             Object tree from the file contents
         """
-        with open(kvn_read_file_path, "r", encoding="utf-8") as f:
+        with open(kvn_read_file_path, "r", encoding="utf-8-sig") as f:
             kvn_source = f.read()
 
         return self.from_string(kvn_source)
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 5e125e5..b0f5bf0 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -82,7 +82,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # read file contents as text
-        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8")
+        file_contents = Path(xml_read_file_path).read_text(encoding="utf-8-sig")
 
         # parse as `from_string()`
         return self.from_string(file_contents)
@@ -102,7 +102,7 @@ class NdmXmlIo:
             Object tree from the file contents
         """
         # decode bytes and parse as `from_string()`
-        return self.from_string(xml_source.decode())
+        return self.from_string(xml_source.decode("utf-8-sig"))
 
     def from_string(self, xml_source):
         """
-- 
2.43.0


From 237b0e222d004123c4308b8ebee43b87f7fbfbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:50 +0000
Subject: [PATCH 19/48] fix: XML strings declaring an encoding other than UTF-8
 were read as garbage

---
 ccsds_ndm/ndm_xml_io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index b0f5bf0..a5c3f15 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -8,6 +8,7 @@ CCSDS Navigation Data Messages XML File I/O.
 
 """
 
+import re
 import xml.etree.ElementTree as ElementTree
 from enum import Enum
 from pathlib import Path
@@ -122,6 +123,11 @@ class NdmXmlIo:
         if self.parser is None:
             self.__init_parser()
 
+        # the text is decoded already, the encoding it declares no longer applies
+        xml_source = re.sub(
+            r"""^(<\?xml\s[^>]*?)\s+encoding\s*=\s*["'][^"']*["']""", r"\1", xml_source
+        )
+
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
-- 
2.43.0


From 6a24f8a53b17f26a7d4cf968f5556baf93908e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:30 +0000
Subject: [PATCH 20/48] fix: user defined parameters with a repeated name were
 lost on KVN read

---
 ccsds_ndm/ndm_kvn_io.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index bbe1993..afe2d47 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1387,6 +1387,14 @@ def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None)
         index_name[1] for index_name in index_named_list if index_name[1] is not None
     ]
 
+    if prefix:
+        # the same key may occur more than once
+        index_list = [
+            i
+            for i, key in enumerate(keys[start_index:], start=start_index)
+            if key.startswith(prefix)
+        ]
+
     # add all comment lines
     __process_comment_lines(tags, start_index, keys, index_list)
 
-- 
2.43.0


From 74ca66ce4d4e3db15afdf85aedc54843a661d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:39 +0000
Subject: [PATCH 21/48] fix: keep the text of XML elements that contain
 processing instructions

The parser ended the text of an element at the first processing instruction,
so that the rest of the value was silently dropped.
---
 ccsds_ndm/ndm_xml_io.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index a5c3f15..b16a982 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -14,6 +14,7 @@ from enum import Enum
 from pathlib import Path
 from xml.parsers import expat
 
+from lxml import etree
 from xsdata.formats.dataclass.parsers import XmlParser
 from xsdata.formats.dataclass.parsers.config import ParserConfig
 from xsdata.formats.dataclass.serializers import XmlSerializer
@@ -131,7 +132,15 @@ class NdmXmlIo:
         # Identify data type of the string (Oem, Apm etc.)
         data_type, ndm_combi = _identify_data_type(xml_source)
 
-        ndm = self.parser.from_string(xml_source)
+        # processing instructions are not part of the data, the parser would cut the
+        # text at them
+        root = etree.fromstring(
+            xml_source.encode(),
+            etree.XMLParser(
+                recover=True, remove_comments=True, remove_pis=True, huge_tree=True
+            ),
+        )
+        ndm = self.parser.parse(root)
 
         # if the file is NDM, downcast the elements to their respective subclasses
         if isinstance(ndm, Ndm):
-- 
2.43.0


From 87a09e667e203e2dc66ab20821f0d1ab24b02ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 22/48] fix: refuse XML with references to external or
 undeclared entities

Their content is not available, it was dropped from the values silently.
---
 ccsds_ndm/ndm_xml_io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index b16a982..b52eb7b 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -292,10 +292,18 @@ def _check_well_formed(xml_source):
     Raises
     ------
     ValueError
-        XML data is malformed or truncated.
+        XML data is malformed, truncated or refers to external entities.
     """
+
+    def refuse_entity(*args):
+        # the content is not available and must not be dropped silently
+        raise ValueError("XML data refers to external or undeclared entities")
+
+    parser = expat.ParserCreate()
+    parser.ExternalEntityRefHandler = refuse_entity
+    parser.SkippedEntityHandler = refuse_entity
     try:
-        expat.ParserCreate().Parse(xml_source, True)
+        parser.Parse(xml_source, True)
     except expat.ExpatError as err:
         raise ValueError(f"XML data is not well-formed: {err}") from err
 
-- 
2.43.0


From ee2379bc03e82fc7f5dbfc4ba3ccb9a6e1153a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:00 +0000
Subject: [PATCH 23/48] fix: keep KVN text values that are a number followed by
 brackets

A text value like "42 [A]" was split as if it were a number with a unit.
---
 ccsds_ndm/ndm_kvn_io.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index afe2d47..5d566db 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -461,7 +461,8 @@ class NdmKvnIo:
                         line[1] = text[0:splitter_index]
                         # strip square braces
                         unit = text[splitter_index:].replace("[", "").replace("]", "")
-                        line.append(unit)
+                        # keep the full text, it is not known yet whether this is a number
+                        line.extend([unit, text])
 
             # finally, strip each element of spaces
             line = [item.strip() for item in line]
@@ -860,6 +861,13 @@ class NdmKvnIo:
         local_lines = full_lines[root_ndm_elem.min_max.min : root_ndm_elem.min_max.max]
         kw_list = root_ndm_elem.kw_list
 
+        # only numbers have units, do not chop texts like "42 [A]"
+        text_keys = _get_text_kw_list(root_ndm_elem.clazz)
+        local_lines = [
+            [line[0], line[3]] if len(line) > 3 and line[0] in text_keys else line
+            for line in local_lines
+        ]
+
         if not local_lines and not root_ndm_elem.subclass_list:
             # item has no subclasses and no content, just skip it
             return None
@@ -1332,6 +1340,17 @@ def _get_ccsds_kw_list(clazz):
         return []
 
 
+def _get_text_kw_list(clazz):
+    """
+    Extracts and returns the keywords with plain text values from the class `clazz`.
+    """
+    return [
+        var.metadata["name"]
+        for var in getattr(clazz, "__dataclass_fields__", {}).values()
+        if "name" in var.metadata.keys() and str in var.type.__args__
+    ]
+
+
 def __process_comment_lines(tags, start_index, keys, index_list):
     """
     Process comments with the following algorithm:
-- 
2.43.0


From 8f937ad477ea2fc65faca5374c515ac24c20178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:40 +0000
Subject: [PATCH 24/48] fix: keep an empty COV_REF_FRAME in KVN output (C06)

---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 5d566db..8d6605e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1756,7 +1756,7 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
 
         lines.append(_fill_str_out_kvn("epoch", ndm_obj.epoch))
 
-        if ndm_obj.cov_ref_frame:
+        if ndm_obj.cov_ref_frame is not None:
             lines.append(_fill_str_out_kvn("cov_ref_frame", ndm_obj.cov_ref_frame))
 
         max_elems = 1
-- 
2.43.0


From 69426f7904043cbc2ad28a91a77b7fc80dca03bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 25/48] fix: texts of several lines broke the KVN output (C06)

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 8d6605e..3f7e88c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -7,6 +7,7 @@
 CCSDS Navigation Data Messages KVN File I/O.
 
 """
+import re
 from collections import namedtuple
 from copy import deepcopy
 from dataclasses import dataclass, field
@@ -1532,6 +1533,9 @@ def _fill_str_out_kvn(key, value, unit=None):
         'key = value' pair or 'key = value [unit]' triplet
 
     """
+    # a value is a single line in KVN
+    value = " ".join(re.split(r"[\r\n]+", str(value)))
+
     if unit:
         # standard 'key = value [unit]' triplet
         new_line = f"{key.upper():<20} = {str(value):<18}[{unit}]"
-- 
2.43.0


From 1e85730b6f18d3dcc3b76baece6a941636cb48d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:25 +0000
Subject: [PATCH 26/48] fix: covariance rows beginning with an unreadable
 number were dropped

A row of a KVN covariance matrix whose first entry is no number ended the
matrix without a word: this row, the rows after it and everything left of the
segment were lost.  The row is read now, the entry is kept as text with a
warning as everywhere else.
---
 ccsds_ndm/ndm_kvn_io.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 3f7e88c..20d42e3 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1226,14 +1226,10 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
             # No valid type, just skip it
             root_min_max = _MinMaxTuple(init_index, init_index)
         else:
-            found_data = True
+            # data lines are the ones without a keyword
             i = temp_min_max.max
-            while found_data:
-                try:
-                    float(lines[i][0].split()[0])
-                    i += 1
-                except (ValueError, IndexError):
-                    found_data = False
+            while i < len(lines) and len(lines[i]) == 1:
+                i += 1
 
             root_min_max = _MinMaxTuple(temp_min_max.min, i)
 
-- 
2.43.0


From ed2ca582b09218bcf7c11711cd7d64121005774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 27/48] fix: blanks in the XML declaration took quadratic time

---
 ccsds_ndm/ndm_xml_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index b52eb7b..494b1ef 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -126,7 +126,9 @@ class NdmXmlIo:
 
         # the text is decoded already, the encoding it declares no longer applies
         xml_source = re.sub(
-            r"""^(<\?xml\s[^>]*?)\s+encoding\s*=\s*["'][^"']*["']""", r"\1", xml_source
+            r"""^(<\?xml\s[^>]*?\s)encoding\s*=\s*["'][^"']*["'](?=[\s?])""",
+            r"\1",
+            xml_source,
         )
 
         # Identify data type of the string (Oem, Apm etc.)
-- 
2.43.0


From 0f220cd7d0754f9af68553fb1489d77723661b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:30 +0000
Subject: [PATCH 28/48] fix: a JSON object was not recognised as JSON

---
 ccsds_ndm/ndm_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index c081cd4..9d0d4a6 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -189,7 +189,7 @@ def _identify_data_format(ndm_data_source):
         file_format = NDMFileFormats.KVN
     elif stripped_source.startswith("<") and stripped_source.endswith(">"):
         file_format = NDMFileFormats.XML
-    elif stripped_source.startswith("[") and stripped_source.endswith("]"):
+    elif (stripped_source[:1], stripped_source[-1:]) in [("[", "]"), ("{", "}")]:
         file_format = NDMFileFormats.JSON
     else:
         raise ValueError(
-- 
2.43.0


From 651384bd9903d0459b105c1fa4310b6aac742f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:34 +0000
Subject: [PATCH 29/48] fix: writing in an unknown format did nothing instead
 of raising

---
 ccsds_ndm/ndm_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccsds_ndm/ndm_io.py b/ccsds_ndm/ndm_io.py
index 9d0d4a6..af85d3b 100644
--- a/ccsds_ndm/ndm_io.py
+++ b/ccsds_ndm/ndm_io.py
@@ -135,6 +135,8 @@ class NdmIo:
                 "JSON input has not been defined in the CCSDS standard."
             )
 
+        raise ValueError(f"Unknown data format: {data_format!r}")
+
     def to_file(self, ndm_obj, data_format, xml_write_file_path, **kwargs):
         """
         Convert and return the given object tree as output file.
@@ -164,6 +166,8 @@ class NdmIo:
                 "JSON input has not been defined in the CCSDS standard."
             )
 
+        raise ValueError(f"Unknown data format: {data_format!r}")
+
 
 def _identify_data_format(ndm_data_source):
     """
-- 
2.43.0


From f49c142dea2e7cfa2117464dd75e42c882edb3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:08 +0000
Subject: [PATCH 30/48] fix: epochs with line ends broke KVN data lines

---
 ccsds_ndm/ndm_kvn_io.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 20d42e3..5c716d8 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1510,6 +1510,23 @@ def _xmlify_list(root_tag, item_list, prefix=None):
     return etree.tostring(root, pretty_print=True)
 
 
+def _single_line(value):
+    """
+    Converts the value to text on a single line, as required in KVN.
+
+    Parameters
+    ----------
+    value
+        value
+
+    Returns
+    -------
+    str
+        text without any line ends
+    """
+    return " ".join(re.split(r"[\r\n]+", str(value)))
+
+
 def _fill_str_out_kvn(key, value, unit=None):
     """
     Fills a line in standard 'key = value' pair or 'key = value [unit]' triplet format.
@@ -1529,8 +1546,7 @@ def _fill_str_out_kvn(key, value, unit=None):
         'key = value' pair or 'key = value [unit]' triplet
 
     """
-    # a value is a single line in KVN
-    value = " ".join(re.split(r"[\r\n]+", str(value)))
+    value = _single_line(value)
 
     if unit:
         # standard 'key = value [unit]' triplet
@@ -1563,7 +1579,7 @@ def _fill_str_out_multi_kvn(key, value1, value2):
     """
 
     # standard 'key = value' pair or similar (e.g. comment)
-    new_line = f"{key.upper():<20} = {str(value1):<29} {str(value2)} "
+    new_line = f"{key.upper():<20} = {_single_line(value1):<29} {str(value2)} "
 
     return new_line
 
@@ -1589,7 +1605,7 @@ def _fill_out_single_line(line):
         # section break
         return ""
     else:
-        return "  ".join(line)
+        return "  ".join(_single_line(item) for item in line)
 
 
 def _collate_special_header_str_out(ndm_object, is_begin=True):
-- 
2.43.0


From 318807dcc6b78b729f375a4801f07996cdd3b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:07 +0000
Subject: [PATCH 31/48] fix: data lines with rarer forms of epochs ended the
 KVN data silently

---
 ccsds_ndm/ndm_kvn_io.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 5c716d8..493fb88 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1178,17 +1178,9 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
         root_ndm_elem.clazz is StateVectorAccType
         or root_ndm_elem.clazz is AttitudeStateType
     ):
-        # Epoch start and columns of data
-
-        # is this a valid date string? take the first element
-        datestr = lines[init_index][0].split()[0]
-
-        # # get rid of anything beyond seconds (high precision messes up datetime parser)
-        # datestr = datestr.split(".")[0]
-        # datetime.fromisoformat(datestr)
-
-        # can be of format "2007-075T16:50:01" or normal ISO string
-        if datestr[:4].isnumeric() and datestr[4] == "-":
+        # Epoch start and columns of data, these are the lines without a keyword
+        # (the epoch may be of any format)
+        if len(lines[init_index]) == 1:
             root_min_max = _MinMaxTuple(init_index, init_index + 1)
         else:
             # line is not of correct type, just skip it
@@ -1198,15 +1190,9 @@ def _identify_special_sub_segments(root_ndm_elem, keys, lines, init_index, prefi
 
     elif root_ndm_elem.clazz is TrackingDataObservationType:
 
-        # is this a valid date string? take the first element
-        datestr = lines[init_index][1].split()[0]
-
-        # can be of format "2007-075T16:50:01" or normal ISO string
-        if datestr[:4].isnumeric() and datestr[4] == "-":
-            root_min_max = _MinMaxTuple(init_index, init_index + 1)
-        else:
-            # line is not of correct type, just skip it
-            root_min_max = _MinMaxTuple(init_index, init_index)
+        # all lines of the data section are observations
+        # (the epoch may be of any format)
+        root_min_max = _MinMaxTuple(init_index, init_index + 1)
 
         return root_min_max
 
-- 
2.43.0


From ea4a804c6b8479f5114fc1db8f85c0aa36b9f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:10 +0000
Subject: [PATCH 32/48] fix: comments of user-defined parameters were read from
 KVN as parameters

---
 ccsds_ndm/ndm_kvn_io.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 493fb88..43a992d 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1480,8 +1480,11 @@ def _xmlify_list(root_tag, item_list, prefix=None):
 
     if prefix:
         for item in item_list:
-            child = etree.Element(prefix)
-            child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
+            if item[0] == "COMMENT":
+                child = etree.Element(item[0])
+            else:
+                child = etree.Element(prefix)
+                child.attrib["parameter"] = item[0].replace(prefix + "_", "", 1)
             child.text = item[1]
             root.append(child)
     else:
-- 
2.43.0


From 26aa820a1f0bb567c1777c079dcbfa4e8d147119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 33/48] fix: KVN strings with CR line ends were rejected,
 unlike such files

---
 ccsds_ndm/ndm_kvn_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 43a992d..9cc4df5 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -426,7 +426,8 @@ class NdmKvnIo:
             input string containing KVN data
         """
 
-        input_lines = kvn_source.split("\n")
+        # lines end with CR, LF or both
+        input_lines = re.split(r"\r\n|\r|\n", kvn_source)
 
         lines = []
         for line in input_lines:
-- 
2.43.0


From eaba25667f41b5a67ccce2da4cb9b81525b4cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:13 +0000
Subject: [PATCH 34/48] fix: a file was emptied when text that cannot be
 encoded was to be written

---
 ccsds_ndm/ndm_kvn_io.py | 6 +++---
 ccsds_ndm/ndm_xml_io.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 9cc4df5..f26b10b 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -232,9 +232,9 @@ class NdmKvnIo:
         kvn_write_file_path : Path or AnyStr
             Path of the KVN file to be written
         """
-        Path(kvn_write_file_path).write_text(
-            self.to_string(ndm_obj), encoding="utf-8"
-        )
+        # encode first, the file must not be touched if that fails
+        kvn_data = self.to_string(ndm_obj).encode("utf-8")
+        Path(kvn_write_file_path).write_bytes(kvn_data)
 
     def to_string(self, ndm_obj):
         """
diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 494b1ef..78b6a23 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -215,7 +215,9 @@ class NdmXmlIo:
             no_namespace_schema_location=no_namespace_schema_location,
             schema_location=schema_location,
         )
-        Path(xml_write_file_path).write_text(xml_txt, encoding="utf-8")
+        # encode first, the file must not be touched if that fails
+        xml_data = xml_txt.encode("utf-8")
+        Path(xml_write_file_path).write_bytes(xml_data)
 
     def __init_parser(self):
         """
-- 
2.43.0


From 53b652450b2b8c0697a99881750dcb81c9d2b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:48 +0000
Subject: [PATCH 35/48] fix: data lines of KVN with too few or too many columns
 were read in part

---
 ccsds_ndm/ndm_kvn_io.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index f26b10b..bc4398a 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -970,6 +970,7 @@ class NdmKvnIo:
 
         elif root_ndm_elem.clazz is StateVectorAccType:
             # parse StateVectorAccType type data
+            _check_columns(lines[0][0].split(), [len(kw_list) - 3, len(kw_list)])
             synth_lines = list(zip(kw_list, lines[0][0].split()))
             xml_data = _xmlify_list(root_ndm_elem.name, synth_lines)
 
@@ -980,12 +981,14 @@ class NdmKvnIo:
             kvnlines = [line for line in lines if len(line) > 1]
             # flatten the list
             data_list = [item for sublist in datalines for item in sublist]
+            _check_columns(data_list, [len(kw_list[3:])])
             synth_lines = list(zip(kw_list[3:], data_list))
             kvnlines.extend(synth_lines)
             xml_data = _xmlify_list(root_ndm_elem.name, kvnlines)
 
         elif root_ndm_elem.clazz is TrackingDataObservationType:
             # Tracking data, parse the single line
+            _check_columns(lines[0][1].split(), [2])
             synth_lines = list(zip(["EPOCH", lines[0][0]], lines[0][1].split()))
             xml_data = _xmlify_list(root_ndm_elem.name, synth_lines)
 
@@ -1066,6 +1069,9 @@ class NdmKvnIo:
         """Convert AttitudeSegmentType data to XML."""
 
         # Merge data with template
+        _check_columns(
+            lines[0][0].split(), [len(root_ndm_elem.special_data["template"])]
+        )
         synth_lines = list(
             zip(root_ndm_elem.special_data["template"], lines[0][0].split())
         )
@@ -1098,6 +1104,29 @@ class NdmKvnIo:
         return xml_data
 
 
+def _check_columns(columns, allowed_sizes):
+    """
+    Checks the number of the columns in a data line (or in a set of lines).
+
+    Parameters
+    ----------
+    columns : List[str]
+        values in the columns
+    allowed_sizes : List[int]
+        allowed numbers of columns
+
+    Raises
+    ------
+    ValueError
+        Columns are missing or there are too many of them.
+    """
+    if len(columns) not in allowed_sizes:
+        raise ValueError(
+            f"Data line(s) with {len(columns)} instead of "
+            f"{' or '.join(map(str, allowed_sizes))} columns: {columns}"
+        )
+
+
 def _identify_data_type(kvn_source):
     """
     Identify the KVN data type.
-- 
2.43.0


From 66d6d8a04b33aa00caf67bc3102aa0558f9bf0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:50 +0000
Subject: [PATCH 36/48] fix: data lines with missing elements were written to
 KVN with shifted columns

---
 ccsds_ndm/ndm_kvn_io.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index bc4398a..1392371 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -357,6 +357,9 @@ class NdmKvnIo:
             if keywords:
                 key_used = vars(ndm_object)[keywords[0]].value
 
+            if ndm_object.value is None:
+                raise ValueError(f"{key_used} has no value, it cannot be written in KVN.")
+
             if ndm_object.units:
                 # with units
                 out_str.append(
@@ -1663,6 +1666,24 @@ def _collate_special_header_str_out(ndm_object, is_begin=True):
             return _fill_out_single_line(["COVARIANCE_STOP"])
 
 
+def _check_complete(elems):
+    """
+    Checks that no element of a data line is missing.
+
+    Parameters
+    ----------
+    elems : list
+        elements of the data line
+
+    Raises
+    ------
+    ValueError
+        There are missing elements.
+    """
+    if any(getattr(elem, "value", elem) in (None, "") for elem in elems):
+        raise ValueError("Elements are missing, data line cannot be written in KVN.")
+
+
 def _collate_special_data_str_out(key, ndm_obj, out_str):
     """
     Converts the special data into their KVN equivalent line.
@@ -1684,6 +1705,10 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
     """
 
     if type(ndm_obj) is StateVectorAccType:
+        # the accelerations are either all there or all missing
+        elems = list(vars(ndm_obj).values())
+        _check_complete(elems[:7] if elems[7:] == [None, None, None] else elems)
+
         # fill all elements ("value" if something like PositionType or just its str value)
         line = [
             str(getattr(elem, "value", elem)) for elem in vars(ndm_obj).values() if elem
@@ -1704,6 +1729,11 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
                 for att_key, rot_obj in vars(att_obj[0]).items()
                 if att_key != "epoch"
             ]
+            _check_complete(
+                [vars(att_obj[0])["epoch"]]
+                + [elem for rot_obj in rot_objects for elem in rot_obj.values()]
+            )
+
             if quaternion:
                 # process with quaternion, order is important
 
@@ -1777,12 +1807,16 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
             for k, v in vars(ndm_obj).items()
             if v is not None and k != "epoch"
         ][0]
+        _check_complete([ndm_obj.epoch, item_value])
 
         return [
             _fill_str_out_multi_kvn(item_key, vars(ndm_obj)["epoch"], str(item_value))
         ]
 
     if type(ndm_obj) is OemCovarianceMatrixType:
+        # the epoch and all elements of the matrix are needed
+        _check_complete([ndm_obj.epoch] + list(vars(ndm_obj).values())[3:])
+
         lines = []
         # comment line
         lines.extend(
-- 
2.43.0


From 8f8e71b7838edb3313b3d4990808cc3aac13a72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 37/48] fix: unknown, misplaced and repeated lines of KVN were
 dropped silently

---
 ccsds_ndm/ndm_kvn_io.py | 49 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 1392371..cb8a11a 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -8,6 +8,7 @@ CCSDS Navigation Data Messages KVN File I/O.
 
 """
 import re
+import warnings
 from collections import namedtuple
 from copy import deepcopy
 from dataclasses import dataclass, field
@@ -833,8 +834,19 @@ class NdmKvnIo:
         parser = XmlParser(config=ParserConfig(fail_on_unknown_properties=True))
 
         root_ndm_elem = self.object_tree
+        self._used_lines = set()
         ndm_object = self.__build_object_tree(root_ndm_elem, self._lines, parser)
 
+        # lines that do not make it into the object should not go unnoticed
+        ignored = [
+            line for i, line in enumerate(self._lines) if i not in self._used_lines
+        ]
+        if ignored:
+            warnings.warn(
+                f"{len(ignored)} unknown, misplaced or repeated line(s) of the KVN data "
+                f"are ignored, the first of them is {ignored[0]}"
+            )
+
         return ndm_object
 
     def __build_object_tree(self, root_ndm_elem, full_lines, parser):
@@ -873,6 +885,9 @@ class NdmKvnIo:
             for line in local_lines
         ]
 
+        if full_lines is self._lines:
+            self.__mark_used_lines(root_ndm_elem, prefix)
+
         if not local_lines and not root_ndm_elem.subclass_list:
             # item has no subclasses and no content, just skip it
             return None
@@ -890,6 +905,13 @@ class NdmKvnIo:
                     # protects from wrong keywords on nested structures
                     # if prefix is present, then
                     local_lines = [line for line in local_lines if line[0] in kw_list]
+                else:
+                    # there may be foreign lines in between
+                    local_lines = [
+                        line
+                        for line in local_lines
+                        if line[0] == "COMMENT" or line[0].startswith(prefix)
+                    ]
 
                 if not local_lines and not root_ndm_elem.subclass_list:
                     # item has no subclasses and no content, just skip it
@@ -926,6 +948,33 @@ class NdmKvnIo:
         # neither the item nor its subclasses have any content, just skip it
         return None if is_empty else ndm_object
 
+    def __mark_used_lines(self, root_ndm_elem, prefix):
+        """
+        Marks the lines that make it into the object.
+
+        Parameters
+        ----------
+        root_ndm_elem : _NdmElement
+            element
+        prefix : str or None
+            Prefix (e.g. "USER_DEFINED")
+        """
+        used_keys = set()
+        for i in range(root_ndm_elem.min_max.min, root_ndm_elem.min_max.max):
+            key = self._keys[i]
+            if (
+                key == "COMMENT"
+                and key in root_ndm_elem.kw_list
+                or prefix
+                and key.startswith(prefix)
+                or root_ndm_elem.clazz in _special_processing_classes
+            ):
+                self._used_lines.add(i)
+            elif key in root_ndm_elem.kw_list and key not in used_keys:
+                # only the first one of the repeated keywords is used
+                self._used_lines.add(i)
+                used_keys.add(key)
+
     __att_types = {
         "QUATERNION": "quaternion_state",
         "QUATERNION/DERIVATIVE": "quaternion_derivative",
-- 
2.43.0


From d3b1d6ce800533b1263244e92823f3d96e75f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:45 +0000
Subject: [PATCH 38/48] fix: text between XML elements and unknown attributes
 were dropped silently

---
 ccsds_ndm/ndm_xml_io.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 78b6a23..0def13c 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -142,6 +142,7 @@ class NdmXmlIo:
                 recover=True, remove_comments=True, remove_pis=True, huge_tree=True
             ),
         )
+        _check_content(root)
         ndm = self.parser.parse(root)
 
         # if the file is NDM, downcast the elements to their respective subclasses
@@ -223,7 +224,9 @@ class NdmXmlIo:
         """
         Inits the internal parser.
         """
-        config = ParserConfig(fail_on_unknown_properties=True)
+        config = ParserConfig(
+            fail_on_unknown_properties=True, fail_on_unknown_attributes=True
+        )
         self.parser = XmlParser(config=config)
 
     def __init_serializer(
@@ -312,6 +315,34 @@ def _check_well_formed(xml_source):
         raise ValueError(f"XML data is not well-formed: {err}") from err
 
 
+def _check_content(root):
+    """
+    Checks that there is no text next to the elements, the parser would drop it.
+
+    Attributes of other namespaces are not part of the data, they are removed (including
+    the ones with a prefix that is not declared, e.g. `xsi`).
+
+    Parameters
+    ----------
+    root
+        root element of the XML data
+
+    Raises
+    ------
+    ValueError
+        There is some text between the elements.
+    """
+    for elem in root.iter():
+        for name in elem.keys():
+            if name.startswith("{") or ":" in name:
+                if not name.startswith("{http://www.w3.org/2001/XMLSchema-instance}"):
+                    del elem.attrib[name]
+
+        texts = [elem.text] + [child.tail for child in elem] if len(elem) else []
+        if any(text and text.strip() for text in texts):
+            raise ValueError(f"There is text between the elements of `{elem.tag}`")
+
+
 def _strip_multi_ndm(ndm):
     """
     Identifies whether the Combined Instantiation NDM actually contains
-- 
2.43.0


From 4e5cf0b93c6ff78b306b2eae1e0d5b44284ee60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:45 +0000
Subject: [PATCH 39/48] fix: keywords that begin with COMMENT were taken as
 comments

---
 ccsds_ndm/ndm_kvn_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index cb8a11a..c831347 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -441,8 +441,8 @@ class NdmKvnIo:
             if not line.strip():
                 continue
 
-            # process Comment lines first
-            if line.startswith("COMMENT"):
+            # process Comment lines first (there are no keywords like "COMMENTS")
+            if re.match(r"COMMENT\b", line):
                 line = ["COMMENT", line[7:].strip()]
 
                 # sometimes comment line starts with an "=" sign, delete this
-- 
2.43.0


From 7c3006931ba2a94ede4987751a9c9d75685345f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:47 +0000
Subject: [PATCH 40/48] fix: values of META_START and the like were dropped
 silently

---
 ccsds_ndm/ndm_kvn_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index c831347..5591060 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -210,6 +210,9 @@ class NdmKvnIo:
         # Delete unnecessary keywords if necessary
         if ndm_class in _deleted_keywords.keys():
             deleted_keys = _deleted_keywords.get(ndm_class)
+            for line in self._lines:
+                if line[0] in deleted_keys and len(line) > 1:
+                    warnings.warn(f"The value of {line} is ignored, it has none")
             self._keys = [key for key in self._keys if key not in deleted_keys]
             self._lines = [line for line in self._lines if line[0] not in deleted_keys]
 
-- 
2.43.0


From d580232443b4d1d437fd0bf50ceb102fdf7e0854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:49 +0000
Subject: [PATCH 41/48] fix: units of KVN values without a unit were dropped
 silently

---
 ccsds_ndm/ndm_kvn_io.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 5591060..50513c5 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -963,6 +963,7 @@ class NdmKvnIo:
             Prefix (e.g. "USER_DEFINED")
         """
         used_keys = set()
+        no_unit_keys = _get_no_unit_kw_list(root_ndm_elem.clazz)
         for i in range(root_ndm_elem.min_max.min, root_ndm_elem.min_max.max):
             key = self._keys[i]
             if (
@@ -977,6 +978,8 @@ class NdmKvnIo:
                 # only the first one of the repeated keywords is used
                 self._used_lines.add(i)
                 used_keys.add(key)
+                if len(self._lines[i]) > 2 and key in no_unit_keys:
+                    warnings.warn(f"The unit of {self._lines[i]} is ignored")
 
     __att_types = {
         "QUATERNION": "quaternion_state",
@@ -1419,6 +1422,20 @@ def _get_text_kw_list(clazz):
     ]
 
 
+def _get_no_unit_kw_list(clazz):
+    """
+    Extracts and returns the keywords with values other than plain text that do not have
+    a unit (e.g. integers) from the class `clazz`.
+    """
+    return [
+        var.metadata["name"]
+        for var in getattr(clazz, "__dataclass_fields__", {}).values()
+        if "name" in var.metadata.keys()
+        and str not in var.type.__args__
+        and "units" not in getattr(var.type.__args__[0], "__dataclass_fields__", {})
+    ]
+
+
 def __process_comment_lines(tags, start_index, keys, index_list):
     """
     Process comments with the following algorithm:
-- 
2.43.0


From 38a789d5a8870de1814605e6d61d3fa6ffb55bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:53 +0000
Subject: [PATCH 42/48] fix: data after KVN keywords that are no valid names
 were dropped silently

---
 ccsds_ndm/ndm_kvn_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 50513c5..6940097 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -933,7 +933,10 @@ class NdmKvnIo:
                     # process normally (with or without prefix)
                     xml_data = _xmlify_list(root_ndm_elem.name, local_lines, prefix)
 
-        ndm_object = parser.from_bytes(xml_data, root_ndm_elem.clazz)
+        # refuse keywords that are not valid names, the parser would recover what it can
+        # and drop the rest
+        xml_root = etree.fromstring(xml_data, etree.XMLParser(huge_tree=True))
+        ndm_object = parser.parse(xml_root, root_ndm_elem.clazz)
 
         # fill lower level objects
         is_empty = not local_lines and bool(root_ndm_elem.subclass_list)
-- 
2.43.0


From cc50c41081fc8b83243166436892868c4a09f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:21 +0000
Subject: [PATCH 43/48] fix: text in place of the elements of an XML block was
 dropped silently

---
 ccsds_ndm/ndm_xml_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_xml_io.py b/ccsds_ndm/ndm_xml_io.py
index 0def13c..b1d8c8d 100644
--- a/ccsds_ndm/ndm_xml_io.py
+++ b/ccsds_ndm/ndm_xml_io.py
@@ -338,7 +338,11 @@ def _check_content(root):
                 if not name.startswith("{http://www.w3.org/2001/XMLSchema-instance}"):
                     del elem.attrib[name]
 
-        texts = [elem.text] + [child.tail for child in elem] if len(elem) else []
+        # values are in elements with upper case names (and in "rotation1" etc.)
+        if not len(elem) and re.fullmatch("[^a-z]*|rotation[123]", elem.tag):
+            continue
+
+        texts = [elem.text] + [child.tail for child in elem]
         if any(text and text.strip() for text in texts):
             raise ValueError(f"There is text between the elements of `{elem.tag}`")
 
-- 
2.43.0


From f39fe4275f09117af24af8550931040bd4c384df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:49 +0000
Subject: [PATCH 44/48] fix: blanks within the elements of KVN data lines
 shifted the columns

---
 ccsds_ndm/ndm_kvn_io.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 6940097..6afc5b2 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1740,7 +1740,7 @@ def _collate_special_header_str_out(ndm_object, is_begin=True):
 
 def _check_complete(elems):
     """
-    Checks that no element of a data line is missing.
+    Checks that the elements of a data line fill exactly one column each.
 
     Parameters
     ----------
@@ -1750,10 +1750,13 @@ def _check_complete(elems):
     Raises
     ------
     ValueError
-        There are missing elements.
+        There are missing elements or elements with blanks.
     """
-    if any(getattr(elem, "value", elem) in (None, "") for elem in elems):
-        raise ValueError("Elements are missing, data line cannot be written in KVN.")
+    values = [getattr(elem, "value", elem) for elem in elems]
+    if any(value is None or len(str(value).split()) != 1 for value in values):
+        raise ValueError(
+            "Elements are missing or hold blanks, data line cannot be written in KVN."
+        )
 
 
 def _collate_special_data_str_out(key, ndm_obj, out_str):
-- 
2.43.0


From ff5d936f097443ec69b4700dd5dc7c517396c6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:23 +0000
Subject: [PATCH 45/48] fix: find the end of a covariance matrix with columns
 separated by tabs

Several matrices were taken as one and refused.
---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 6afc5b2..830319b 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1515,7 +1515,7 @@ def _get_min_max_indices(tags, start_index, keys, prefix=None, single_elem=None)
         # or it has numerical data in between (which is separated by spaces).
         # If latter case holds, delete the numerical data and the rest.
         if diff_list:
-            containing_spaces = any(" " in keys[n] for n in diff_list)
+            containing_spaces = any(" " in keys[n] or "\t" in keys[n] for n in diff_list)
 
             # find repeating data
             diff_list_keys = [keys[i] for i in diff_list]
-- 
2.43.0


From 7b2c94e112554f8f378030d7c2fb48be27b15281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:25 +0000
Subject: [PATCH 46/48] fix: keep the word "Type" in the epochs of AEM attitude
 lines

Only the names of the tags lose it.
---
 ccsds_ndm/ndm_kvn_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 830319b..360131e 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1154,7 +1154,7 @@ class NdmKvnIo:
 
         # delete id line and delete "Type" from tags
         xml_data = xml_data[xml_data.index("\n") + 1 :]
-        xml_data = xml_data.replace("Type", "")
+        xml_data = re.sub(r"(</?\w+)Type\b", r"\1", xml_data)
 
         # convert to binary
         xml_data = xml_data.encode()
-- 
2.43.0


From 4a3146fa413f5dfc6f8770c0dfeb176fea399729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:06 +0000
Subject: [PATCH 47/48] fix: do not take a missing ATTITUDE_TYPE,
 QUATERNION_TYPE or EULER_ROT_SEQ of an AEM segment from another segment

Neither when reading nor when writing KVN.
---
 ccsds_ndm/ndm_kvn_io.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 360131e..5ad8bd9 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1067,10 +1067,13 @@ class NdmKvnIo:
 
         att_states = root_ndm_elem.subclass_list[1].subclass_list
 
+        # do not look beyond the end of this segment
+        start = root_ndm_elem.min_max.max
+        next_starts = [i for i in self._segment_starts if i >= start][1:]
+        limit = next_starts[0] if next_starts else len(self._keys)
+
         # Find the Attitude Type line within the segment
-        att_type_line_index = self._keys.index(
-            "ATTITUDE_TYPE", root_ndm_elem.min_max.max
-        )
+        att_type_line_index = self._keys.index("ATTITUDE_TYPE", start, limit)
         # the standard allows both upper and lower case values
         att_type_key = self._lines[att_type_line_index][1].upper()
         att_type_value = self.__att_types.get(att_type_key)
@@ -1078,9 +1081,7 @@ class NdmKvnIo:
         kw_template = ["EPOCH"]
 
         if att_type_key.startswith("QUATERNION"):
-            q_type_line_index = self._keys.index(
-                "QUATERNION_TYPE", root_ndm_elem.min_max.max
-            )
+            q_type_line_index = self._keys.index("QUATERNION_TYPE", start, limit)
             q_type_key = self._lines[q_type_line_index][1].upper()
 
             if q_type_key == "FIRST":
@@ -1095,9 +1096,7 @@ class NdmKvnIo:
                     kw_template.extend(["Q1_DOT", "Q2_DOT", "Q3_DOT", "QC_DOT"])
 
         if att_type_key.startswith("EULER") or att_type_key.endswith("RATE"):
-            eu_type_line_index = self._keys.index(
-                "EULER_ROT_SEQ", root_ndm_elem.min_max.max
-            )
+            eu_type_line_index = self._keys.index("EULER_ROT_SEQ", start, limit)
             eu_type_key = self._lines[eu_type_line_index][1]
 
             if att_type_key.startswith("EULER"):
@@ -1812,11 +1811,16 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
             if quaternion:
                 # process with quaternion, order is important
 
-                # find quaternion type line (start from the end)
+                # find quaternion type line of this segment (start from the end)
                 quat_type = next(
-                    x for x in reversed(out_str) if x.startswith("QUATERNION_TYPE")
+                    x
+                    for x in reversed(out_str)
+                    if x.startswith("QUATERNION_TYPE") or x == "META_START"
                 ).split("=")[-1]
 
+                if quat_type == "META_START":
+                    raise ValueError("QUATERNION_TYPE of the segment is missing.")
+
                 quat_last = True if quat_type.strip().upper() == "LAST" else False
 
                 if quat_last:
-- 
2.43.0


From de14b71647ac3855882fc97029217ffc2b0d471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:40 +0000
Subject: [PATCH 48/48] fix: refuse KVN output of observations and attitude
 states with several values

All but the first of them were dropped silently.
---
 ccsds_ndm/ndm_kvn_io.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ccsds_ndm/ndm_kvn_io.py b/ccsds_ndm/ndm_kvn_io.py
index 5ad8bd9..8f7822c 100644
--- a/ccsds_ndm/ndm_kvn_io.py
+++ b/ccsds_ndm/ndm_kvn_io.py
@@ -1793,6 +1793,9 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         # find element with valid data
         att_obj = [att for att in vars(ndm_obj).values() if att]
 
+        if len(att_obj) > 1:
+            raise ValueError("Attitude data line cannot hold more than one attitude.")
+
         if att_obj:
             quaternion = True if str(att_obj[0]).startswith("Quaternion") else False
 
@@ -1881,11 +1884,15 @@ def _collate_special_data_str_out(key, ndm_obj, out_str):
         # find element with data
 
         # (angles are "value and units" pairs, only the value is part of the line)
-        item_key, item_value = [
+        items = [
             (k, getattr(v, "value", v))
             for k, v in vars(ndm_obj).items()
             if v is not None and k != "epoch"
-        ][0]
+        ]
+        if len(items) != 1:
+            raise ValueError("An observation has one value, it cannot be written in KVN.")
+
+        item_key, item_value = items[0]
         _check_complete([ndm_obj.epoch, item_value])
 
         return [
-- 
2.43.0

