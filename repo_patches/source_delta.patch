From 6b24e7a9c976010cdff9852ff52e92d7d6b30321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 01/75] fix: round RobustPath coordinates to the database grid
 in GDSII paths

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 20c02f7..90099b7 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2319,7 +2319,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = (numpy.array(points) * multiplier).astype(">i4")
+            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
-- 
2.43.0


From d6feedff17ff8c12f17c6c0d78c7707badf1d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 02/75] fix: get_texttypes of a cell with references

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ad0b83a..658699a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -518,7 +518,7 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_textypes())
+            texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From a895fc15c1394e18b3a42ff9894e66047165dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 03/75] fix: skip missing cells in the layer, datatype and
 texttype queries

---
 gdspy/library.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 658699a..070bc96 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -486,7 +486,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             layers.update(element.layers)
         for reference in self.references:
-            layers.update(reference.ref_cell.get_layers())
+            if isinstance(reference.ref_cell, Cell):
+                layers.update(reference.ref_cell.get_layers())
         for label in self.labels:
             layers.add(label.layer)
         return layers
@@ -504,7 +505,8 @@ class Cell(object):
         for element in itertools.chain(self.polygons, self.paths):
             datatypes.update(element.datatypes)
         for reference in self.references:
-            datatypes.update(reference.ref_cell.get_datatypes())
+            if isinstance(reference.ref_cell, Cell):
+                datatypes.update(reference.ref_cell.get_datatypes())
         return datatypes
 
     def get_texttypes(self):
@@ -518,7 +520,8 @@ class Cell(object):
         """
         texttypes = set()
         for reference in self.references:
-            texttypes.update(reference.ref_cell.get_texttypes())
+            if isinstance(reference.ref_cell, Cell):
+                texttypes.update(reference.ref_cell.get_texttypes())
         for label in self.labels:
             texttypes.add(label.texttype)
         return texttypes
-- 
2.43.0


From 12a9fffecd56fe0f302b57667ad176000f50c2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 04/75] fix: get_polygons of a reference to a missing cell
 filtered by layer and datatype

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 070bc96..43b1782 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1366,7 +1366,7 @@ class CellReference(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(polygons)
 
@@ -1976,7 +1976,7 @@ class CellArray(object):
         the result by computing their polygonal boundary.
         """
         if not isinstance(self.ref_cell, Cell):
-            return dict() if by_spec else []
+            return dict() if by_spec is True else []
         cell_polygons = self.ref_cell.get_polygons(by_spec, depth)
         return self._transform_polygons(cell_polygons)
 
-- 
2.43.0


From b4eb98cb564bf62f7b3bdd0869e37ddc9303fc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 05/75] fix: keep the polygon set data as lists in
 remove_polygons

---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 43b1782..4fcf984 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -375,9 +375,9 @@ class Cell(object):
                 pass  # we don't need no empty polygons!
             else:
                 polys, layers, dts = zip(*pld)
-                element.polygons = polys
-                element.layers = layers
-                element.datatypes = dts
+                element.polygons = list(polys)
+                element.layers = list(layers)
+                element.datatypes = list(dts)
                 filtered_polys.append(element)
         self.polygons = filtered_polys
         return self
-- 
2.43.0


From 1d3fd81d6a74f1e3f1f5759785598708cfcfe449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 06/75] fix: flatten only replaces the label texttype by
 single_texttype when given

---
 gdspy/library.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 4fcf984..a1c5455 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -824,14 +824,10 @@ class Cell(object):
             This cell.
         """
         self.labels = self.get_labels()
-        if single_layer is not None and single_datatype is not None:
-            for lbl in self.labels:
-                lbl.layer = single_layer
-                lbl.texttype = single_texttype
-        elif single_layer is not None:
+        if single_layer is not None:
             for lbl in self.labels:
                 lbl.layer = single_layer
-        elif single_datatype is not None:
+        if single_texttype is not None:
             for lbl in self.labels:
                 lbl.texttype = single_texttype
         self.polygons = self.get_polygonsets()
-- 
2.43.0


From 62264e66188b0bb85c932eb11b8c445e3f10edfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 07/75] fix: combine the label transformation with the
 reference one in get_labels

---
 gdspy/library.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index a1c5455..ed11d3a 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1483,8 +1483,10 @@ class CellReference(object):
                         lbl.magnification *= self.magnification
                     else:
                         lbl.magnification = self.magnification
-                if self.x_reflection is not None:
+                if self.x_reflection:
                     lbl.x_reflection = not lbl.x_reflection
+                    if lbl.rotation is not None:
+                        lbl.rotation = -lbl.rotation
                 if self.rotation is not None:
                     if lbl.rotation is not None:
                         lbl.rotation += self.rotation
@@ -2116,8 +2118,10 @@ class CellArray(object):
                                 lbl.magnification *= self.magnification
                             else:
                                 lbl.magnification = self.magnification
-                        if self.x_reflection is not None:
+                        if self.x_reflection:
                             lbl.x_reflection = not lbl.x_reflection
+                            if lbl.rotation is not None:
+                                lbl.rotation = -lbl.rotation
                         if self.rotation is not None:
                             if lbl.rotation is not None:
                                 lbl.rotation += self.rotation
-- 
2.43.0


From 63652f15767db09235ebb4ea93f958aaeb4d9768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 08/75] fix: Cell.copy keeps the reflection of labels and
 references

---
 gdspy/library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index ed11d3a..8ac6ee1 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -258,7 +258,7 @@ class Cell(object):
                 path.transform(translation, rotation, scale, x_reflection)
 
             for lbl in new_cell.labels:
-                r0 = -1 if lbl.x_reflection is None else 1
+                r0 = -1 if lbl.x_reflection else 1
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
@@ -275,7 +275,7 @@ class Cell(object):
                 lbl.x_reflection = r * r0 < 0
 
             for ref in new_cell.references:
-                r0 = -1 if ref.x_reflection is None else 1
+                r0 = -1 if ref.x_reflection else 1
                 s0 = 1 if ref.magnification is None else ref.magnification
                 t0 = 0 if ref.rotation is None else (ref.rotation * numpy.pi / 180)
                 dx0, dy0 = ref.origin
-- 
2.43.0


From 0bf943cb8501a6789863aa4e89ca4968b9410823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 09/75] fix: Cell.copy scales the spacing of cell arrays

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 8ac6ee1..5eba22f 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -290,6 +290,8 @@ class Cell(object):
                 if ref.magnification == 1:
                     ref.magnification = None
                 ref.x_reflection = r * r0 < 0
+                if isinstance(ref, CellArray):
+                    ref.spacing = (s * ref.spacing[0], s * ref.spacing[1])
 
         return new_cell
 
-- 
2.43.0


From df314f054b3cd7b6532e22f81caa4e28007efbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 10/75] fix: always compute the bounding box from the current
 contents of the cells

---
 gdspy/library.py | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 5eba22f..af2edf5 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -563,9 +563,27 @@ class Cell(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
-        deps_still_valid = all(ref._bb_valid for ref in self.get_dependencies(True))
-        cached_bbox_still_valid = self._bb_valid and deps_still_valid
-        if not cached_bbox_still_valid:
+        return self._get_bounding_box({})
+
+    def _get_bounding_box(self, computed):
+        """
+        Calculate the bounding box for this cell.
+
+        Parameters
+        ----------
+        computed : dict
+            Bounding boxes already calculated in this traversal of the
+            hierarchy, indexed by cell.  Cells, elements and references
+            can be freely modified between calls, so no previous result
+            can be trusted.
+
+        Returns
+        -------
+        out : Numpy array[2, 2] or None
+            Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
+            or None if the cell is empty.
+        """
+        if self not in computed:
             bb = numpy.array(((1e300, 1e300), (-1e300, -1e300)))
             all_polygons = []
             for polygon in self.polygons:
@@ -573,7 +591,7 @@ class Cell(object):
             for path in self.paths:
                 all_polygons.extend(path.to_polygonset().polygons)
             for reference in self.references:
-                reference_bb = reference.get_bounding_box()
+                reference_bb = reference._get_bounding_box(computed)
                 if reference_bb is not None:
                     all_polygons.append(reference_bb)
             if len(all_polygons) > 0:
@@ -586,12 +604,13 @@ class Cell(object):
             else:
                 self._bounding_box = None
             self._bb_valid = True
+            computed[self] = self._bounding_box
 
-        if self._bounding_box is None:
+        if computed[self] is None:
             return None
         else:
-            # return a *copy* of the cached bounding box to ensure it doesn't get inadvertently modified
-            return numpy.array(self._bounding_box)
+            # return a *copy* of the bounding box to ensure it doesn't get inadvertently modified
+            return numpy.array(computed[self])
 
     def get_polygons(self, by_spec=False, depth=None):
         """
@@ -1506,11 +1525,14 @@ class CellReference(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
+        return self._get_bounding_box({})
+
+    def _get_bounding_box(self, computed):
         if not isinstance(self.ref_cell, Cell):
             return None
 
         if self.rotation is None or self.rotation % 90 == 0:
-            cell_bbox = self.ref_cell.get_bounding_box()
+            cell_bbox = self.ref_cell._get_bounding_box(computed)
             if cell_bbox is None:
                 return None
             polygons = self._transform_polygons([cell_bbox])
@@ -2142,10 +2164,13 @@ class CellArray(object):
             Bounding box of this cell [[x_min, y_min], [x_max, y_max]],
             or None if the cell is empty.
         """
+        return self._get_bounding_box({})
+
+    def _get_bounding_box(self, computed):
         if not isinstance(self.ref_cell, Cell):
             return None
         if self.rotation is None or self.rotation % 90 == 0:
-            cell_bbox = self.ref_cell.get_bounding_box()
+            cell_bbox = self.ref_cell._get_bounding_box(computed)
             if cell_bbox is None:
                 return None
             polygons = self._transform_polygons([cell_bbox])
-- 
2.43.0


From 593bd5115d3b51c968441bdfe695a5e1b4337da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 11/75] fix: a deep copied cell does not share the properties
 of its references

---
 gdspy/library.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index af2edf5..c20f47d 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -235,6 +235,8 @@ class Cell(object):
         new_cell.paths = libcopy.deepcopy(self.paths)
         new_cell.labels = libcopy.deepcopy(self.labels)
         new_cell.references = [libcopy.copy(ref) for ref in self.references]
+        for ref in new_cell.references:
+            ref.properties = libcopy.copy(ref.properties)
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From 81a001c7257bd149d15331403fdd5bb9ae2cf5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 12/75] fix: GdsLibrary.add includes the dependencies of cells
 given by any iterable

---
 gdspy/library.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index c20f47d..496e996 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2393,9 +2393,10 @@ class GdsLibrary(object):
             if include_dependencies:
                 cell_set.update(cell.get_dependencies(True))
         else:
-            cell_set = set(cell)
+            cells = list(cell)
+            cell_set = set(cells)
             if include_dependencies:
-                for c in cell:
+                for c in cells:
                     cell_set.update(c.get_dependencies(True))
         for c in cell_set:
             if (
-- 
2.43.0


From 0fa83f87a6a8317fe11ffa5e520b3237dc4acc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 13/75] fix: GdsLibrary.add leaves the library untouched when
 it fails

---
 gdspy/library.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 496e996..22ce577 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2398,15 +2398,16 @@ class GdsLibrary(object):
             if include_dependencies:
                 for c in cells:
                     cell_set.update(c.get_dependencies(True))
+        if not overwrite_duplicate:
+            names = dict(self.cells)
+            for c in cell_set:
+                if names.setdefault(c.name, c) is not c:
+                    raise ValueError(
+                        "[GDSPY] Cell named {0} already present in library.".format(
+                            c.name
+                        )
+                    )
         for c in cell_set:
-            if (
-                not overwrite_duplicate
-                and c.name in self.cells
-                and self.cells[c.name] is not c
-            ):
-                raise ValueError(
-                    "[GDSPY] Cell named {0} already present in library.".format(c.name)
-                )
             if (
                 overwrite_duplicate
                 and update_references
-- 
2.43.0


From 57feef10627138fd4acd4fff461b99907019f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:31 +0000
Subject: [PATCH 14/75] fix: update the references of cells added together with
 an overwriting cell

---
 gdspy/library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 22ce577..9a7397c 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2407,6 +2407,7 @@ class GdsLibrary(object):
                             c.name
                         )
                     )
+        overwriting = []
         for c in cell_set:
             if (
                 overwrite_duplicate
@@ -2414,8 +2415,10 @@ class GdsLibrary(object):
                 and c.name in self.cells
                 and self.cells[c.name] is not c
             ):
-                self.replace_references(c.name, c)
+                overwriting.append(c)
             self.cells[c.name] = c
+        for c in overwriting:
+            self.replace_references(c.name, c)
         return self
 
     def remove(self, cell, remove_references=True):
-- 
2.43.0


From 37f0df61a3526e22e84b3962fae1d3bcf3aed437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 15/75] fix: read empty strings in GDSII records as strings

---
 gdspy/gdsiiformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 3747391..30434ee 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -98,6 +98,8 @@ def _record_reader(stream):
                         data = data.decode("ascii")
                 elif data[-1] == "\0":
                     data = data[:-1]
+        elif data_type == 0x06:
+            data = ""
         yield [rec_type, data]
 
 
-- 
2.43.0


From 0702aebc8a6f52e4dd7d481650509c9b75c39d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 16/75] fix: skip null padding when reading raw GDSII records

---
 gdspy/gdsiiformat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 30434ee..57f367e 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -123,7 +123,7 @@ def _raw_record_reader(stream):
             return
         size, rec_type = struct.unpack(">HH", header)
         rec_type = rec_type // 256
-        yield (rec_type, header + stream.read(size - 4))
+        yield (rec_type, header + (stream.read(size - 4) if size > 4 else b""))
 
 
 def _eight_byte_real(value):
-- 
2.43.0


From 48ac151f411f48fec5e1c9d271957fbc0ae301e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 17/75] fix: properties of unsupported elements are not given
 to the next element

---
 gdspy/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 9a7397c..b9022aa 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2641,10 +2641,10 @@ class GdsLibrary(object):
                     el = create_element(**kwargs)
                     if len(properties) > 0:
                         el.properties = properties
-                        properties = {}
                     cell.add(el)
                     create_element = None
                 kwargs = {}
+                properties = {}
             # BOUNDARY
             elif record[0] == 0x08:
                 create_element = self._create_polygon
-- 
2.43.0


From 909948aebe098a150493cf51d54f6dc7d38d4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 18/75] fix: read GDSII paths without width

---
 gdspy/library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index b9022aa..d558ee0 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -2780,6 +2780,7 @@ class GdsLibrary(object):
             kwargs["ends"] = (kwargs.pop("bgnextn", 0), kwargs.pop("endextn", 0))
         kwargs["points"] = xy.reshape((xy.size // 2, 2))
         kwargs["gdsii_path"] = True
+        kwargs.setdefault("width", 0)
         return FlexPath(**kwargs)
 
     def _create_label(self, xy, width=None, width_transform=None, ends=None, **kwargs):
-- 
2.43.0


From d18c9ef762ee9c3363669b9dbb923c5c4f72bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 19/75] fix: paths do not share the cached polygons with their
 users

---
 gdspy/path.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 90099b7..a67d653 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -913,7 +913,10 @@ class FlexPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return [
+                numpy.array(poly)
+                for poly in itertools.chain.from_iterable(self._polygon_dict.values())
+            ]
 
     def to_polygonset(self):
         """
@@ -2163,7 +2166,10 @@ class RobustPath(object):
         if by_spec:
             return libcopy.deepcopy(self._polygon_dict)
         else:
-            return list(itertools.chain.from_iterable(self._polygon_dict.values()))
+            return [
+                numpy.array(poly)
+                for poly in itertools.chain.from_iterable(self._polygon_dict.values())
+            ]
 
     def to_polygonset(self):
         """
-- 
2.43.0


From b2d9ce0b3a7b1de572c81fb70f6e8dd0a3c7984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 20/75] fix: RobustPath does not modify the lists of widths and
 offsets given by the user

---
 gdspy/path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index a67d653..3fda1a8 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1827,9 +1827,9 @@ class RobustPath(object):
         self._polygon_dict = None
         if isinstance(width, list):
             self.n = len(width)
-            self.widths = width
+            self.widths = list(width)
             if isinstance(offset, list):
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.offsets = [
                     (i - 0.5 * (self.n - 1)) * offset for i in range(self.n)
@@ -1837,7 +1837,7 @@ class RobustPath(object):
         else:
             if isinstance(offset, list):
                 self.n = len(offset)
-                self.offsets = offset
+                self.offsets = list(offset)
             else:
                 self.n = 1
                 self.offsets = [offset]
-- 
2.43.0


From 78774a630352661eead43f74084c610a6de10ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 21/75] fix: widths and offsets of a FlexPath created from a
 single point

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 3fda1a8..9342d49 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -330,8 +330,8 @@ class FlexPath(object):
         self.points = numpy.array(points)
         if self.points.shape == (2,):
             self.points.resize((1, 2))
-        self.widths = numpy.tile(self.widths, (len(points), 1))
-        self.offsets = numpy.tile(self.offsets, (len(points), 1))
+        self.widths = numpy.tile(self.widths, (len(self.points), 1))
+        self.offsets = numpy.tile(self.offsets, (len(self.points), 1))
         if isinstance(ends, list):
             self.ends = [ends[i % len(ends)] for i in range(self.n)]
         else:
-- 
2.43.0


From f99bcb081c7e17ee0db6d326ffdea35f064da854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 22/75] fix: scale the bend radius and the end extensions of
 paths

---
 gdspy/path.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 9342d49..6509942 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1246,12 +1246,16 @@ class FlexPath(object):
         self.points = self.points * scale + c0
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
+        self._scale_parameters(scale)
+        return self
+
+    def _scale_parameters(self, scale):
         self.offsets = self.offsets * scale
+        self.bend_radius = [r if r is None else r * scale for r in self.bend_radius]
         for i, end in enumerate(self.ends):
             # CustomPlus created by bgnextn and endextn
             if isinstance(end, tuple):
                 self.ends[i] = tuple([e * scale for e in end])
-        return self
 
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
         """
@@ -1298,7 +1302,7 @@ class FlexPath(object):
             array_trans = array_trans / scale
             if self.width_transform or not self.gdsii_path:
                 self.widths = self.widths * scale
-            self.offsets = self.offsets * scale
+            self._scale_parameters(scale)
         if x_reflection:
             cos[1] = -cos[1]
             sin[0] = -sin[0]
@@ -2493,13 +2497,20 @@ class RobustPath(object):
         self.x = self.x * scale + c0
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
-        self.offsets = [off * scale for off in self.offsets]
+        self._scale_parameters(scale)
         for path in self.paths:
             for sub in path:
                 sub.scale(scale)
                 sub.translate(c0)
         return self
 
+    def _scale_parameters(self, scale):
+        self.offsets = [off * scale for off in self.offsets]
+        for i, end in enumerate(self.ends):
+            # CustomPlus created by bgnextn and endextn
+            if isinstance(end, tuple):
+                self.ends[i] = tuple([e * scale for e in end])
+
     def transform(self, translation, rotation, scale, x_reflection, array_trans=None):
         """
         Apply a transform to this path.
@@ -2545,7 +2556,7 @@ class RobustPath(object):
             self.x = self.x * scale
             if self.width_transform or not self.gdsii_path:
                 self.widths = [wid * scale for wid in self.widths]
-            self.offsets = [off * scale for off in self.offsets]
+            self._scale_parameters(scale)
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
-- 
2.43.0


From 621fcc4360ed171ddbcc9428b60e71acd4d55815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 23/75] fix: write the width of reflected RobustPaths as a
 positive number

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 6509942..6a79980 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2242,7 +2242,7 @@ class RobustPath(object):
                     pathtype,
                     8,
                     0x0F03,
-                    sign * int(round(self.widths[ii] * multiplier)),
+                    sign * int(round(abs(self.widths[ii]) * multiplier)),
                 )
             )
             if pathtype == 4:
-- 
2.43.0


From b95684290790ec066db4461530a4c3c7a978fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 24/75] fix: RobustPath.transform applies the array translation
 as a CellArray

---
 gdspy/path.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 6a79980..ecc1720 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2541,6 +2541,8 @@ class RobustPath(object):
         """
         self._polygon_dict = None
         if array_trans is not None:
+            if scale is not None:
+                array_trans = numpy.array(array_trans) / scale
             self.x = self.x + array_trans
             for path in self.paths:
                 for sub in path:
-- 
2.43.0


From e906cd7722a606f31409e36631351115c930152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 25/75] fix: empty paths have no polygons, area, bounding box
 or GDSII element

---
 gdspy/library.py |  2 +-
 gdspy/path.py    | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index d558ee0..9a4dbf2 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -591,7 +591,7 @@ class Cell(object):
             for polygon in self.polygons:
                 all_polygons.extend(polygon.polygons)
             for path in self.paths:
-                all_polygons.extend(path.to_polygonset().polygons)
+                all_polygons.extend(path.get_polygons())
             for reference in self.references:
                 reference_bb = reference._get_bounding_box(computed)
                 if reference_bb is not None:
diff --git a/gdspy/path.py b/gdspy/path.py
index ecc1720..f1387de 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -404,6 +404,8 @@ class FlexPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if (self.points == self.points[:1]).all():
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             if self.points.shape[0] == 2:
@@ -960,7 +962,7 @@ class FlexPath(object):
             A number that multiplies all dimensions written in the GDSII
             elements.
         """
-        if len(self.points) == 0:
+        if (self.points == self.points[:1]).all():
             return
         if self.gdsii_path:
             sign = 1 if self.width_transform else -1
@@ -1175,7 +1177,10 @@ class FlexPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygons = self.to_polygonset()
+        if polygons is None:
+            return {} if by_spec else 0
+        return polygons.area(by_spec)
 
     def translate(self, dx, dy):
         """
@@ -1988,6 +1993,8 @@ class RobustPath(object):
             polygon, or dictionary with the list of polygons (if
             `by_spec` is True).
         """
+        if len(self.paths[0]) == 0:
+            return {} if by_spec else []
         if self._polygon_dict is None:
             self._polygon_dict = {}
             for path, end, layer, datatype in zip(
@@ -2417,7 +2424,10 @@ class RobustPath(object):
         out : number, dictionary
             Area of this object.
         """
-        return self.to_polygonset().area(by_spec)
+        polygons = self.to_polygonset()
+        if polygons is None:
+            return {} if by_spec else 0
+        return polygons.area(by_spec)
 
     def translate(self, dx, dy):
         """
-- 
2.43.0


From 5496d7ce9d31dbda98ed71b3cab8312123bef58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 26/75] fix: accept FlexPaths in the lists of operands of
 boolean, slice, offset and inside

---
 gdspy/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index ff5d351..f8f38f2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -72,7 +72,7 @@ def _gather_polys(args):
             polys.extend(p.polygons)
         elif (
             isinstance(p, RobustPath)
-            or isinstance(args, FlexPath)
+            or isinstance(p, FlexPath)
             or isinstance(p, CellReference)
             or isinstance(p, CellArray)
         ):
-- 
2.43.0


From 36eabb644c982595dd0a3e6b6b27586fb74c794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 27/75] fix: boolean operations with empty operands

---
 gdspy/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index f8f38f2..955f0b2 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -251,9 +251,9 @@ def boolean(
     poly1 = _gather_polys(operand1)
     poly2 = _gather_polys(operand2)
     if len(poly2) == 0:
+        if len(poly1) == 0 or operation == "and":
+            return None
         if operation in ["not", "xor"]:
-            if len(poly1) == 0:
-                return None
             return PolygonSet(poly1, layer, datatype).fracture(max_points, precision)
         poly2.append(poly1.pop())
     result = clipper.clip(poly1, poly2, operation, 1 / precision)
-- 
2.43.0


From 8537aff35920ec014eb9a60f4a74a52351ea69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 28/75] fix: no point is inside of an empty set of polygons

---
 gdspy/operation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index 955f0b2..b4d90df 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -290,6 +290,8 @@ def inside(points, polygons, short_circuit="any", precision=0.001):
         groups is inside the set of polygons.
     """
     polys = _gather_polys(polygons)
+    if len(polys) == 0:
+        return (False,) * len(points)
     if numpy.isscalar(points[0][0]):
         pts = (points,)
         sc = 0
-- 
2.43.0


From 8b3c18bc2441ba576651ab7afe5ad05f7f3fa2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 29/75] fix: error for the wrong number of fillet radii for a
 polygon

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index ab37ab3..70a74e4 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -428,7 +428,7 @@ class PolygonSet(object):
                             raise ValueError(
                                 "[GDSPY] Wrong length in fillet radius list.  "
                                 "Found {} radii for polygon with {} vertices.".format(
-                                    len(r), len(p.shape[0])
+                                    len(r), p.shape[0]
                                 )
                             )
                         radii.append(r)
-- 
2.43.0


From 0ab7dddb8a4285a0895b9138b77b2071e9629ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 30/75] fix: end point of L1Path after a final segment towards
 -y

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 70a74e4..e337e4d 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2259,7 +2259,7 @@ class L1Path(PolygonSet):
                 d0 = (number_of_paths - 1) * distance * 0.5 - ii * distance
                 paths[ii][0].append((paths[ii][0][-1][0], self.y - length[-1]))
                 paths[ii][1].append((paths[ii][1][-1][0], self.y - length[-1]))
-            self.y -= length[jj]
+            self.y -= length[-1]
         self.direction = ["+x", "+y", "-x", "-y"][direction]
         self.polygons.extend(numpy.array(p[0] + p[1][::-1]) for p in paths)
         self.layers.extend(layer)
-- 
2.43.0


From 963b167041b7fadd4231344087ff1549454d3b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 31/75] fix: exact and normalised conversion of numbers just
 below a power of 16 to 8-byte reals

---
 gdspy/gdsiiformat.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 57f367e..51cbf18 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -147,10 +147,9 @@ def _eight_byte_real(value):
         value = -value
     else:
         byte1 = 0x00
-    fexp = numpy.log2(value) / 4
-    exponent = int(numpy.ceil(fexp))
-    if fexp == exponent:
-        exponent += 1
+    # value = m * 2**e with 0.5 <= m < 1
+    e = int(numpy.frexp(value)[1])
+    exponent = -(-e // 4)
     mantissa = int(value * 16.0 ** (14 - exponent))
     byte1 += exponent + 64
     byte2 = mantissa // 281474976710656
-- 
2.43.0


From 1cc103ab37699770b32bed84b4c92d79d643cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 32/75] fix: path polygons follow changes in the layers and
 datatypes of the path (Cell.flatten)

---
 gdspy/path.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index f1387de..e8a1945 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -289,6 +289,7 @@ class FlexPath(object):
         "bend_radius",
         "properties",
         "_polygon_dict",
+        "_polygon_spec",
     )
 
     _pathtype_dict = {"flush": 0, "round": 1, "extended": 2, "smooth": 1}
@@ -406,7 +407,9 @@ class FlexPath(object):
         """
         if (self.points == self.points[:1]).all():
             return {} if by_spec else []
-        if self._polygon_dict is None:
+        spec = list(zip(self.layers, self.datatypes))
+        if self._polygon_dict is None or self._polygon_spec != spec:
+            self._polygon_spec = spec
             self._polygon_dict = {}
             if self.points.shape[0] == 2:
                 # Common case: single path with 2 points
@@ -1814,6 +1817,7 @@ class RobustPath(object):
         "width_transform",
         "properties",
         "_polygon_dict",
+        "_polygon_spec",
     )
 
     _pathtype_dict = {"flush": 0, "round": 1, "extended": 2, "smooth": 1}
@@ -1995,7 +1999,9 @@ class RobustPath(object):
         """
         if len(self.paths[0]) == 0:
             return {} if by_spec else []
-        if self._polygon_dict is None:
+        spec = list(zip(self.layers, self.datatypes))
+        if self._polygon_dict is None or self._polygon_spec != spec:
+            self._polygon_spec = spec
             self._polygon_dict = {}
             for path, end, layer, datatype in zip(
                 self.paths, self.ends, self.layers, self.datatypes
-- 
2.43.0


From 06ad54b6bed34d2749ec68e62bda65223aa9841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 33/75] fix: connect holes that touch a horizontal edge of the
 outline in polygon operations

---
 gdspy/clipper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index f5a599e..19f8dcc 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4782,11 +4782,11 @@ void link_holes(PolyNode *node, Paths &out)
         {
           xnew = x;
           p1 = pnext;
-        } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
-          xnew = p->X;
-          p1 = pnext;
-          break;
         }
+      } else if ((pnext->Y == p->Y && pprev->Y == p->Y) && ((pnext->X <= p->X && p->X <= pprev->X) || (pprev->X <= p->X && p->X <= pnext->X))) {
+        xnew = p->X;
+        p1 = pnext;
+        break;
       }
     }
 
-- 
2.43.0


From d9965fa394d8aac1cea36ee46e33865f9cdc869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 34/75] fix: PolygonSet.fracture terminates when the cuts fall
 on the polygon limits

---
 gdspy/polygon.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index e337e4d..8f17a71 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -351,22 +351,29 @@ class PolygonSet(object):
                     ncuts = len(pts0) // max_points
                     if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
                         # Vertical cuts
-                        cuts = [
-                            pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                            for i in range(1, ncuts + 1)
-                        ]
-                        chopped = clipper._chop(
-                            self.polygons[ii], cuts, 0, 1 / precision
-                        )
+                        axis, pts = 0, pts0
                     else:
                         # Horizontal cuts
-                        cuts = [
-                            pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                            for i in range(1, ncuts + 1)
-                        ]
-                        chopped = clipper._chop(
-                            self.polygons[ii], cuts, 1, 1 / precision
-                        )
+                        axis, pts = 1, pts1
+                    if pts[-1] - pts[0] < 1.5 * precision:
+                        # Too small to be cut
+                        ii += 1
+                        continue
+                    cuts = [
+                        pts[int(i * len(pts) / (ncuts + 1.0) + 0.5)]
+                        for i in range(1, ncuts + 1)
+                    ]
+                    # Cuts on the polygon limits would not divide it
+                    cuts = [
+                        c
+                        for c in cuts
+                        if pts[0] + precision < c < pts[-1] - precision
+                    ]
+                    if len(cuts) == 0:
+                        cuts = [0.5 * (pts[0] + pts[-1])]
+                    chopped = clipper._chop(
+                        self.polygons[ii], cuts, axis, 1 / precision
+                    )
                     self.polygons.pop(ii)
                     layer = self.layers.pop(ii)
                     datatype = self.datatypes.pop(ii)
-- 
2.43.0


From 2f8f828679fb4dfa302aca4ea0ff243108409fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 35/75] fix: offset with a negative distance shrinks
 overlapping polygons independently

---
 gdspy/clipper.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 19f8dcc..6f72bbe 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4990,14 +4990,29 @@ static PyObject* offset(PyObject *self, PyObject *args)
     clprof_join.AddPaths(subj, jtSquare, etClosedPolygon);
     clprof_join.Execute(intermediate, 0);
     clprof.AddPaths(intermediate, jt, etClosedPolygon);
+    clprof.Execute(solution, distance * scaling);
+  }
+  else if (distance < 0 && subj.size() > 1)
+  {
+    // The outlines of shrunk polygons may be inverted around their corners,
+    // so they cannot be combined before each of them is cleaned.
+    Clipper clpr;
+    for (Paths::iterator it = subj.begin(); it != subj.end(); ++it)
+    {
+      Paths shrunk;
+      clprof.Clear();
+      clprof.AddPath(*it, jt, etClosedPolygon);
+      clprof.Execute(shrunk, distance * scaling);
+      clpr.AddPaths(shrunk, ptSubject, true);
+    }
+    clpr.Execute(ctUnion, solution, pftNonZero, pftNonZero);
   }
   else
   {
     clprof.AddPaths(subj, jt, etClosedPolygon);
+    clprof.Execute(solution, distance * scaling);
   }
 
-  clprof.Execute(solution, distance * scaling);
-
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
 }
-- 
2.43.0


From c52c80a5b0897237c18e7110a3ed2c63322b562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 36/75] fix: inside accepts empty groups of points

---
 gdspy/clipper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 6f72bbe..fd0cdb8 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4882,6 +4882,11 @@ PyObject* build_polygon_tuple(Paths &polygons, double scaling)
 
 cInt bounding_box(Path& points, cInt* bb)
 {
+  if (points.empty())
+  {
+    bb[0] = bb[1] = bb[2] = bb[3] = 0;
+    return 0;
+  }
   bb[0] = points[0].X;
   bb[1] = points[0].X;
   bb[2] = points[0].Y;
-- 
2.43.0


From 6f98baa9388ab16f24a64606e0d81d3b30f44bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 37/75] fix: fracture of path polygons terminates when the cuts
 fall on the limits

---
 gdspy/path.py | 115 +++++++-------------------------------------------
 1 file changed, 15 insertions(+), 100 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index e8a1945..c38aa3b 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -37,7 +37,6 @@ import warnings
 import itertools
 import struct
 
-from gdspy import clipper
 from gdspy.hobby import _hobby
 from gdspy.polygon import PolygonSet
 
@@ -546,39 +545,11 @@ class FlexPath(object):
                                         poly[3],
                                     )
                                 )
-                    polygons = [poly]
-                    if self.max_points > 4 and poly.shape[0] > self.max_points:
-                        ii = 0
-                        while ii < len(polygons):
-                            if len(polygons[ii]) > self.max_points:
-                                pts0 = sorted(polygons[ii][:, 0])
-                                pts1 = sorted(polygons[ii][:, 1])
-                                ncuts = len(pts0) // self.max_points
-                                if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                    # Vertical cuts
-                                    cuts = [
-                                        pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
-                                    )
-                                else:
-                                    # Horizontal cuts
-                                    cuts = [
-                                        pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
-                                    )
-                                polygons.pop(ii)
-                                polygons.extend(
-                                    numpy.array(x)
-                                    for x in itertools.chain.from_iterable(chopped)
-                                )
-                            else:
-                                ii += 1
+                    polygons = (
+                        PolygonSet([poly])
+                        .fracture(self.max_points, self.precision)
+                        .polygons
+                    )
                     key = (self.layers[kk], self.datatypes[kk])
                     if key in self._polygon_dict:
                         self._polygon_dict[key].extend(polygons)
@@ -877,39 +848,11 @@ class FlexPath(object):
                     poly.extend(arms[0])
                     poly.extend(caps[1])
                     poly.extend(arms[1][::-1])
-                    polygons = [numpy.array(poly)]
-                    if self.max_points > 4 and polygons[0].shape[0] > self.max_points:
-                        ii = 0
-                        while ii < len(polygons):
-                            if len(polygons[ii]) > self.max_points:
-                                pts0 = sorted(polygons[ii][:, 0])
-                                pts1 = sorted(polygons[ii][:, 1])
-                                ncuts = len(pts0) // self.max_points
-                                if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                    # Vertical cuts
-                                    cuts = [
-                                        pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 0, 1 / self.precision
-                                    )
-                                else:
-                                    # Horizontal cuts
-                                    cuts = [
-                                        pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                        for i in range(1, ncuts + 1)
-                                    ]
-                                    chopped = clipper._chop(
-                                        polygons[ii], cuts, 1, 1 / self.precision
-                                    )
-                                polygons.pop(ii)
-                                polygons.extend(
-                                    numpy.array(x)
-                                    for x in itertools.chain.from_iterable(chopped)
-                                )
-                            else:
-                                ii += 1
+                    polygons = (
+                        PolygonSet([poly])
+                        .fracture(self.max_points, self.precision)
+                        .polygons
+                    )
                     key = (self.layers[kk], self.datatypes[kk])
                     if key in self._polygon_dict:
                         self._polygon_dict[key].extend(polygons)
@@ -2142,39 +2085,11 @@ class RobustPath(object):
                             start = 0
                     path_arm.extend(path[-1].points(start, 1, arm))
                     poly.extend(path_arm[::arm])
-                polygons = [numpy.array(poly)]
-                if self.max_points > 4 and polygons[0].shape[0] > self.max_points:
-                    ii = 0
-                    while ii < len(polygons):
-                        if len(polygons[ii]) > self.max_points:
-                            pts0 = sorted(polygons[ii][:, 0])
-                            pts1 = sorted(polygons[ii][:, 1])
-                            ncuts = len(pts0) // self.max_points
-                            if pts0[-1] - pts0[0] > pts1[-1] - pts1[0]:
-                                # Vertical cuts
-                                cuts = [
-                                    pts0[int(i * len(pts0) / (ncuts + 1.0) + 0.5)]
-                                    for i in range(1, ncuts + 1)
-                                ]
-                                chopped = clipper._chop(
-                                    polygons[ii], cuts, 0, 1 / self.precision
-                                )
-                            else:
-                                # Horizontal cuts
-                                cuts = [
-                                    pts1[int(i * len(pts1) / (ncuts + 1.0) + 0.5)]
-                                    for i in range(1, ncuts + 1)
-                                ]
-                                chopped = clipper._chop(
-                                    polygons[ii], cuts, 1, 1 / self.precision
-                                )
-                            polygons.pop(ii)
-                            polygons.extend(
-                                numpy.array(x)
-                                for x in itertools.chain.from_iterable(chopped)
-                            )
-                        else:
-                            ii += 1
+                polygons = (
+                    PolygonSet([poly])
+                    .fracture(self.max_points, self.precision)
+                    .polygons
+                )
                 key = (layer, datatype)
                 if key in self._polygon_dict:
                     self._polygon_dict[key].extend(polygons)
-- 
2.43.0


From ebddccfc020cbbe5ba9f69c7971bf5c36a5f778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 38/75] fix: parallel paths of Path keep their side in all
 sections

Right turning arcs and parametric sections exchanged the paths (and
their layers) with respect to segments and left turning arcs.
---
 gdspy/polygon.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 8f17a71..3badac4 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1406,10 +1406,13 @@ class Path(PolygonSet):
         cy = self.y - radius * numpy.sin(initial_angle)
         self.x = cx + radius * numpy.cos(final_angle)
         self.y = cy + radius * numpy.sin(final_angle)
+        # The paths are ordered from left to right of the direction of travel
         if final_angle > initial_angle:
             self.direction = final_angle + numpy.pi * 0.5
+            side = 1
         else:
             self.direction = final_angle - numpy.pi * 0.5
+            side = -1
         old_w = self.w
         old_distance = self.distance
         if final_width is not None:
@@ -1455,13 +1458,11 @@ class Path(PolygonSet):
             for jj in range(pieces):
                 for ii in range(self.n):
                     self.polygons.append(numpy.zeros((number_of_points, 2)))
-                    r0 = (
-                        radius
-                        + ii * distances[jj + 1]
-                        - (self.n - 1) * distances[jj + 1] * 0.5
+                    r0 = radius + side * distances[jj + 1] * (
+                        ii - (self.n - 1) * 0.5
                     )
-                    old_r0 = (
-                        radius + ii * distances[jj] - (self.n - 1) * distances[jj] * 0.5
+                    old_r0 = radius + side * distances[jj] * (
+                        ii - (self.n - 1) * 0.5
                     )
                     pts2 = number_of_points // 2
                     pts1 = number_of_points - pts2
@@ -1782,12 +1783,12 @@ class Path(PolygonSet):
             i1 = min(i0 + max_points, np)
             for ii in range(self.n):
                 p1 = x0[i0:i1] + dx[i0:i1] * (
-                    dist[i0:i1] * (ii - (self.n - 1) * 0.5) + width[i0:i1]
+                    dist[i0:i1] * ((self.n - 1) * 0.5 - ii) + width[i0:i1]
                 )
                 p2 = (
                     x0[i0:i1]
                     + dx[i0:i1]
-                    * (dist[i0:i1] * (ii - (self.n - 1) * 0.5) - width[i0:i1])
+                    * (dist[i0:i1] * ((self.n - 1) * 0.5 - ii) - width[i0:i1])
                 )[::-1]
                 if width[i1 - 1, 0] == 0:
                     p2 = p2[1:]
-- 
2.43.0


From b630d85a0b45ff5bceefa33ae1ddec0bc70dfa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 39/75] fix: Path.scale scales the distance between parallel
 paths

---
 gdspy/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 3badac4..e0ac936 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1192,7 +1192,7 @@ class Path(PolygonSet):
         Notes
         -----
         The direction of the path is not modified by this method and
-        its width is scaled only by `scalex`.
+        its width and distance are scaled only by `scalex`.
         """
         c0 = numpy.array(center)
         s = scalex if scaley is None else numpy.array((scalex, scaley))
@@ -1200,6 +1200,7 @@ class Path(PolygonSet):
         self.x = (self.x - c0[0]) * scalex + c0[0]
         self.y = (self.y - c0[1]) * (scalex if scaley is None else scaley) + c0[1]
         self.w *= scalex
+        self.distance *= scalex
         return self
 
     def mirror(self, p1, p2=(0, 0)):
-- 
2.43.0


From 503c02628b20c4fbec38d632680a2bc384d933ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 40/75] fix: arcs with radius smaller than the tolerance do not
 raise

The number of points of round ends, joins, arcs and discs was calculated
as NaN for radii (or path widths) below half of the tolerance or zero.
---
 gdspy/curve.py   |  3 ++-
 gdspy/path.py    | 20 ++++++++++----------
 gdspy/polygon.py | 13 +++++++++++--
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 4559be9..0452503 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -33,6 +33,7 @@ else:
 
 import numpy
 from gdspy.path import _func_bezier, _hobby
+from gdspy.polygon import _half_arc
 
 
 class Curve(object):
@@ -275,7 +276,7 @@ class Curve(object):
         number_of_points = max(
             3,
             1
-            + int(0.5 * full_angle / numpy.arccos(1 - self.tol ** 0.5 / radius) + 0.5),
+            + int(0.5 * full_angle / _half_arc(radius, self.tol ** 0.5) + 0.5),
         )
         angles = numpy.linspace(
             initial_angle - rotation, final_angle - rotation, number_of_points
diff --git a/gdspy/path.py b/gdspy/path.py
index c38aa3b..2f2ffef 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -38,7 +38,7 @@ import itertools
 import struct
 
 from gdspy.hobby import _hobby
-from gdspy.polygon import PolygonSet
+from gdspy.polygon import PolygonSet, _half_arc
 
 _halfpi = 0.5 * numpy.pi
 _angle_dict = {"l": _halfpi, "r": -_halfpi, "ll": numpy.pi, "rr": -numpy.pi}
@@ -489,7 +489,7 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi / _half_arc(r, self.tolerance) + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -504,7 +504,7 @@ class FlexPath(object):
                                 5,
                                 1
                                 + int(
-                                    _halfpi / numpy.arccos(1 - self.tolerance / r) + 0.5
+                                    _halfpi / _half_arc(r, self.tolerance) + 0.5
                                 ),
                             )
                             ang = numpy.linspace(_halfpi, -_halfpi, np) + numpy.arctan2(
@@ -680,7 +680,7 @@ class FlexPath(object):
                                         2,
                                         1
                                         + int(
-                                            da / numpy.arccos(1 - self.tolerance / r)
+                                            da / _half_arc(r, self.tolerance)
                                             + 0.5
                                         ),
                                     )
@@ -737,7 +737,7 @@ class FlexPath(object):
                                         + int(
                                             0.5
                                             * abs(a1 - a0)
-                                            / numpy.arccos(1 - self.tolerance / half_w)
+                                            / _half_arc(half_w, self.tolerance)
                                             + 0.5
                                         ),
                                     )
@@ -820,7 +820,7 @@ class FlexPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi / _half_arc(r, self.tolerance)
                                         + 0.5
                                     ),
                                 )
@@ -1019,8 +1019,8 @@ class FlexPath(object):
                             1
                             + int(
                                 da
-                                / numpy.arccos(
-                                    1 - self.tolerance / (r + 0.5 * self.widths[0, ii])
+                                / _half_arc(
+                                    r + 0.5 * self.widths[0, ii], self.tolerance
                                 )
                                 + 0.5
                             ),
@@ -1368,7 +1368,7 @@ class FlexPath(object):
             + int(
                 0.5
                 * abs(final_angle - initial_angle)
-                / numpy.arccos(1 - self.tolerance / rmax)
+                / _half_arc(rmax, self.tolerance)
                 + 0.5
             ),
         )
@@ -1989,7 +1989,7 @@ class RobustPath(object):
                                     5,
                                     1
                                     + int(
-                                        _halfpi / numpy.arccos(1 - self.tolerance / r)
+                                        _halfpi / _half_arc(r, self.tolerance)
                                         + 0.5
                                     ),
                                 )
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index e0ac936..68a5e02 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -45,6 +45,15 @@ _halfpi = 0.5 * numpy.pi
 _mpone = numpy.array((-1.0, 1.0))
 
 
+def _half_arc(radius, tolerance):
+    """
+    Half of the angle of the longest arc within tolerance of its chord.
+    """
+    if radius <= 0.5 * tolerance:
+        return numpy.pi
+    return numpy.arccos(1 - tolerance / radius)
+
+
 class PolygonSet(object):
     """
     Set of polygonal objects.
@@ -773,7 +782,7 @@ class Round(PolygonSet):
             )
             number_of_points = max(
                 3,
-                1 + int(0.5 * full_angle / numpy.arccos(1 - tolerance / radius) + 0.5),
+                1 + int(0.5 * full_angle / _half_arc(radius, tolerance) + 0.5),
             )
             if inner_radius > 0:
                 number_of_points *= 2
@@ -1442,7 +1451,7 @@ class Path(PolygonSet):
                 * int(
                     0.5
                     * abs(final_angle - initial_angle)
-                    / numpy.arccos(1 - tolerance / r)
+                    / _half_arc(r, tolerance)
                     + 0.5
                 ),
             )
-- 
2.43.0


From 7a411e976be9bb3780bba74942a7250194f75faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 41/75] fix: FlexPath.get_polygons does not modify the path and
 ignores sections without length

---
 gdspy/path.py | 66 +++++++++++++++++++++++++--------------------------
 1 file changed, 32 insertions(+), 34 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 2f2ffef..19e7c87 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -410,25 +410,31 @@ class FlexPath(object):
         if self._polygon_dict is None or self._polygon_spec != spec:
             self._polygon_spec = spec
             self._polygon_dict = {}
-            if self.points.shape[0] == 2:
+            # Sections with no length are ignored
+            keep = [0]
+            keep.extend(
+                (self.points[1:] != self.points[:-1]).any(axis=1).nonzero()[0] + 1
+            )
+            spine = self.points[keep, :]
+            widths = self.widths[keep, :]
+            offsets = self.offsets[keep, :]
+            if spine.shape[0] == 2:
                 # Common case: single path with 2 points
-                un = self.points[1] - self.points[0]
-                if un[0] == 0 and un[1] == 0:
-                    return {} if by_spec else []
+                un = spine[1] - spine[0]
                 un = un[::-1] * _mpone / (un[0] ** 2 + un[1] ** 2) ** 0.5
                 for kk in range(self.n):
                     end = self.ends[kk]
                     pts = numpy.array(
                         (
-                            self.points[0] + un * self.offsets[0, kk],
-                            self.points[1] + un * self.offsets[1, kk],
+                            spine[0] + un * offsets[0, kk],
+                            spine[1] + un * offsets[1, kk],
                         )
                     )
                     vn = pts[1] - pts[0]
                     vn = vn[::-1] * _mpone / (vn[0] ** 2 + vn[1] ** 2) ** 0.5
                     v = (
-                        vn * (0.5 * self.widths[0, kk]),
-                        vn * (0.5 * self.widths[1, kk]),
+                        vn * (0.5 * widths[0, kk]),
+                        vn * (0.5 * widths[1, kk]),
                     )
                     poly = numpy.array(
                         (pts[0] - v[0], pts[0] + v[0], pts[1] + v[1], pts[1] - v[1])
@@ -484,7 +490,7 @@ class FlexPath(object):
                             poly = numpy.array(cap)
                         elif end == "round":
                             v = pts[1] - pts[0]
-                            r = 0.5 * self.widths[0, kk]
+                            r = 0.5 * widths[0, kk]
                             np = max(
                                 5,
                                 1
@@ -499,7 +505,7 @@ class FlexPath(object):
                                 pts[0]
                                 + r * numpy.vstack((numpy.cos(ang), numpy.sin(ang))).T
                             )
-                            r = 0.5 * self.widths[1, kk]
+                            r = 0.5 * widths[1, kk]
                             np = max(
                                 5,
                                 1
@@ -522,12 +528,12 @@ class FlexPath(object):
                             v = pts[1] - pts[0]
                             v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
                             if end == "extended":
-                                v0 = 0.5 * self.widths[0, kk] * v
-                                v1 = 0.5 * self.widths[1, kk] * v
+                                v0 = 0.5 * widths[0, kk] * v
+                                v1 = 0.5 * widths[1, kk] * v
                             else:
                                 v0 = end[0] * v
                                 v1 = end[1] * v
-                            if self.widths[0, kk] == self.widths[1, kk]:
+                            if widths[0, kk] == widths[1, kk]:
                                 poly[0] -= v0
                                 poly[1] -= v0
                                 poly[2] += v1
@@ -557,24 +563,16 @@ class FlexPath(object):
                         self._polygon_dict[key] = polygons
             else:
                 # More than 1 path or more than 2 points
-                un = self.points[1:] - self.points[:-1]
+                un = spine[1:] - spine[:-1]
                 un2 = un[:, 0] ** 2 + un[:, 1] ** 2
-                if not un2.all():
-                    nz = [0]
-                    nz.extend(un2.nonzero()[0] + 1)
-                    self.points = self.points[nz, :]
-                    self.widths = self.widths[nz, :]
-                    self.offsets = self.offsets[nz, :]
-                    un = self.points[1:] - self.points[:-1]
-                    un2 = un[:, 0] ** 2 + un[:, 1] ** 2
                 un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
                 for kk in range(self.n):
                     corner = self.corners[kk]
                     end = self.ends[kk]
-                    if any(self.offsets[:, kk] != 0):
-                        pts = numpy.empty(self.points.shape)
-                        sa = self.points[:-1] + un * self.offsets[:-1, kk : kk + 1]
-                        sb = self.points[1:] + un * self.offsets[1:, kk : kk + 1]
+                    if any(offsets[:, kk] != 0):
+                        pts = numpy.empty(spine.shape)
+                        sa = spine[:-1] + un * offsets[:-1, kk : kk + 1]
+                        sb = spine[1:] + un * offsets[1:, kk : kk + 1]
                         vn = sb - sa
                         den = vn[1:, 0] * vn[:-1, 1] - vn[1:, 1] * vn[:-1, 0]
                         idx = numpy.nonzero(
@@ -599,7 +597,7 @@ class FlexPath(object):
                         pts[0] = sa[0]
                         pts[-1] = sb[-1]
                     else:
-                        pts = self.points
+                        pts = spine
                     vn = pts[1:] - pts[:-1]
                     vn = (
                         vn[:, ::-1]
@@ -613,18 +611,18 @@ class FlexPath(object):
                     for ii in (0, 1):
                         sign = -1 if ii == 0 else 1
                         pa = pts[:-1] + vn * (
-                            sign * 0.5 * self.widths[:-1, kk : kk + 1]
+                            sign * 0.5 * widths[:-1, kk : kk + 1]
                         )
-                        pb = pts[1:] + vn * (sign * 0.5 * self.widths[1:, kk : kk + 1])
+                        pb = pts[1:] + vn * (sign * 0.5 * widths[1:, kk : kk + 1])
                         vec = pb - pa
                         caps[0].append(pa[0])
                         caps[1].append(pb[-1])
-                        for jj in range(1, self.points.shape[0] - 1):
+                        for jj in range(1, spine.shape[0] - 1):
                             p0 = pb[jj - 1]
                             v0 = vec[jj - 1]
                             p1 = pa[jj]
                             v1 = vec[jj]
-                            half_w = 0.5 * self.widths[jj, kk]
+                            half_w = 0.5 * widths[jj, kk]
                             if corner == "natural":
                                 v0 = v0 * (half_w / (v0[0] ** 2 + v0[1] ** 2) ** 0.5)
                                 v1 = v1 * (half_w / (v1[0] ** 2 + v1[1] ** 2) ** 0.5)
@@ -694,7 +692,7 @@ class FlexPath(object):
                                     arms[ii].extend(points - points[0] + p0 - d * v0)
                             elif callable(corner):
                                 arms[ii].extend(
-                                    corner(p0, v0, p1, v1, pts[jj], self.widths[jj, kk])
+                                    corner(p0, v0, p1, v1, pts[jj], widths[jj, kk])
                                 )
                             else:
                                 den = v1[1] * v0[0] - v1[0] * v0[1]
@@ -815,7 +813,7 @@ class FlexPath(object):
                                 caps[ii] = fu
                             elif end == "round":
                                 v = pts[0] - pts[1] if ii == 0 else pts[-1] - pts[-2]
-                                r = 0.5 * self.widths[-ii, kk]
+                                r = 0.5 * widths[-ii, kk]
                                 np = max(
                                     5,
                                     1
@@ -836,7 +834,7 @@ class FlexPath(object):
                                 v = pts[0] - pts[1] if ii == 0 else pts[-1] - pts[-2]
                                 v = v / (v[0] ** 2 + v[1] ** 2) ** 0.5
                                 w = (2 * ii - 1) * v[::-1] * _pmone
-                                r = 0.5 * self.widths[-ii, kk]
+                                r = 0.5 * widths[-ii, kk]
                                 d = r if end == "extended" else end[ii]
                                 caps[ii] = [
                                     pts[-ii] + r * w,
-- 
2.43.0


From b107990d643135e10bd49adfb962e9b3caf9aace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 42/75] fix: smooth curve through 2 points without angles is a
 straight line

---
 gdspy/hobby.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/hobby.py b/gdspy/hobby.py
index cb1923e..f3e01c1 100644
--- a/gdspy/hobby.py
+++ b/gdspy/hobby.py
@@ -210,7 +210,9 @@ def _hobby(points, angles=None, curl_start=1, curl_end=1, t_in=1, t_out=1, cycle
                 coef[2 * nn - 1] = phi[j - 1]
                 m[2 * nn - 1, nn - 1] = 0
                 m[2 * nn - 1, 2 * nn - 1] = 1
-            if nn > 1 or angles[i] is None or angles[j] is None:
+            if nn == 1 and angles[i] is None and angles[j] is None:
+                theta[i] = phi[i] = 0
+            elif nn > 1 or angles[i] is None or angles[j] is None:
                 # print("range:", i, j)
                 # print("A =", m)
                 # print("b =", coef)
-- 
2.43.0


From 68f23753d73c0b66853ceff83515a2efb2a47e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:24 +0000
Subject: [PATCH 43/75] fix: FlexPath.to_gds does not modify the path

---
 gdspy/path.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 19e7c87..a5187c3 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -913,16 +913,13 @@ class FlexPath(object):
         else:
             self.to_polygonset().to_gds(outfile, multiplier)
             return
-        un = self.points[1:] - self.points[:-1]
+        # Sections with no length are ignored
+        keep = [0]
+        keep.extend((self.points[1:] != self.points[:-1]).any(axis=1).nonzero()[0] + 1)
+        spine = self.points[keep, :]
+        offsets = self.offsets[keep, :]
+        un = spine[1:] - spine[:-1]
         un2 = un[:, 0] ** 2 + un[:, 1] ** 2
-        if not un2.all():
-            nz = [0]
-            nz.extend(un2.nonzero()[0] + 1)
-            self.points = self.points[nz, :]
-            self.widths = self.widths[nz, :]
-            self.offsets = self.offsets[nz, :]
-            un = self.points[1:] - self.points[:-1]
-            un2 = un[:, 0] ** 2 + un[:, 1] ** 2
         un = un[:, ::-1] * _mpone / (un2 ** 0.5).reshape((un.shape[0], 1))
         for ii in range(self.n):
             pathtype = (
@@ -961,10 +958,10 @@ class FlexPath(object):
                         int(round(self.ends[ii][1] * multiplier)),
                     )
                 )
-            if any(self.offsets[:, ii] != 0):
-                points = numpy.zeros(self.points.shape)
-                sa = self.points[:-1] + un * self.offsets[:-1, ii : ii + 1]
-                sb = self.points[1:] + un * self.offsets[1:, ii : ii + 1]
+            if any(offsets[:, ii] != 0):
+                points = numpy.zeros(spine.shape)
+                sa = spine[:-1] + un * offsets[:-1, ii : ii + 1]
+                sb = spine[1:] + un * offsets[1:, ii : ii + 1]
                 vn = sb - sa
                 den = vn[1:, 0] * vn[:-1, 1] - vn[1:, 1] * vn[:-1, 0]
                 idx = numpy.nonzero(
@@ -985,7 +982,7 @@ class FlexPath(object):
                 points[0] = sa[0]
                 points[-1] = sb[-1]
             else:
-                points = self.points
+                points = spine
             if self.corners[ii] == "circular bend":
                 r = self.bend_radius[ii]
                 p0 = points[0]
-- 
2.43.0


From 48679cb5e6d7b3a5798343e1c2d42357ee0a6c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 44/75] fix: round corners of tapered FlexPaths stay on their
 side of the path

---
 gdspy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index a5187c3..9aa0ddc 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -718,7 +718,7 @@ class FlexPath(object):
                                     arms[ii].append(p0)
                                     arms[ii].append(p1)
                                 elif corner == "round":
-                                    if v0[1] * v1[0] - v0[0] * v1[1] < 0:
+                                    if ii == 0:
                                         a0 = numpy.arctan2(-v0[0], v0[1])
                                         a1 = numpy.arctan2(-v1[0], v1[1])
                                     else:
-- 
2.43.0


From a04f0538134136c8c66a329ca45a54641975c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 45/75] fix: no loops in smooth corners on the inner side of
 slight turns of tapered FlexPaths

---
 gdspy/path.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index 9aa0ddc..1089f6d 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -747,6 +747,13 @@ class FlexPath(object):
                                             (numpy.cos(angles), numpy.sin(angles))
                                         ).T
                                     )
+                                elif (
+                                    corner == "smooth"
+                                    and numpy.dot(p1 - p0, v0) <= 0
+                                    and numpy.dot(p1 - p0, v1) <= 0
+                                ):
+                                    # Inner side of a slight turn
+                                    arms[ii].append(0.5 * (p0 + p1))
                                 elif corner == "smooth":
                                     angles = [
                                         numpy.arctan2(v0[1], v0[0]),
-- 
2.43.0


From 057502dd4102cb4209e8238b2c99677d64c4a6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 46/75] fix: RobustPath.turn starts in the current direction of
 the path after rotations and reflections

---
 gdspy/path.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 1089f6d..2bb4eca 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2693,9 +2693,15 @@ class RobustPath(object):
             )
         angle = _angle_dict.get(angle, angle)
         initial_angle = 0
+        first = None
         for p in self.paths:
-            v = p[i].grad(1, 0, False)
-            initial_angle += numpy.arctan2(v[1], v[0])
+            v = p[i].grad(1, 0)
+            a = numpy.arctan2(v[1], v[0])
+            if first is None:
+                first = a
+            # Directions are averaged around the first one, so that they are
+            # never separated by the discontinuity at pi
+            initial_angle += numpy.round((first - a) / (2 * numpy.pi)) * 2 * numpy.pi + a
         initial_angle = initial_angle / len(self.paths) + (
             _halfpi if angle < 0 else -_halfpi
         )
-- 
2.43.0


From cbe0e6a8b45815a5fb41ffc4fa86d18f7bdecbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 47/75] fix: new widths of a reflected RobustPath do not swap
 its sides

---
 gdspy/path.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 2bb4eca..4dcd30d 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2529,13 +2529,13 @@ class RobustPath(object):
                     stacklevel=3,
                 )
             return _func_const(self.widths[idx])
-        elif hasattr(arg, "__getitem__"):
-            if callable(arg[idx]):
-                return arg[idx]
-            return _func_linear(self.widths[idx], arg[idx])
-        elif callable(arg):
-            return arg
-        return _func_linear(self.widths[idx], arg)
+        if hasattr(arg, "__getitem__"):
+            arg = arg[idx]
+        # Widths are negative after a reflection
+        sign = -1 if self.widths[idx] < 0 else 1
+        if callable(arg):
+            return arg if sign > 0 else (lambda u: -arg(u))
+        return _func_linear(self.widths[idx], sign * arg)
 
     def segment(self, end_point, width=None, offset=None, relative=False):
         """
-- 
2.43.0


From c12305248a2026d2993b89ac1126af83f70de2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 48/75] fix: RobustPath accepts numpy numbers as widths and
 offsets

---
 gdspy/path.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 4dcd30d..ce1df09 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -2512,7 +2512,7 @@ class RobustPath(object):
     def _parse_offset(self, arg, idx):
         if arg is None:
             return _func_const(self.offsets[idx])
-        elif hasattr(arg, "__getitem__"):
+        elif hasattr(arg, "__iter__"):
             if callable(arg[idx]):
                 return arg[idx]
             return _func_linear(self.offsets[idx], arg[idx])
@@ -2529,7 +2529,7 @@ class RobustPath(object):
                     stacklevel=3,
                 )
             return _func_const(self.widths[idx])
-        if hasattr(arg, "__getitem__"):
+        if hasattr(arg, "__iter__"):
             arg = arg[idx]
         # Widths are negative after a reflection
         sign = -1 if self.widths[idx] < 0 else 1
-- 
2.43.0


From 05a276c2d28502bd8d034dbfdeca559ac59bb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 49/75] fix: scaling a GDSII RobustPath without width_transform
 keeps its polygon widths

---
 gdspy/path.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gdspy/path.py b/gdspy/path.py
index ce1df09..fd5e832 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -181,6 +181,11 @@ class _SubPath(object):
         )
         return self
 
+    def scale_width(self, factor):
+        wid = self.wid
+        self.wid = lambda u: factor * wid(u)
+        return self
+
     def rotate(self, angle):
         c = numpy.cos(angle)
         s = numpy.sin(angle)
@@ -2435,6 +2440,8 @@ class RobustPath(object):
             for sub in path:
                 sub.scale(scale)
                 sub.translate(c0)
+                if self.gdsii_path and not self.width_transform:
+                    sub.scale_width(1 / abs(scale))
         return self
 
     def _scale_parameters(self, scale):
@@ -2495,6 +2502,8 @@ class RobustPath(object):
             for path in self.paths:
                 for sub in path:
                     sub.scale(scale)
+                    if self.gdsii_path and not self.width_transform:
+                        sub.scale_width(1 / abs(scale))
         if rotation is not None:
             ca = numpy.cos(rotation)
             sa = numpy.sin(rotation) * _mpone
-- 
2.43.0


From 12bdf92e7a6eae1cdf6bdcf924e9505ab26b4f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 50/75] fix: end caps of reflected RobustPaths are not twisted

---
 gdspy/path.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index fd5e832..6ded2c9 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1991,6 +1991,9 @@ class RobustPath(object):
                             p = path[i](u, 0)
                             v = -arm * path[i].grad(u, 0)
                             r = 0.5 * path[i].width(u)
+                            # Sides are exchanged by reflections
+                            d = path[i](u, -arm) - path[i](u, arm)
+                            s = -1 if d[0] * v[1] - d[1] * v[0] < 0 else 1
                             if end == "round":
                                 np = max(
                                     5,
@@ -2000,7 +2003,7 @@ class RobustPath(object):
                                         + 0.5
                                     ),
                                 )
-                                ang = numpy.linspace(-_halfpi, _halfpi, np)[
+                                ang = s * numpy.linspace(-_halfpi, _halfpi, np)[
                                     1:-1
                                 ] + numpy.arctan2(v[1], v[0])
                                 endpts = (
@@ -2011,7 +2014,7 @@ class RobustPath(object):
                                 poly.extend(endpts)
                             else:
                                 v /= (v[0] ** 2 + v[1] ** 2) ** 0.5
-                                w = v[::-1] * _pmone
+                                w = s * v[::-1] * _pmone
                                 d = r if end == "extended" else end[u]
                                 poly.append(p + d * v + r * w)
                                 poly.append(p + d * v - r * w)
-- 
2.43.0


From 2e58826d02b6efbd96417ec6b13ec5af065b8ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 51/75] fix: gdsii_hash fails on files padded with less than 4
 bytes

---
 gdspy/gdsiiformat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index 51cbf18..d4fc6ca 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -210,7 +210,8 @@ def gdsii_hash(filename, engine=None):
         data = fin.read()
     contents = []
     start = pos = 0
-    while pos < len(data):
+    # Less than 4 remaining bytes can only be padding
+    while pos + 4 <= len(data):
         size, rec = struct.unpack(">HH", data[pos : pos + 4])
         if rec == 0x0502:
             start = pos + 28
-- 
2.43.0


From 5ace1ac98b5aabe2e0f4c78cc5063ded4cd31706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 52/75] fix: strings cut by the end of a GDSII stream are read
 as complete

---
 gdspy/gdsiiformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index d4fc6ca..eb4183f 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -91,6 +91,8 @@ def _record_reader(stream):
                 )
             else:
                 data = stream.read(size - 4)
+                if len(data) < size - 4:
+                    raise ValueError("[GDSPY] Unexpected end of GDSII stream.")
                 if str is not bytes:
                     if data[-1] == 0:
                         data = data[:-1].decode("ascii")
-- 
2.43.0


From 4945b46fa89ccd32b58c340241311a33c92c015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 53/75] fix: rotations and magnifications in SVG are rounded to
 the precision of coordinates

---
 gdspy/label.py   |  8 ++------
 gdspy/library.py | 16 ++++------------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/gdspy/label.py b/gdspy/label.py
index 3710c6a..6e6069a 100644
--- a/gdspy/label.py
+++ b/gdspy/label.py
@@ -290,17 +290,13 @@ class Label(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    -self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(-self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
         if self.magnification is not None:
             transform += " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         ta = ["start", "middle", "end"][self.anchor % 4]
         da = ["text-before-edge", "central", "text-after-edge"][self.anchor // 4]
diff --git a/gdspy/library.py b/gdspy/library.py
index 9a4dbf2..c7da324 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1255,17 +1255,13 @@ class CellReference(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
         if self.magnification is not None:
             transform += " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         outfile.write('<use transform="')
         outfile.write(transform)
@@ -1836,9 +1832,7 @@ class CellArray(object):
         )
         if self.rotation is not None:
             transform += " rotate({})".format(
-                numpy.format_float_positional(
-                    self.rotation, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.rotation, trim="0")
             )
         if self.x_reflection:
             transform += " scale(1 -1)"
@@ -1846,9 +1840,7 @@ class CellArray(object):
             ""
             if self.magnification is None
             else " scale({})".format(
-                numpy.format_float_positional(
-                    self.magnification, trim="0", precision=precision
-                )
+                numpy.format_float_positional(self.magnification, trim="0")
             )
         )
         for ii in range(self.columns):
-- 
2.43.0


From 11542ead13b9a549d30d4b20f018c8c2e3ec0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 54/75] fix: elliptical Round with an angle at an odd multiple
 of pi beyond the first gains a turn

---
 gdspy/polygon.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 68a5e02..0d16f64 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -737,10 +737,9 @@ class Round(PolygonSet):
             radius = max(radius)
 
             def outer_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                t = numpy.arctan2(orx * numpy.sin(a), ory * numpy.cos(a))
+                # Same number of turns as the original angle
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             orx = ory = radius
@@ -753,10 +752,9 @@ class Round(PolygonSet):
             inner_radius = max(inner_radius)
 
             def inner_transform(a):
-                r = a - ((a + numpy.pi) % (2 * numpy.pi) - numpy.pi)
-                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a)) + r
-                t[a == numpy.pi] = numpy.pi
-                return t
+                t = numpy.arctan2(irx * numpy.sin(a), iry * numpy.cos(a))
+                # Same number of turns as the original angle
+                return t + 2 * numpy.pi * numpy.round((a - t) / (2 * numpy.pi))
 
         else:
             irx = iry = inner_radius
-- 
2.43.0


From f5198028e07d7a43684c3947aea51c9b16dbca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 55/75] fix: tolerance of elliptical Round sections ignores the
 range of the parametric angle

---
 gdspy/polygon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 0d16f64..855fcac 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -773,10 +773,14 @@ class Round(PolygonSet):
             number_of_points = None
 
         if number_of_points is None:
+            ends = numpy.array((initial_angle, final_angle))
             full_angle = (
                 2 * numpy.pi
                 if final_angle == initial_angle
-                else abs(final_angle - initial_angle)
+                else max(
+                    numpy.abs(numpy.diff(transform(ends)))[0]
+                    for transform in (outer_transform, inner_transform)
+                )
             )
             number_of_points = max(
                 3,
-- 
2.43.0


From 1f366b9b7aab1cfaf775ff94bab4967b6df1f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 56/75] fix: Round sections and rings have fewer segments than
 their tolerance requires

---
 gdspy/polygon.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 855fcac..d0c8dc1 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -786,8 +786,12 @@ class Round(PolygonSet):
                 3,
                 1 + int(0.5 * full_angle / _half_arc(radius, tolerance) + 0.5),
             )
+            # Besides the segments along the arc: an end point (rings and
+            # sections) and the center (sections without inner radius)
             if inner_radius > 0:
-                number_of_points *= 2
+                number_of_points = 2 * (number_of_points + 1)
+            elif final_angle != initial_angle:
+                number_of_points += 2
 
         pieces = (
             1
-- 
2.43.0


From a377a56a2a16e16ba74f14257f9173859eae114d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 57/75] fix: labels of transformed cell copies keep their
 position as an array

---
 gdspy/library.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index c7da324..39664a3 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -264,9 +264,11 @@ class Cell(object):
                 s0 = 1 if lbl.magnification is None else lbl.magnification
                 t0 = 0 if lbl.rotation is None else (lbl.rotation * numpy.pi / 180)
                 dx0, dy0 = lbl.position
-                lbl.position = (
-                    dx + s * (dx0 * ct - r * dy0 * st),
-                    dy + s * (dx0 * st + r * dy0 * ct),
+                lbl.position = numpy.array(
+                    (
+                        dx + s * (dx0 * ct - r * dy0 * st),
+                        dy + s * (dx0 * st + r * dy0 * ct),
+                    )
                 )
                 lbl.rotation = (r * t0 + t) * 180 / numpy.pi
                 if lbl.rotation == 0:
-- 
2.43.0


From 5c7c5643c27e2f816c6c65616a9296c85bab5b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 58/75] fix: references copy the origin and spacing they are
 given

---
 gdspy/library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/library.py b/gdspy/library.py
index 39664a3..9a812ef 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1126,7 +1126,7 @@ class CellReference(object):
         x_reflection=False,
         ignore_missing=False,
     ):
-        self.origin = origin
+        self.origin = libcopy.copy(origin)
         self.ref_cell = ref_cell
         self.rotation = rotation
         self.magnification = magnification
@@ -1651,8 +1651,8 @@ class CellArray(object):
     ):
         self.columns = columns
         self.rows = rows
-        self.spacing = spacing
-        self.origin = origin
+        self.spacing = libcopy.copy(spacing)
+        self.origin = libcopy.copy(origin)
         self.ref_cell = ref_cell
         self.rotation = rotation
         self.magnification = magnification
-- 
2.43.0


From c1c26aea6ec95428c52b0fb315a0b1f5c9624d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:36 +0000
Subject: [PATCH 59/75] fix: deep copies of a cell do not share the origin and
 spacing of references

---
 gdspy/library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gdspy/library.py b/gdspy/library.py
index 9a812ef..347f63b 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -237,6 +237,9 @@ class Cell(object):
         new_cell.references = [libcopy.copy(ref) for ref in self.references]
         for ref in new_cell.references:
             ref.properties = libcopy.copy(ref.properties)
+            ref.origin = libcopy.copy(ref.origin)
+            if isinstance(ref, CellArray):
+                ref.spacing = libcopy.copy(ref.spacing)
 
         if transform:
             r = -1 if x_reflection else 1
-- 
2.43.0


From c8dfc41ab3e71f90598c0f2eb21bd97f38dca21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 60/75] fix: PolyPath corners between collinear segments

---
 gdspy/polygon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index d0c8dc1..9ab323d 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -2587,7 +2587,7 @@ class PolyPath(PolygonSet):
                     p0m = paths[ii][kk][-1] - p0[ii][kk]
                     p1p = pp[ii][kk] - p1[ii][kk]
                     vec = p0m[0] * p1p[1] - p1p[0] * p0m[1]
-                    if abs(vec) > 1e-30:
+                    if abs(vec) > 1e-12 * (p0m.dot(p0m) * p1p.dot(p1p)) ** 0.5:
                         p = (
                             _pmone
                             * (
-- 
2.43.0


From 665d15f2703182d1ddc2f1a3042f484f955c8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 61/75] fix: orientation of polygons with large coordinates

---
 gdspy/clipper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index fd0cdb8..85b3d42 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4643,7 +4643,7 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
   /* Parse a complete polygon */
   PyObject *py_point, *py_coord;
   long num_points = PySequence_Length(py_polygon);
-  cInt orientation = 0;
+  Int128 orientation(0);
 
   if (!PySequence_Check(py_polygon))
   {
@@ -4684,9 +4684,9 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     std::cout << path[j].X << "," << path[j].Y << std::endl;
 #endif //DEBUG
     if (check_orientation == true && j > 1)
-      orientation += (path[0].X - path[j].X) * (path[j-1].Y - path[0].Y) - (path[0].Y - path[j].Y) * (path[j-1].X - path[0].X);
+      orientation += Int128Mul(path[0].X - path[j].X, path[j-1].Y - path[0].Y) - Int128Mul(path[0].Y - path[j].Y, path[j-1].X - path[0].X);
   }
-  if (check_orientation == true && orientation < 0)
+  if (check_orientation == true && orientation < Int128(0))
   {
     reverse(path.begin(), path.end());
 #ifdef DEBUG
-- 
2.43.0


From e2790250fd881676d16f4d5492a1d763292ddd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 62/75] fix: holes linked by large polygons keep their position

---
 gdspy/clipper.cpp | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 85b3d42..6eb0df6 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4744,6 +4744,38 @@ bool path_compare(Path &p1, Path &p2)
 
 //------------------------------------------------------------------------------
 
+cInt mul_div(cInt a, cInt b, cInt c)
+{
+  // a * b / c rounded towards zero, for |b| <= |c|, whatever the size of a * b
+  bool negate = ((a < 0) != (b < 0)) != (c < 0);
+  ulong64 x = a < 0 ? -(ulong64)a : (ulong64)a;
+  ulong64 y = b < 0 ? -(ulong64)b : (ulong64)b;
+  ulong64 z = c < 0 ? -(ulong64)c : (ulong64)c;
+  ulong64 quotient = 0, remainder = 0;
+  for (int bit = 63; bit >= 0; --bit)
+  {
+    quotient <<= 1;
+    remainder <<= 1;
+    if (remainder >= z)
+    {
+      remainder -= z;
+      ++quotient;
+    }
+    if ((x >> bit) & 1)
+    {
+      remainder += y;
+      if (remainder >= z)
+      {
+        remainder -= z;
+        ++quotient;
+      }
+    }
+  }
+  return negate ? -(cInt)quotient : (cInt)quotient;
+}
+
+//------------------------------------------------------------------------------
+
 void link_holes(PolyNode *node, Paths &out)
 {
   Path result = node->Contour;
@@ -4777,7 +4809,7 @@ void link_holes(PolyNode *node, Paths &out)
     {
       if ((pnext->Y <= p->Y && p->Y < pprev->Y) || (pprev->Y < p->Y && p->Y <= pnext->Y))
       {
-        cInt x = pnext->X + ((pprev->X - pnext->X) * (p->Y - pnext->Y)) / (pprev->Y - pnext->Y);
+        cInt x = pnext->X + mul_div(pprev->X - pnext->X, p->Y - pnext->Y, pprev->Y - pnext->Y);
         if ((x > xnew || p1 == result.end()) && x <= p->X)
         {
           xnew = x;
-- 
2.43.0


From fe29fd31a95a8f1bcdcdecc4a64d767e3bf216a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 63/75] fix: error handling of the arguments of the clipper
 module

---
 gdspy/clipper.cpp | 109 ++++++++++++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 38 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index 6eb0df6..cd6c331 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -4642,12 +4642,11 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
 {
   /* Parse a complete polygon */
   PyObject *py_point, *py_coord;
-  long num_points = PySequence_Length(py_polygon);
+  long num_points;
   Int128 orientation(0);
 
-  if (!PySequence_Check(py_polygon))
+  if (!PySequence_Check(py_polygon) || (num_points = PySequence_Length(py_polygon)) < 0)
   {
-    Py_DECREF(py_polygon);
     PyErr_SetString(PyExc_TypeError, "Polygon must be a sequence.");
     return -1;
   }
@@ -4655,15 +4654,11 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
   path.resize(num_points);
   for (long j = 0; j < num_points; ++j)
   {
-    if ((py_point = PySequence_ITEM(py_polygon, j)) == NULL)
-    {
-      Py_DECREF(py_polygon);
+    if ((py_point = PySequence_GetItem(py_polygon, j)) == NULL)
       return -1;
-    }
     if ((py_coord = PySequence_GetItem(py_point, 0)) == NULL)
     {
       Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
       return -1;
     }
     double x = PyFloat_AsDouble(py_coord);
@@ -4672,12 +4667,18 @@ short parse_polygon(PyObject *py_polygon, Path &path, double scaling, bool check
     if ((py_coord = PySequence_GetItem(py_point, 1)) == NULL)
     {
       Py_DECREF(py_point);
-      Py_DECREF(py_polygon);
       return -1;
     }
     double y = PyFloat_AsDouble(py_coord);
     Py_DECREF(py_coord);
     Py_DECREF(py_point);
+    if (PyErr_Occurred() != NULL)
+      return -1;
+    if (!(fabs(scaling * x) < (double)hiRange && fabs(scaling * y) < (double)hiRange))
+    {
+      PyErr_SetString(PyExc_ValueError, "Coordinate outside the range allowed by the precision.");
+      return -1;
+    }
     path[j].X = Round(scaling * x);
     path[j].Y = Round(scaling * y);
 #ifdef DEBUG
@@ -4969,9 +4970,17 @@ static PyObject* clip(PyObject *self, PyObject *args)
   if (parse_polygon_set(polyA, subj, scaling, true) != 0) return NULL;
   if (parse_polygon_set(polyB, clip, scaling, true) != 0) return NULL;
 
-  clpr.AddPaths(subj, ptSubject, true);
-  clpr.AddPaths(clip, ptClip, true);
-  clpr.Execute(oper, solution, pftNonZero, pftNonZero);
+  try
+  {
+    clpr.AddPaths(subj, ptSubject, true);
+    clpr.AddPaths(clip, ptClip, true);
+    clpr.Execute(oper, solution, pftNonZero, pftNonZero);
+  }
+  catch (std::exception &e)
+  {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return NULL;
+  }
 
   tree2paths(solution, result);
   return build_polygon_tuple(result, scaling);
@@ -5019,35 +5028,50 @@ static PyObject* offset(PyObject *self, PyObject *args)
 
   if (parse_polygon_set(polygons, subj, scaling, true) != 0) return NULL; 
 
-  if (joinFirst > 0)
+  // The displacement of a vertex is limited by the miter limit (at least 2) for miters
+  if (!(fabs(distance * scaling) * (jt == jtMiter && tolerance > 2 ? tolerance : 2) < (double)hiRange))
   {
-    Paths intermediate;
-    ClipperOffset clprof_join;
-
-    clprof_join.AddPaths(subj, jtSquare, etClosedPolygon);
-    clprof_join.Execute(intermediate, 0);
-    clprof.AddPaths(intermediate, jt, etClosedPolygon);
-    clprof.Execute(solution, distance * scaling);
+    PyErr_SetString(PyExc_ValueError, "Distance outside the range allowed by the precision.");
+    return NULL;
   }
-  else if (distance < 0 && subj.size() > 1)
+
+  try
   {
-    // The outlines of shrunk polygons may be inverted around their corners,
-    // so they cannot be combined before each of them is cleaned.
-    Clipper clpr;
-    for (Paths::iterator it = subj.begin(); it != subj.end(); ++it)
+    if (joinFirst > 0)
+    {
+      Paths intermediate;
+      ClipperOffset clprof_join;
+
+      clprof_join.AddPaths(subj, jtSquare, etClosedPolygon);
+      clprof_join.Execute(intermediate, 0);
+      clprof.AddPaths(intermediate, jt, etClosedPolygon);
+      clprof.Execute(solution, distance * scaling);
+    }
+    else if (distance < 0 && subj.size() > 1)
+    {
+      // The outlines of shrunk polygons may be inverted around their corners,
+      // so they cannot be combined before each of them is cleaned.
+      Clipper clpr;
+      for (Paths::iterator it = subj.begin(); it != subj.end(); ++it)
+      {
+        Paths shrunk;
+        clprof.Clear();
+        clprof.AddPath(*it, jt, etClosedPolygon);
+        clprof.Execute(shrunk, distance * scaling);
+        clpr.AddPaths(shrunk, ptSubject, true);
+      }
+      clpr.Execute(ctUnion, solution, pftNonZero, pftNonZero);
+    }
+    else
     {
-      Paths shrunk;
-      clprof.Clear();
-      clprof.AddPath(*it, jt, etClosedPolygon);
-      clprof.Execute(shrunk, distance * scaling);
-      clpr.AddPaths(shrunk, ptSubject, true);
+      clprof.AddPaths(subj, jt, etClosedPolygon);
+      clprof.Execute(solution, distance * scaling);
     }
-    clpr.Execute(ctUnion, solution, pftNonZero, pftNonZero);
   }
-  else
+  catch (std::exception &e)
   {
-    clprof.AddPaths(subj, jt, etClosedPolygon);
-    clprof.Execute(solution, distance * scaling);
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return NULL;
   }
 
   tree2paths(solution, result);
@@ -5265,10 +5289,19 @@ static PyObject* chop(PyObject *self, PyObject *args)
       }
       clip[0][2].Y = clip[0][3].Y = pos;
     }
-    clpr.Clear();
-    clpr.AddPaths(subj, ptSubject, true);
-    clpr.AddPaths(clip, ptClip, true);
-    clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
+    try
+    {
+      clpr.Clear();
+      clpr.AddPaths(subj, ptSubject, true);
+      clpr.AddPaths(clip, ptClip, true);
+      clpr.Execute(ctIntersection, solution, pftNonZero, pftNonZero);
+    }
+    catch (std::exception &e)
+    {
+      PyErr_SetString(PyExc_RuntimeError, e.what());
+      Py_DECREF(returntuple);
+      return NULL;
+    }
     result.clear();
     tree2paths(solution, result);
     if ((resultitem = build_polygon_tuple(result, scaling)) == NULL)
-- 
2.43.0


From 7e3a9f45ac43dfb598d69dab4570aaf46b345f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 64/75] fix: slice positions far from the polygon or not a
 number

---
 gdspy/clipper.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gdspy/clipper.cpp b/gdspy/clipper.cpp
index cd6c331..c4bdf45 100644
--- a/gdspy/clipper.cpp
+++ b/gdspy/clipper.cpp
@@ -5253,7 +5253,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
       if (i < num_cuts)
       {
         position = PySequence_ITEM(positions, i);
-        pos = Round(scaling * PyFloat_AsDouble(position));
+        double value = scaling * PyFloat_AsDouble(position);
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
         {
@@ -5261,6 +5261,13 @@ static PyObject* chop(PyObject *self, PyObject *args)
           Py_DECREF(returntuple);
           return NULL;
         }
+        if (value != value)
+        {
+          PyErr_SetString(PyExc_ValueError, "Positions cannot be NaN.");
+          Py_DECREF(returntuple);
+          return NULL;
+        }
+        pos = Round(std::max((double)bb[0], std::min((double)bb[1], value)));
       }
       else
       {
@@ -5274,7 +5281,7 @@ static PyObject* chop(PyObject *self, PyObject *args)
       if (i < num_cuts)
       {
         position = PySequence_ITEM(positions, i);
-        pos = Round(scaling * PyFloat_AsDouble(position));
+        double value = scaling * PyFloat_AsDouble(position);
         Py_DECREF(position);
         if (PyErr_Occurred() != NULL)
         {
@@ -5282,6 +5289,13 @@ static PyObject* chop(PyObject *self, PyObject *args)
           Py_DECREF(returntuple);
           return NULL;
         }
+        if (value != value)
+        {
+          PyErr_SetString(PyExc_ValueError, "Positions cannot be NaN.");
+          Py_DECREF(returntuple);
+          return NULL;
+        }
+        pos = Round(std::max((double)bb[2], std::min((double)bb[3], value)));
       }
       else
       {
-- 
2.43.0


From b587b2c03277a5e30bd3282d2684664b1771445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 65/75] fix: inside accepts no points and empty groups

---
 gdspy/operation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gdspy/operation.py b/gdspy/operation.py
index b4d90df..c97882c 100644
--- a/gdspy/operation.py
+++ b/gdspy/operation.py
@@ -292,7 +292,9 @@ def inside(points, polygons, short_circuit="any", precision=0.001):
     polys = _gather_polys(polygons)
     if len(polys) == 0:
         return (False,) * len(points)
-    if numpy.isscalar(points[0][0]):
+    # Groups may be empty
+    first = next((p for p in points if len(p) > 0), ((),))
+    if numpy.isscalar(first[0]):
         pts = (points,)
         sc = 0
     else:
-- 
2.43.0


From 0b6904961b4732a1c21c6593e68916573434eef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 66/75] fix: coordinates that do not fit in the GDSII records
 are refused

---
 gdspy/gdsiiformat.py | 20 ++++++++++++++++++++
 gdspy/path.py        |  5 +++--
 gdspy/polygon.py     |  5 +++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index eb4183f..bf96be7 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -128,6 +128,26 @@ def _raw_record_reader(stream):
         yield (rec_type, header + (stream.read(size - 4) if size > 4 else b""))
 
 
+def _gdsii_coordinates(points):
+    """
+    Convert an array of dimensions into GDSII 4 byte integers.
+
+    Parameters
+    ----------
+    points : Numpy array
+        Dimensions in units of the GDSII precision.
+
+    Returns
+    -------
+    out : Numpy array
+        Dimensions rounded to integers.
+    """
+    points = numpy.round(points)
+    if not numpy.all((points >= -2147483648) & (points <= 2147483647)):
+        raise ValueError("[GDSPY] Coordinates outside the range of GDSII integers.")
+    return points.astype(">i4")
+
+
 def _eight_byte_real(value):
     """
     Convert a number into the GDSII 8 byte real format.
diff --git a/gdspy/path.py b/gdspy/path.py
index 6ded2c9..9ee8d39 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -37,6 +37,7 @@ import warnings
 import itertools
 import struct
 
+from gdspy.gdsiiformat import _gdsii_coordinates
 from gdspy.hobby import _hobby
 from gdspy.polygon import PolygonSet, _half_arc
 
@@ -1042,7 +1043,7 @@ class FlexPath(object):
                     v0 = v1
                 bends.append(p1)
                 points = numpy.array(bends)
-            points = numpy.round(points * multiplier).astype(">i4")
+            points = _gdsii_coordinates(points * multiplier)
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
@@ -2267,7 +2268,7 @@ class RobustPath(object):
                         points.append(px)
                     start = 0
             points.extend(self.paths[ii][-1].points(start, 1, 0))
-            points = numpy.round(numpy.array(points) * multiplier).astype(">i4")
+            points = _gdsii_coordinates(numpy.array(points) * multiplier)
             if points.shape[0] > 8191:
                 warnings.warn(
                     "[GDSPY] Paths with more than 8191 are not supported "
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 9ab323d..f5b562f 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -37,6 +37,7 @@ import warnings
 import numpy
 
 from gdspy import clipper
+from gdspy.gdsiiformat import _gdsii_coordinates
 from gdspy.hobby import _hobby
 
 _directions_dict = {"+x": 0, "+y": 0.5, "-x": 1, "-y": -0.5}
@@ -214,7 +215,7 @@ class PolygonSet(object):
                     )
                 )
                 xy = numpy.empty((self.polygons[ii].shape[0] + 1, 2), dtype=">i4")
-                xy[:-1] = numpy.round(self.polygons[ii] * multiplier)
+                xy[:-1] = _gdsii_coordinates(self.polygons[ii] * multiplier)
                 xy[-1] = xy[0]
                 i0 = 0
                 while i0 < xy.shape[0]:
@@ -238,7 +239,7 @@ class PolygonSet(object):
                         0x1003,
                     )
                 )
-                xy = numpy.round(self.polygons[ii] * multiplier).astype(">i4")
+                xy = _gdsii_coordinates(self.polygons[ii] * multiplier)
                 outfile.write(xy.tobytes())
                 outfile.write(xy[0].tobytes())
             if self.properties is not None and len(self.properties) > 0:
-- 
2.43.0


From b1c68ce928d163fad620fe4bbd6451fca2375ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 67/75] fix: real numbers outside of the range of GDSII are
 refused

---
 gdspy/gdsiiformat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gdspy/gdsiiformat.py b/gdspy/gdsiiformat.py
index bf96be7..03cf373 100644
--- a/gdspy/gdsiiformat.py
+++ b/gdspy/gdsiiformat.py
@@ -172,6 +172,8 @@ def _eight_byte_real(value):
     # value = m * 2**e with 0.5 <= m < 1
     e = int(numpy.frexp(value)[1])
     exponent = -(-e // 4)
+    if not -64 <= exponent < 64:
+        raise ValueError("[GDSPY] Number outside the range of GDSII reals.")
     mantissa = int(value * 16.0 ** (14 - exponent))
     byte1 += exponent + 64
     byte2 = mantissa // 281474976710656
-- 
2.43.0


From a70f43ca63aa1dda15d496bbb62ce60b334ccd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 68/75] fix: property attributes are stored as signed integers

---
 gdspy/label.py   | 2 +-
 gdspy/library.py | 4 ++--
 gdspy/path.py    | 4 ++--
 gdspy/polygon.py | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gdspy/label.py b/gdspy/label.py
index 6e6069a..332eac6 100644
--- a/gdspy/label.py
+++ b/gdspy/label.py
@@ -254,7 +254,7 @@ class Label(object):
                 if len(value) % 2 != 0:
                     value = value + "\0"
                 outfile.write(
-                    struct.pack(">5H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
+                    struct.pack(">2Hh2H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
                 )
                 outfile.write(value.encode("ascii"))
                 size += len(value) + 2
diff --git a/gdspy/library.py b/gdspy/library.py
index 347f63b..f5944d9 100644
--- a/gdspy/library.py
+++ b/gdspy/library.py
@@ -1220,7 +1220,7 @@ class CellReference(object):
                 if len(value) % 2 != 0:
                     value = value + "\0"
                 outfile.write(
-                    struct.pack(">5H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
+                    struct.pack(">2Hh2H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
                 )
                 outfile.write(value.encode("ascii"))
                 size += len(value) + 2
@@ -1797,7 +1797,7 @@ class CellArray(object):
                 if len(value) % 2 != 0:
                     value = value + "\0"
                 outfile.write(
-                    struct.pack(">5H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
+                    struct.pack(">2Hh2H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
                 )
                 outfile.write(value.encode("ascii"))
                 size += len(value) + 2
diff --git a/gdspy/path.py b/gdspy/path.py
index 9ee8d39..be60554 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1066,7 +1066,7 @@ class FlexPath(object):
                     if len(value) % 2 != 0:
                         value = value + "\0"
                     outfile.write(
-                        struct.pack(">5H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
+                        struct.pack(">2Hh2H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
                     )
                     outfile.write(value.encode("ascii"))
                     size += len(value) + 2
@@ -2291,7 +2291,7 @@ class RobustPath(object):
                     if len(value) % 2 != 0:
                         value = value + "\0"
                     outfile.write(
-                        struct.pack(">5H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
+                        struct.pack(">2Hh2H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
                     )
                     outfile.write(value.encode("ascii"))
                     size += len(value) + 2
diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index f5b562f..eaa0ed0 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -248,7 +248,7 @@ class PolygonSet(object):
                     if len(value) % 2 != 0:
                         value = value + "\0"
                     outfile.write(
-                        struct.pack(">5H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
+                        struct.pack(">2Hh2H", 6, 0x2B02, attr, 4 + len(value), 0x2C06)
                     )
                     outfile.write(value.encode("ascii"))
                     size += len(value) + 2
-- 
2.43.0


From 059e050d9ffe55b9ae881341928f789788cc8e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 69/75] fix: polygons given as arrays of integers

---
 gdspy/polygon.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index eaa0ed0..1199800 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -91,7 +91,7 @@ class PolygonSet(object):
     __slots__ = "layers", "datatypes", "polygons", "properties"
 
     def __init__(self, polygons, layer=0, datatype=0):
-        self.polygons = [numpy.array(p) for p in polygons]
+        self.polygons = [numpy.array(p, dtype=float) for p in polygons]
         self.layers = [layer] * len(self.polygons)
         self.datatypes = [datatype] * len(self.polygons)
         self.properties = {}
@@ -561,8 +561,8 @@ class PolygonSet(object):
         out : `PolygonSet`
             This object.
         """
-        origin = numpy.array(p1)
-        vec = numpy.array(p2) - origin
+        origin = numpy.array(p1, dtype=float)
+        vec = numpy.array(p2, dtype=float) - origin
         vec_r = vec * (2 / numpy.inner(vec, vec))
         self.polygons = [
             numpy.outer(numpy.inner(points - origin, vec_r), vec) - points + 2 * origin
@@ -604,7 +604,7 @@ class Polygon(PolygonSet):
     def __init__(self, points, layer=0, datatype=0):
         self.layers = [layer]
         self.datatypes = [datatype]
-        self.polygons = [numpy.array(points)]
+        self.polygons = [numpy.array(points, dtype=float)]
         self.properties = {}
 
     def __str__(self):
@@ -646,7 +646,8 @@ class Rectangle(PolygonSet):
                     [point1[0], point2[1]],
                     [point2[0], point2[1]],
                     [point2[0], point1[1]],
-                ]
+                ],
+                dtype=float,
             )
         ]
         self.properties = {}
@@ -1235,8 +1236,8 @@ class Path(PolygonSet):
         out : `Path`
             This object.
         """
-        origin = numpy.array(p1)
-        vec = numpy.array(p2) - origin
+        origin = numpy.array(p1, dtype=float)
+        vec = numpy.array(p2, dtype=float) - origin
         vec_r = vec * (2 / numpy.inner(vec, vec))
         self.polygons = [
             numpy.outer(numpy.inner(points - origin, vec_r), vec) - points + 2 * origin
-- 
2.43.0


From 77e3b8b8e57b3b0ce07b837282c949f884fb2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 70/75] fix: paths given as arrays of small or unsigned
 integers

---
 gdspy/path.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index be60554..7261ea1 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -333,7 +333,7 @@ class FlexPath(object):
                 self.n = 1
                 self.offsets = [offset]
             self.widths = [width] * self.n
-        self.points = numpy.array(points)
+        self.points = numpy.array(points, dtype=float)
         if self.points.shape == (2,):
             self.points.resize((1, 2))
         self.widths = numpy.tile(self.widths, (len(self.points), 1))
@@ -1201,7 +1201,7 @@ class FlexPath(object):
         If `width_transform` is False, the widths are not scaled.
         """
         self._polygon_dict = None
-        c0 = numpy.array(center) * (1 - scale)
+        c0 = numpy.array(center, dtype=float) * (1 - scale)
         self.points = self.points * scale + c0
         if self.width_transform or not self.gdsii_path:
             self.widths = self.widths * scale
@@ -1806,7 +1806,7 @@ class RobustPath(object):
                 self.n = 1
                 self.offsets = [offset]
             self.widths = [width] * self.n
-        self.x = numpy.array(initial_point)
+        self.x = numpy.array(initial_point, dtype=float)
         self.paths = [[] for _ in range(self.n)]
         if isinstance(ends, list):
             self.ends = [ends[i % len(ends)] for i in range(self.n)]
@@ -2404,7 +2404,7 @@ class RobustPath(object):
         self._polygon_dict = None
         ca = numpy.cos(angle)
         sa = numpy.sin(angle) * _mpone
-        c0 = numpy.array(center)
+        c0 = numpy.array(center, dtype=float)
         x = self.x - c0
         self.x = x * ca + x[::-1] * sa + c0
         for path in self.paths:
@@ -2435,7 +2435,7 @@ class RobustPath(object):
         If `width_transform` is False, the widths are not scaled.
         """
         self._polygon_dict = None
-        c0 = numpy.array(center) * (1 - scale)
+        c0 = numpy.array(center, dtype=float) * (1 - scale)
         self.x = self.x * scale + c0
         if self.width_transform or not self.gdsii_path:
             self.widths = [wid * scale for wid in self.widths]
@@ -2586,7 +2586,9 @@ class RobustPath(object):
             This object.
         """
         self._polygon_dict = None
-        x = (numpy.array(end_point) + self.x) if relative else numpy.array(end_point)
+        x = numpy.array(end_point, dtype=float)
+        if relative:
+            x = x + self.x
         f = _func_linear(self.x, x)
         df = _func_const(x - self.x, 2)
         self.x = numpy.array(x)
-- 
2.43.0


From 1273fa69a0cbe53d6d2bd519f9a765e3fffeb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 71/75] fix: curves given as small or unsigned integers

---
 gdspy/curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 0452503..0ffcac6 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -99,7 +99,7 @@ class Curve(object):
         if isinstance(x, complex):
             self.points = [numpy.array((x.real, x.imag))]
         else:
-            self.points = [numpy.array((x, y))]
+            self.points = [numpy.array((x, y), dtype=float)]
 
     def get_points(self):
         """
@@ -136,7 +136,7 @@ class Curve(object):
                 self.points.append(numpy.array((xy[i].real, xy[i].imag)))
                 i += 1
             else:
-                self.points.append(numpy.array((xy[i], xy[i + 1])))
+                self.points.append(numpy.array((xy[i], xy[i + 1]), dtype=float))
                 i += 2
         return self
 
-- 
2.43.0


From f9ce18e59744543a0bef1d8a9ccf740ee7fd1cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:00 +0000
Subject: [PATCH 72/75] fix: length of scaled paths

---
 gdspy/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 1199800..4f58b85 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1209,7 +1209,7 @@ class Path(PolygonSet):
         Notes
         -----
         The direction of the path is not modified by this method and
-        its width and distance are scaled only by `scalex`.
+        its width, distance and length are scaled only by `scalex`.
         """
         c0 = numpy.array(center)
         s = scalex if scaley is None else numpy.array((scalex, scaley))
@@ -1217,6 +1217,7 @@ class Path(PolygonSet):
         self.x = (self.x - c0[0]) * scalex + c0[0]
         self.y = (self.y - c0[1]) * (scalex if scaley is None else scaley) + c0[1]
         self.w *= scalex
+        self.length *= abs(scalex)
         self.distance *= scalex
         return self
 
-- 
2.43.0


From ddf11bd5d60c50e58435eb26826684b8ea9816f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:00 +0000
Subject: [PATCH 73/75] fix: length of path sections without width

---
 gdspy/polygon.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdspy/polygon.py b/gdspy/polygon.py
index 4f58b85..7820bf9 100644
--- a/gdspy/polygon.py
+++ b/gdspy/polygon.py
@@ -1318,6 +1318,7 @@ class Path(PolygonSet):
         old_y = self.y
         self.x += length * ca + axis_offset * sa
         self.y += length * sa - axis_offset * ca
+        self.length += (length ** 2 + axis_offset ** 2) ** 0.5
         old_w = self.w
         old_distance = self.distance
         if final_width is not None:
@@ -1348,7 +1349,6 @@ class Path(PolygonSet):
                     self.polygons[-1] = self.polygons[-1][:-1]
                 if old_w == 0:
                     self.polygons[-1] = self.polygons[-1][1:]
-            self.length += (length ** 2 + axis_offset ** 2) ** 0.5
             if isinstance(layer, list):
                 self.layers.extend((layer * (self.n // len(layer) + 1))[: self.n])
             else:
@@ -1423,6 +1423,7 @@ class Path(PolygonSet):
         """
         cx = self.x - radius * numpy.cos(initial_angle)
         cy = self.y - radius * numpy.sin(initial_angle)
+        self.length += abs((final_angle - initial_angle) * radius)
         self.x = cx + radius * numpy.cos(final_angle)
         self.y = cy + radius * numpy.sin(final_angle)
         # The paths are ordered from left to right of the direction of travel
@@ -1508,7 +1509,6 @@ class Path(PolygonSet):
                         )
                     self.polygons[-1][pts1:, 0] = numpy.cos(ang) * rad + cx
                     self.polygons[-1][pts1:, 1] = numpy.sin(ang) * rad + cy
-                self.length += abs((angles[jj + 1] - angles[jj]) * radius)
                 if isinstance(layer, list):
                     self.layers.extend((layer * (self.n // len(layer) + 1))[: self.n])
                 else:
-- 
2.43.0


From dcbf7653f2a4294b2b45f5dff2fc71a97c99f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 74/75] fix: tolerance of arcs with negative offsets

---
 gdspy/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdspy/path.py b/gdspy/path.py
index 7261ea1..7645780 100644
--- a/gdspy/path.py
+++ b/gdspy/path.py
@@ -1368,7 +1368,8 @@ class FlexPath(object):
         else:
             off = self.offsets[-1] + offset
         rmax = radius + max(
-            (self.offsets[-1] + self.widths[-1]).max(), (off + wid).max()
+            (numpy.abs(self.offsets[-1]) + self.widths[-1]).max(),
+            (numpy.abs(off) + wid).max(),
         )
         np = max(
             3,
-- 
2.43.0


From 6954db19611c9a916c72dbb810c81ea20d384b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:27 +0000
Subject: [PATCH 75/75] fix: tolerance of curves around inflection points

---
 gdspy/curve.py | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/gdspy/curve.py b/gdspy/curve.py
index 0ffcac6..4e37aff 100644
--- a/gdspy/curve.py
+++ b/gdspy/curve.py
@@ -36,6 +36,15 @@ from gdspy.path import _func_bezier, _hobby
 from gdspy.polygon import _half_arc
 
 
+def _odd_error(f, u0, u1, p0, p1):
+    """
+    Distance from a curve to its chord in pieces with opposite curvatures
+    at both ends, where the distance in the middle can vanish.
+    """
+    v = 0.25 * (u1 - u0)
+    return 0.5 * (f(u1 - v) - f(u0 + v)) - 0.25 * (p1 - p0)
+
+
 class Curve(object):
     """
     Generation of curves loosely based on SVG paths.
@@ -332,7 +341,11 @@ class Curve(object):
                 test_u = 0.5 * (uu[iu - 1] + uu[iu])
                 test_pt = f(test_u)
                 test_err = 0.5 * (fu[iu - 1] + fu[iu]) - test_pt
-                if test_err[0] ** 2 + test_err[1] ** 2 > self.tol:
+                odd_err = _odd_error(f, uu[iu - 1], uu[iu], fu[iu - 1], fu[iu])
+                if (
+                    test_err[0] ** 2 + test_err[1] ** 2 > self.tol
+                    or odd_err[0] ** 2 + odd_err[1] ** 2 > self.tol
+                ):
                     uu.insert(iu, test_u)
                     fu.insert(iu, test_pt)
                 else:
@@ -381,7 +394,11 @@ class Curve(object):
                 test_u = 0.5 * (uu[iu - 1] + uu[iu])
                 test_pt = f(test_u)
                 test_err = 0.5 * (fu[iu - 1] + fu[iu]) - test_pt
-                if test_err[0] ** 2 + test_err[1] ** 2 > self.tol:
+                odd_err = _odd_error(f, uu[iu - 1], uu[iu], fu[iu - 1], fu[iu])
+                if (
+                    test_err[0] ** 2 + test_err[1] ** 2 > self.tol
+                    or odd_err[0] ** 2 + odd_err[1] ** 2 > self.tol
+                ):
                     uu.insert(iu, test_u)
                     fu.insert(iu, test_pt)
                 else:
@@ -435,7 +452,11 @@ class Curve(object):
                 test_u = 0.5 * (uu[iu - 1] + uu[iu])
                 test_pt = f(test_u)
                 test_err = 0.5 * (fu[iu - 1] + fu[iu]) - test_pt
-                if test_err[0] ** 2 + test_err[1] ** 2 > self.tol:
+                odd_err = _odd_error(f, uu[iu - 1], uu[iu], fu[iu - 1], fu[iu])
+                if (
+                    test_err[0] ** 2 + test_err[1] ** 2 > self.tol
+                    or odd_err[0] ** 2 + odd_err[1] ** 2 > self.tol
+                ):
                     uu.insert(iu, test_u)
                     fu.insert(iu, test_pt)
                 else:
@@ -491,7 +512,11 @@ class Curve(object):
                 test_u = 0.5 * (uu[iu - 1] + uu[iu])
                 test_pt = f(test_u)
                 test_err = 0.5 * (fu[iu - 1] + fu[iu]) - test_pt
-                if test_err[0] ** 2 + test_err[1] ** 2 > self.tol:
+                odd_err = _odd_error(f, uu[iu - 1], uu[iu], fu[iu - 1], fu[iu])
+                if (
+                    test_err[0] ** 2 + test_err[1] ** 2 > self.tol
+                    or odd_err[0] ** 2 + odd_err[1] ** 2 > self.tol
+                ):
                     uu.insert(iu, test_u)
                     fu.insert(iu, test_pt)
                 else:
@@ -733,7 +758,11 @@ class Curve(object):
             test_u = 0.5 * (uu[iu - 1] + uu[iu])
             test_pt = f(test_u)
             test_err = 0.5 * (fu[iu - 1] + fu[iu]) - test_pt
-            if test_err[0] ** 2 + test_err[1] ** 2 > self.tol:
+            odd_err = _odd_error(f, uu[iu - 1], uu[iu], fu[iu - 1], fu[iu])
+            if (
+                test_err[0] ** 2 + test_err[1] ** 2 > self.tol
+                or odd_err[0] ** 2 + odd_err[1] ** 2 > self.tol
+            ):
                 uu.insert(iu, test_u)
                 fu.insert(iu, test_pt)
             else:
@@ -778,7 +807,11 @@ class Curve(object):
             test_u = 0.5 * (uu[iu - 1] + uu[iu])
             test_pt = f(test_u)
             test_err = 0.5 * (fu[iu - 1] + fu[iu]) - test_pt
-            if test_err[0] ** 2 + test_err[1] ** 2 > self.tol:
+            odd_err = _odd_error(f, uu[iu - 1], uu[iu], fu[iu - 1], fu[iu])
+            if (
+                test_err[0] ** 2 + test_err[1] ** 2 > self.tol
+                or odd_err[0] ** 2 + odd_err[1] ** 2 > self.tol
+            ):
                 uu.insert(iu, test_u)
                 fu.insert(iu, test_pt)
             else:
-- 
2.43.0

