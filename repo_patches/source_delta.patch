From 8965fab4449a59172975d5976a00356c46038def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 01/46] fix: Elem.smallest_edge measured face diagonals instead
 of the lateral edges

---
 src/pymech/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 9b6150e..ce1e8eb 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -150,8 +150,8 @@ class Elem:
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
         x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 0]
-        x4, y4, z4 = self.pos[:, 0, 1, 1]
+        x3, y3, z3 = self.pos[:, 0, 1, 1]
+        x4, y4, z4 = self.pos[:, 0, 1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -167,8 +167,8 @@ class Elem:
             # in 3D, do the same for the upper face, and also the side edges
             x5, y5, z5 = self.pos[:, 1, 0, 0]
             x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 0]
-            x8, y8, z8 = self.pos[:, 1, 1, 1]
+            x7, y7, z7 = self.pos[:, 1, 1, 1]
+            x8, y8, z8 = self.pos[:, 1, 1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From 94bee6c06d71a593cb1c3c09f8d773344a2fdd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 02/46] fix: DataLims of a mesh with a single element

---
 src/pymech/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index ce1e8eb..5c00634 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -44,7 +44,9 @@ class DataLims:
     def __init__(self, elements):
         self._variables = ("pos", "vel", "pres", "temp", "scal")
 
-        aggregated_lims = reduce(self._lims_aggregator, elements)
+        aggregated_lims = reduce(
+            self._lims_aggregator, map(self._lims_per_element, elements)
+        )
         for var in self._variables:
             agg_lims_var = aggregated_lims[var]
             # set minimum, maximum of variables as a nested tuple
-- 
2.43.0


From 99c668c8a4c999da2a1f42451511b02add472c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 03/46] fix: writenek wrote 4-byte words in a wdsz=8 file when
 the data was float32

---
 src/pymech/neksuite/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index d61a11d..8625f9d 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -454,7 +454,7 @@ def writenek(fname, data):
         if data.wdsz == 4:
             correct_endianness(a.astype(np.float32)).tofile(outfile)
         else:
-            correct_endianness(a).tofile(outfile)
+            correct_endianness(a.astype(np.float64)).tofile(outfile)
 
     #
     # write geometry
-- 
2.43.0


From 3156c0326a1bd28109a4b4f27d388ceb1c67671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 04/46] fix: readnek skipped the wrong number of blocks in one
 part of a multi-file field

---
 src/pymech/neksuite/field.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 8625f9d..9441f35 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -253,7 +253,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(geometry_vars[idim] in skip_vars for idim in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 logger.warning(
@@ -286,7 +286,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
 
     if nb_vars:
         if all(skip_condition1) or all(skip_condition2):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -307,7 +307,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"p", "pressure"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -325,7 +325,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"t", "temperature"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -345,14 +345,14 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(scalar_vars[ivar] in skip_vars for ivar in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             # NOTE: This is not a bug!
             # Unlike other variables, scalars are in the outer loop and elements
             # are in the inner loop
             for ivar in range(nb_vars):
                 if skip_condition[ivar]:
-                    skip_elements(h.nb_elems)
+                    skip_elements(h.nb_elems_file)
                 else:
                     if 0 in elmap:
                         element_idxs = range(h.nb_elems_file)
-- 
2.43.0


From 7cbb6522b437241d16cc30dee4074b2734451173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 05/46] fix: readre2 misread counts and condition types in
 big-endian files

---
 src/pymech/neksuite/mesh.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 03be657..b913d72 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -681,7 +681,7 @@ def readre2(fname):
     # where p1-5 are f64 parameters and ctype is the type of curvature in ASCII
     ncparam = 8
     buf = infile.read(wdsz)
-    ncurv = int(np.frombuffer(buf)[0])
+    ncurv = int(np.frombuffer(buf, dtype=emode + realtype)[0])
     logger.debug(f"Found {ncurv} curved sides")
     data.ncurv = ncurv
     buf = infile.read(wdsz * (ncparam * ncurv))
@@ -699,7 +699,7 @@ def readre2(fname):
         # select only the first byte, because it turns out the later bytes may contain garbage.
         # typically, it's b'C\x00\x00\x00\x00\x00\x00\x00' or b'C\x00\x00\x00\x00\x00\xe0?'.
         # AFAIK the curvature types are always one character long anyway.
-        ctype = curv[7].tobytes()[:1].decode("utf-8")
+        ctype = curv[7:8].tobytes()[:1].decode("utf-8")
         # fill in the data structure
         data.elem[iel].curv[iedge, :] = cparams
         data.elem[iel].ccurv[iedge] = ctype
@@ -716,7 +716,7 @@ def readre2(fname):
             for el in data.elem:
                 empty_bcs = np.zeros(el.bcs[:1, :].shape, dtype=el.bcs.dtype)
                 el.bcs = np.concatenate((el.bcs, empty_bcs))
-        nbclines = int(np.frombuffer(buf)[0])
+        nbclines = int(np.frombuffer(buf, dtype=emode + realtype)[0])
         logger.debug(
             f"Found {nbclines} external boundary conditions for field {ifield}"
         )
@@ -732,7 +732,8 @@ def readre2(fname):
             iel = int(bc[0]) - 1
             iface = int(bc[1]) - 1
             bcparams = bc[2:7]
-            bctype = bc[7].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
+            # slice so that the bytes are kept as stored, then remove trailing spaces
+            bctype = bc[7:8].tobytes().decode("utf-8").rstrip()
             # fill in the data structure
             data.elem[iel].bcs[ifield, iface][0] = bctype
             data.elem[iel].bcs[ifield, iface][1] = iel + 1
-- 
2.43.0


From 51f96a9df0f3575fd4bb6c4dbf02cf38cdcfc2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 06/46] fix: three-letter boundary condition types corrupted
 .rea files

---
 src/pymech/neksuite/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index b913d72..3a7468c 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -147,7 +147,7 @@ def readrea(fname):
             for iface in range(nface):
                 line = infile.readline()
                 if nel < 1e3:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[7:10])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -156,7 +156,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 elif nel < 1e6:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = iel + 1
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -165,7 +165,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 else:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:15])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[15:16])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[16:34])
@@ -518,7 +518,7 @@ def writerea(fname, data):
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
-                        " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             data.elem[iel].bcs[ibc, iface][0],
                             data.elem[iel].bcs[ibc, iface][1],
                             data.elem[iel].bcs[ibc, iface][2],
@@ -531,7 +531,7 @@ def writerea(fname, data):
                     )
                 elif data.nel < 1e6:
                     outfile.write(
-                        " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             data.elem[iel].bcs[ibc, iface][0],
                             data.elem[iel].bcs[ibc, iface][1],
                             data.elem[iel].bcs[ibc, iface][3],
@@ -543,7 +543,7 @@ def writerea(fname, data):
                     )
                 else:
                     outfile.write(
-                        " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
+                        " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
                             data.elem[iel].bcs[ibc, iface][0],
                             data.elem[iel].bcs[ibc, iface][1],
                             data.elem[iel].bcs[ibc, iface][2],
-- 
2.43.0


From 407a3344a2e691c4a358c8242cce5dd2fc7e18b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 07/46] fix: a .rea file written without boundary conditions
 could not be read back

---
 src/pymech/neksuite/mesh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 3a7468c..486cab9 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -498,9 +498,12 @@ def writerea(fname, data):
     #
     # boundary conditions data
     outfile.write("  ***** BOUNDARY CONDITIONS *****\n")
-    outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    if data.nbc < 1:
+        outfile.write("  ***** NO FLUID BOUNDARY CONDITIONS *****\n")
     for ibc in range(data.nbc):
-        if ibc == 1:
+        if ibc == 0:
+            outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+        elif ibc == 1:
             outfile.write("  ***** THERMAL BOUNDARY CONDITIONS *****\n")
         elif ibc > 1:
             outfile.write(
-- 
2.43.0


From c160daf1e92f3d91c737a15830974904fe92ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 08/46] fix: writerea turned missing boundary conditions into
 'E' in the caller's mesh

---
 src/pymech/neksuite/mesh.py | 57 +++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 486cab9..90917e5 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -515,46 +515,49 @@ def writerea(fname, data):
             for iface in range(2 * data.ndim):
                 # if no boundary condition is specified, write 'E' iel iface [...]
                 # this is the behaviour of re2torea.
-                if data.elem[iel].bcs[ibc, iface][0] == "":
-                    data.elem[iel].bcs[ibc, iface][0] = "E"
-                    data.elem[iel].bcs[ibc, iface][1] = iel + 1
-                    data.elem[iel].bcs[ibc, iface][2] = iface + 1
+                bc = data.elem[iel].bcs[ibc, iface]
+                if bc[0] == "":
+                    # work on a copy: writing must not modify the data
+                    bc = bc.copy()
+                    bc[0] = "E"
+                    bc[1] = iel + 1
+                    bc[2] = iface + 1
                 if data.nel < 1e3:
                     outfile.write(
                         " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 elif data.nel < 1e6:
                     outfile.write(
                         " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
                 else:
                     outfile.write(
                         " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
-                            data.elem[iel].bcs[ibc, iface][3],
-                            data.elem[iel].bcs[ibc, iface][4],
-                            data.elem[iel].bcs[ibc, iface][5],
-                            data.elem[iel].bcs[ibc, iface][6],
-                            data.elem[iel].bcs[ibc, iface][7],
+                            bc[0],
+                            bc[1],
+                            bc[2],
+                            bc[3],
+                            bc[4],
+                            bc[5],
+                            bc[6],
+                            bc[7],
                         )
                     )
 
-- 
2.43.0


From a023e783fbff8244f18fb35df3e65b1891e50e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 09/46] fix: writerea announced a stale number of curved sides,
 making the file unreadable

---
 src/pymech/neksuite/mesh.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 90917e5..8eff2e8 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -442,9 +442,15 @@ def writerea(fname, data):
             )
     #
     # curved side data
+    # count the curved sides that will be written, like for .re2 files: the reader relies on it
+    ncurv = sum(ccurv != "" for el in data.elem for ccurv in el.ccurv)
+    if ncurv != data.ncurv:
+        logger.warning(
+            f"wrong number of curved edges: expected {data.ncurv}, found {ncurv}"
+        )
     outfile.write("  ***** CURVED SIDE DATA *****\n")
     outfile.write(
-        f"  {data.ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
+        f"  {ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
     )
     for iel in range(data.nel):
         if data.nel < 1e3:
-- 
2.43.0


From 0c4635edba071cb6745d693562f0ce7913d9d475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 10/46] fix: gen_circle, map2D and extrude returned meshes with
 a wrong ncurv

---
 src/pymech/meshtools.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93ec911..e24521a 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -150,6 +150,9 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
                 mesh3d.elem[i1].bcs[ibc, 5][3] = 0
                 mesh3d.elem[i1].bcs[ibc, 5][4] = 0
 
+    # update curve metadata
+    mesh3d.update_ncurv()
+
     # return the extruded mesh
     return mesh3d
 
@@ -1792,6 +1795,9 @@ def gen_circle(
     rotate_2d(box_o, 0, 0, 0.5 * pi)
     box_square.merge(box_o, ignore_all_bcs=not internal_bcs)
 
+    # update curve metadata
+    box_square.update_ncurv()
+
     return box_square
 
 
@@ -1853,4 +1859,7 @@ def map2D(
                 xm, ym, _ = edge_mid(el, iedge)
                 mapped_xm, mapped_ym = transformation(xm, ym)
                 mapped_el.curv[iedge, 0:2] = mapped_xm, mapped_ym
+
+    # update curve metadata
+    mapped_mesh.update_ncurv()
     return mapped_mesh
-- 
2.43.0


From 5155b5c441163ecbf5755719ab177ced9e9707b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 11/46] fix: extrude and keep_elements left the element map of
 the original mesh

---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index e24521a..f42711e 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -61,6 +61,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     nel3d = mesh.nel * nz
     nbc = mesh.nbc
     mesh3d.nel = nel3d
+    mesh3d.elmap = np.linspace(1, nel3d, nel3d, dtype=np.int32)
     mesh3d.ndim = 3
     # The curved sides will also be extruded, one on each side of each element along nz
     mesh3d.ncurv = 2 * nz * mesh.ncurv
@@ -1234,6 +1235,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
         new_elems.append(mesh.elem[iel])
     mesh.elem = new_elems
     mesh.nel = len(mesh.elem)
+    mesh.elmap = np.linspace(1, mesh.nel, mesh.nel, dtype=np.int32)
     mesh.update_ncurv()
 
 
-- 
2.43.0


From b7d832bced9435f4e81e20c900213667afe67559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 12/46] fix: extrude without internal conditions only removed
 them from the first layer

---
 src/pymech/meshtools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f42711e..37b9cbd 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -54,6 +54,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
         # if we don't build proper internal boundary conditions, we can get rid
         # of all of them to make the data cleaner
         delete_internal_bcs(mesh3d)
+    layer = copy.deepcopy(mesh3d)
     mesh3d.lr1 = [2, 2, 2]
     mesh3d.var = [3, 0, 0, 0, 0]  # remove anything that isn't geometry for now
     nel2d = mesh.nel
@@ -68,7 +69,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
 
     # add extra copies of all elements
     for k in range(nz - 1):
-        mesh_add = copy.deepcopy(mesh)
+        mesh_add = copy.deepcopy(layer)
         # fix the indexing of periodic and internal conditions
         mesh_add.offset_connectivity((k + 1) * nel2d)
         mesh3d.elem = mesh3d.elem + mesh_add.elem
-- 
2.43.0


From 0d1a52d33308dff240f974a853b3f3c77ee03ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 13/46] fix: rotate_2d ignored the centre of rotation

---
 src/pymech/meshtools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 37b9cbd..0c3d2b6 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1343,17 +1343,17 @@ def rotate_2d(mesh, x0, y0, theta):
     cost = cos(theta)
     sint = sin(theta)
     for el in mesh.elem:
-        x = el.pos[0, ...].copy()
-        y = el.pos[1, ...].copy()
-        el.pos[0, ...] = cost * x - sint * y
-        el.pos[1, ...] = sint * x + cost * y
+        x = el.pos[0, ...] - x0
+        y = el.pos[1, ...] - y0
+        el.pos[0, ...] = x0 + cost * x - sint * y
+        el.pos[1, ...] = y0 + sint * x + cost * y
         # rotate 'm' curvature
         for edge in range(12):
             if el.ccurv[edge] == "m":
-                x = el.curv[edge, 0]
-                y = el.curv[edge, 1]
-                el.curv[edge, 0] = cost * x - sint * y
-                el.curv[edge, 1] = sint * x + cost * y
+                x = el.curv[edge, 0] - x0
+                y = el.curv[edge, 1] - y0
+                el.curv[edge, 0] = x0 + cost * x - sint * y
+                el.curv[edge, 1] = y0 + sint * x + cost * y
 
 
 # =================================================================================
-- 
2.43.0


From c150c132a4f9a919d260e1d7896160f017714a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 14/46] fix: edge_mid and edge_circle overwrote the curvature
 of the element they were asked about

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 0c3d2b6..8ae2c23 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -900,7 +900,7 @@ def edge_mid(el, iedge):
     """
 
     # correct if ccurv=='m', otherwise, works as allocation
-    midpoint = el.curv[iedge][:3]
+    midpoint = el.curv[iedge][:3].copy()
 
     if el.ccurv[iedge] != "m":
         if iedge == 0:
@@ -1059,7 +1059,7 @@ def edge_circle(el, iedge, midpoint):
         radius = 0.0
         center = [0.0, 0.0, 0.0]
 
-    curv = el.curv[iedge][:4]
+    curv = el.curv[iedge][:4].copy()
     curv[0] = radius
     curv[1:4] = center
 
-- 
2.43.0


From dbf1a5c16fa07a47bd4f8f5a78484ab88a361a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 15/46] fix: gen_circle without internal conditions left its
 dummy 'con' conditions in the mesh

---
 src/pymech/meshtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 8ae2c23..cd99dc2 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1698,7 +1698,7 @@ def gen_circle(
     if internal_bcs:
         build_connectivity(box_square, ns, ns)
     # boundary conditions: dummy BCs to signal that the faces should be glued
-    connectivity_bc = ["con"] * nbc
+    connectivity_bc = ["con" if internal_bcs else ""] * nbc
     apply_bcs(
         box_square,
         ns,
-- 
2.43.0


From fba1f5b639166db9b22ec8ecf8b8c47feba916a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 16/46] fix: map2D failed on meshes without boundary conditions
 when curvature=False

---
 src/pymech/meshtools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index cd99dc2..7985fb1 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1856,7 +1856,11 @@ def map2D(
             if (
                 curvature
                 or el.ccurv[iedge] != ""
-                or (boundary_curvature and el.bcs[0][iedge][0] not in ["", "E"])
+                or (
+                    boundary_curvature
+                    and mesh.nbc > 0
+                    and el.bcs[0][iedge][0] not in ["", "E"]
+                )
             ):
                 mapped_el.ccurv[iedge] = "m"
                 xm, ym, _ = edge_mid(el, iedge)
-- 
2.43.0


From b10c500b31e8e80a054fabe1520a236e99180fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 17/46] fix: extrude_refine failed with the default values of
 fun and funpar

---
 src/pymech/meshtools.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 7985fb1..97a26da 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -231,8 +231,16 @@ def extrude_refine(
                 "Inconsistent boundary conditions: one end is 'P' but the other isn't"
             )
 
+    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
+    if fun is None:
+        logger.info("Splitting function not defined. Calling simple extrusion routine.")
+        mesh3D = extrude(mesh2D, z, bc1, bc2, internal_bcs=internal_bcs)
+        return mesh3D
+
     # Consistency checks: Functions that define the splitting lines
     nsplit = len(fun)
+    if funpar is None:
+        funpar = [0.0] * nsplit
     if funpar is not None and len(funpar) != nsplit:
         raise ValueError(
             f"The length of funpar ({len(funpar)}) must match the length of par ({nsplit})!"
@@ -249,12 +257,6 @@ def extrude_refine(
             f"Inconsistent elements to extrude: the number of elements ({nz}) must be a multiple of {max([2**abs(imesh_high + 1), 2**abs(nsplit - imesh_high + 1)])}"
         )
 
-    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
-    if fun is None:
-        logger.info("Splitting function not defined. Calling simple extrusion routine.")
-        mesh3D = extrude(mesh2D, z, bc1, bc2)
-        return mesh3D
-
     mesh2D_ext = copy.deepcopy(mesh2D)
     # get rid of internal boundary conditions if they are not requested
     if not internal_bcs:
-- 
2.43.0


From 8e77c073726ea366a7ee8aea2f2789486ea8d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 18/46] fix: readdns failed on files with passive scalars

---
 src/pymech/simsonsuite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index ccf18d3..c2a108b 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -74,10 +74,8 @@ def readdns(fname):
     pr = np.zeros(nscal)
     m = np.zeros(nscal)
     for i in range(nscal):
-        pr[i] = infile.read(wdsz)
-        pr[i] = struct.unpack(emode + realtype, pr[i])[0]
-        m[i] = infile.read(wdsz)
-        m[i] = struct.unpack(emode + realtype, m[i])[0]
+        pr[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
+        m[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
     #
     # end-of-line
     eol = infile.read(8)
-- 
2.43.0


From ea834dc7e281f8c3ca91d40dd488222393f7af3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 19/46] fix: readplane failed on 1D and 3D files

---
 src/pymech/simsonsuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index c2a108b..8d65855 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -313,7 +313,7 @@ def readplane(fname):
         # TODO untested
         print("WARNING: reading 1D files was not tested")
         eol = infile.read(4)
-        nt1 = struct.unpack(emode + "i", eol)[0] / 8
+        nt1 = struct.unpack(emode + "i", eol)[0] // 8
         dum = infile.read(nt1 * wdsz)
         x = struct.unpack(emode + nt1 * realtype, dum)
         #
@@ -333,7 +333,7 @@ def readplane(fname):
         print("WARNING: reading 3D files was not tested")
         for i in range(ndim):
             eol = infile.read(4)
-            nt3 = struct.unpack(emode + "i", eol)[0] / 8
+            nt3 = struct.unpack(emode + "i", eol)[0] // 8
             dum = infile.read(nt3 * wdsz)
             xx = struct.unpack(emode + nt3 * realtype, dum)
             x[i, :, :, :] = np.reshape(xx, (nn[0], nn[1], nn[2]), "F")
-- 
2.43.0


From db0d37c8212891e9f4ca3bed150a066d1f1878e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 20/46] fix: names with characters after a Nek field file
 extension were recognised

---
 src/pymech/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 70cc958..18c065b 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -20,6 +20,7 @@ nek_ext_pattern = re.compile(
    \.          # character "."
    f           # character "f"
    (\d{5}|ld)  # 5 digits or the characters "ld"
+   \Z          # nothing after that
 """,
     re.VERBOSE,
 )
-- 
2.43.0


From 0b59ca028743773b34bf4b6ce7fce538aa683968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:53 +0000
Subject: [PATCH 21/46] fix: smallest_edge measured to the second grid point
 when the order is above one

---
 src/pymech/core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 5c00634..958dffd 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -151,9 +151,9 @@ class Elem:
 
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
-        x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 1]
-        x4, y4, z4 = self.pos[:, 0, 1, 0]
+        x2, y2, z2 = self.pos[:, 0, 0, -1]
+        x3, y3, z3 = self.pos[:, 0, -1, -1]
+        x4, y4, z4 = self.pos[:, 0, -1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -167,10 +167,10 @@ class Elem:
             ndim = 2
         if ndim > 2:
             # in 3D, do the same for the upper face, and also the side edges
-            x5, y5, z5 = self.pos[:, 1, 0, 0]
-            x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 1]
-            x8, y8, z8 = self.pos[:, 1, 1, 0]
+            x5, y5, z5 = self.pos[:, -1, 0, 0]
+            x6, y6, z6 = self.pos[:, -1, 0, -1]
+            x7, y7, z7 = self.pos[:, -1, -1, -1]
+            x8, y8, z8 = self.pos[:, -1, -1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From c25de15731bb786c17ae331801671a872b7e1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 22/46] fix: hexa2vtk added points at the origin that are not
 in the mesh

---
 src/pymech/vtksuite.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 0b08221..559bf1e 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -92,6 +92,7 @@ def hexa2vtk(field, downsample=False):
     nppel = nix * niy * niz
     nepel = (nix - 1) * (niy - 1) * max((niz - 1), 1)
     nel = field.nel * nepel
+    npts = field.nel * nppel
     #
     if field.ndim == 3:
         nvert = 8
@@ -107,15 +108,15 @@ def hexa2vtk(field, downsample=False):
     ce[np.arange(nel) * (nvert + 1)] = nvert
 
     if field.var[0] != 0:
-        r = np.zeros((nvert * nel, 3))
+        r = np.zeros((npts, 3))
     if field.var[1] != 0:
-        v = np.zeros((nvert * nel, 3))
+        v = np.zeros((npts, 3))
     if field.var[2] == 1:
-        p = np.zeros(nvert * nel)
+        p = np.zeros(npts)
     if field.var[3] == 1:
-        T = np.zeros(nvert * nel)
+        T = np.zeros(npts)
     if field.var[4] != 0:
-        S = np.zeros((nvert * nel, field.var[4]))
+        S = np.zeros((npts, field.var[4]))
     #
     ice = -(nvert + 1)
 
-- 
2.43.0


From 1e9f008f7a85eb3e9773db847f2a3d17f9de04bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 23/46] fix: extrude_mid left the element numbers of the 2D
 mesh in its conditions

---
 src/pymech/meshtools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 97a26da..ae5dd49 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -773,6 +773,11 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
             # fix the internal boundary conditions
             # the end boundary conditions will be overwritten later with the proper ones
             for ibc in range(nbc):
+                # the side faces still carry the element number of the 2D mesh
+                for iell in range(6):
+                    for iface in range(4):
+                        mesh3d.elem[iel + iell].bcs[ibc, iface][1] = iel + iell + 1
+                        mesh3d.elem[iel + iell].bcs[ibc, iface][2] = iface + 1
                 # set the conditions in faces normal to z
                 if internal_bcs:
                     for iell in range(6):
-- 
2.43.0


From 8f41e543c7dbd2ddaf11634a683ba2ba87fd65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 24/46] fix: gen_circle left the element and face numbers of
 its outer conditions at zero

---
 src/pymech/meshtools.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index ae5dd49..77fc11d 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1638,17 +1638,25 @@ def gen_circle(
 
     # external boundary conditions
     def apply_bcs(mesh, ni, nj, bc0, bc1, bc2, bc3):
+        def set_bc(ibc, iel, iface, bc):
+            bcs = mesh.elem[iel].bcs[ibc, iface]
+            bcs[0] = bc
+            if bc != "":
+                # the element and face the condition belongs to
+                bcs[1] = iel + 1
+                bcs[2] = iface + 1
+
         for ibc in range(nbc):
             for i in range(ni):
                 # bottom face
-                mesh.elem[elnum(i, 0, ni, nj)].bcs[ibc, 0][0] = bc0[ibc]
+                set_bc(ibc, elnum(i, 0, ni, nj), 0, bc0[ibc])
                 # top face
-                mesh.elem[elnum(i, nj - 1, ni, nj)].bcs[ibc, 2][0] = bc2[ibc]
+                set_bc(ibc, elnum(i, nj - 1, ni, nj), 2, bc2[ibc])
             for j in range(nj):
                 # right face
-                mesh.elem[elnum(ni - 1, j, ni, nj)].bcs[ibc, 1][0] = bc1[ibc]
+                set_bc(ibc, elnum(ni - 1, j, ni, nj), 1, bc1[ibc])
                 # left face
-                mesh.elem[elnum(0, j, ni, nj)].bcs[ibc, 3][0] = bc3[ibc]
+                set_bc(ibc, elnum(0, j, ni, nj), 3, bc3[ibc])
 
     # mesh connectivity for a structured grid, ignoring boundaries
     def build_connectivity(mesh, ni, nj):
-- 
2.43.0


From 4e960832d4b28861b9ecb44ce5378ad5442778ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 25/46] fix: generated boxes and circles shared their list of
 variables

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 77fc11d..c400357 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1423,7 +1423,7 @@ def gen_box(
     if bcs_ymax is None:
         bcs_ymax = ["P"] * nbc
 
-    box = HexaData(ndim, nel, lr1, var, nbc=nbc)
+    box = HexaData(ndim, nel, lr1, list(var), nbc=nbc)
     # box dimensions
     lx = xmax - xmin
     if lx <= 0:
@@ -1694,7 +1694,7 @@ def gen_circle(
 
     # Box 1: square
     nel_square = ns * ns
-    box_square = HexaData(ndim, nel_square, lr1, var, nbc=nbc)
+    box_square = HexaData(ndim, nel_square, lr1, list(var), nbc=nbc)
     # the characteristic distance is the diagonal
     c = s * r * sqrt(2)
     for i, j in product(range(ns), range(ns)):
-- 
2.43.0


From e5e2550c35451d8ebdfbf853fe5e08882c1db28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 26/46] fix: field file names with line breaks or other digits
 than 0-9 were misjudged

---
 src/pymech/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 18c065b..f07e8c8 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -22,7 +22,7 @@ nek_ext_pattern = re.compile(
    (\d{5}|ld)  # 5 digits or the characters "ld"
    \Z          # nothing after that
 """,
-    re.VERBOSE,
+    re.VERBOSE | re.DOTALL | re.ASCII,
 )
 
 
-- 
2.43.0


From 5212d109da79addebefa7a66f13c7fc7c6cf2162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 27/46] fix: datasets with elements not aligned with the axes
 had values at the wrong coordinates

---
 src/pymech/dataset.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index f07e8c8..0bd5a9d 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -132,12 +132,19 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
     def __init__(self, elem):
         self.elem = elem
 
-    def meshgrid_to_dim(self, mesh):
+    def meshgrid_to_dim(self, mesh, axis):
         """Reverse of np.meshgrid. This method extracts one-dimensional
         coordinates from a cubical array format for every direction
 
         """
-        u, indices = np.unique(np.round(mesh, 8), return_index=True)
+        rounded = np.round(mesh, 8)
+        u, indices = np.unique(rounded, return_index=True)
+        # The coordinate must increase along its own axis and along no other one
+        shape = [1] * np.ndim(mesh)
+        shape[axis] = np.size(u)
+        if np.size(u) != np.shape(mesh)[axis] or np.any(rounded != u.reshape(shape)):
+            raise ValueError("The element is not aligned with the coordinate axes")
+
         mesh_1d = np.reshape(mesh, np.size(mesh))
         dim = mesh_1d[indices]
         return dim
@@ -160,9 +167,9 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
         elem = self.elem
 
         data_vars = {
-            ax[2]: self.meshgrid_to_dim(elem.pos[0]),  # x
-            ax[1]: self.meshgrid_to_dim(elem.pos[1]),  # y
-            ax[0]: self.meshgrid_to_dim(elem.pos[2]),  # z
+            ax[2]: self.meshgrid_to_dim(elem.pos[0], 2),  # x
+            ax[1]: self.meshgrid_to_dim(elem.pos[1], 1),  # y
+            ax[0]: self.meshgrid_to_dim(elem.pos[2], 0),  # z
             "xmesh": xr.Variable(ax, elem.pos[0]),
             "ymesh": xr.Variable(ax, elem.pos[1]),
             "zmesh": xr.Variable(ax, elem.pos[2]),
-- 
2.43.0


From f7ab17d071bbe0ee90d52ff83a450a5abcb918bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 28/46] fix: hexa2vtk keeps the coordinates, velocities and
 cells of 2D fields

---
 src/pymech/vtksuite.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 559bf1e..5ce8611 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -127,9 +127,9 @@ def hexa2vtk(field, downsample=False):
             iarray = iel * nppel + ix + iy * nix + iz * (nix * niy)
 
             # Downsample copy into a column vector
-            if field.var[0] == 3:
+            if field.var[0] != 0:
                 r[iarray, :] = field.elem[iel].pos[:, ez, ey, ex]
-            if field.var[1] == 3:
+            if field.var[1] != 0:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
                 p[iarray] = field.elem[iel].pres[:, ez, ey, ex]
@@ -137,7 +137,7 @@ def hexa2vtk(field, downsample=False):
                 T[iarray] = field.elem[iel].temp[:, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
-        if field.var[0] == 3:
+        if field.var[0] != 0:
             for iz, iy, ix in product(
                 range(max(niz - 1, 1)), range(niy - 1), range(nix - 1)
             ):
-- 
2.43.0


From 9c2406765be645762183c2e10e26e001359e4792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 29/46] fix: hexa2vtk assigns scalar pressures and
 temperatures, not one-element arrays

---
 src/pymech/vtksuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/vtksuite.py b/src/pymech/vtksuite.py
index 5ce8611..f2d475a 100644
--- a/src/pymech/vtksuite.py
+++ b/src/pymech/vtksuite.py
@@ -132,9 +132,9 @@ def hexa2vtk(field, downsample=False):
             if field.var[1] != 0:
                 v[iarray, :] = field.elem[iel].vel[:, ez, ey, ex]
             if field.var[2] == 1:
-                p[iarray] = field.elem[iel].pres[:, ez, ey, ex]
+                p[iarray] = field.elem[iel].pres[0, ez, ey, ex]
             if field.var[3] == 1:
-                T[iarray] = field.elem[iel].temp[:, ez, ey, ex]
+                T[iarray] = field.elem[iel].temp[0, ez, ey, ex]
             if field.var[4] != 0:
                 S[iarray, :] = field.elem[iel].scal[:, ez, ey, ex]
         if field.var[0] != 0:
-- 
2.43.0


From fee900517ef3bf0b892c7f2fd40aec28835d14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 30/46] fix: writerea ran coordinates with three-digit
 exponents together

The reader (and Fortran's free-format input) could not tell them apart.
---
 src/pymech/neksuite/mesh.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 8eff2e8..b5bcebf 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -375,7 +375,7 @@ def writerea(fname, data):
         outfile.write("           ELEMENT {:10d} [  1a]    GROUP 1\n".format(iel + 1))
         if data.ndim == 2:
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[0, 0, 0, 0],
                     data.elem[iel].pos[0, 0, 0, -1],
                     data.elem[iel].pos[0, 0, -1, -1],
@@ -383,7 +383,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[1, 0, 0, 0],
                     data.elem[iel].pos[1, 0, 0, -1],
                     data.elem[iel].pos[1, 0, -1, -1],
@@ -392,7 +392,7 @@ def writerea(fname, data):
             )
         elif data.ndim == 3:
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[0, 0, 0, 0],
                     data.elem[iel].pos[0, 0, 0, -1],
                     data.elem[iel].pos[0, 0, -1, -1],
@@ -400,7 +400,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[1, 0, 0, 0],
                     data.elem[iel].pos[1, 0, 0, -1],
                     data.elem[iel].pos[1, 0, -1, -1],
@@ -408,7 +408,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[2, 0, 0, 0],
                     data.elem[iel].pos[2, 0, 0, -1],
                     data.elem[iel].pos[2, 0, -1, -1],
@@ -417,7 +417,7 @@ def writerea(fname, data):
             )
             #
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[0, -1, 0, 0],
                     data.elem[iel].pos[0, -1, 0, -1],
                     data.elem[iel].pos[0, -1, -1, -1],
@@ -425,7 +425,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[1, -1, 0, 0],
                     data.elem[iel].pos[1, -1, 0, -1],
                     data.elem[iel].pos[1, -1, -1, -1],
@@ -433,7 +433,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[2, -1, 0, 0],
                     data.elem[iel].pos[2, -1, 0, -1],
                     data.elem[iel].pos[2, -1, -1, -1],
-- 
2.43.0


From 26b225d0613ffed84dede8aad18e232fff48f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 31/46] fix: exponential_refinement_parameter did not converge
 for four elements of very different lengths

The slope used in the iteration was an expansion around one, half of the
right one for n = 4 and ratios close to zero.
---
 src/pymech/meshtools.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c400357..f2122df 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1304,14 +1304,7 @@ def exponential_refinement_parameter(l0, ltot, n, tol=1e-14):
         if abs(x - 1) < eps_approx_fp:
             return 0.5 * (n - 1) + (n - 1) * (n - 5) / 12 * (x - 1)
         else:
-            # this would be first order accurate
-            # return n * x**(n - 1) / (x**n - 1) - 1 / (x - 1)
-            # this is second order
-            return (
-                (n - 1) / 2
-                + (n - 1) * (n - 2) / 3 * (x - 1)
-                + (n - 1) * (n - 2) * (n - 3) / 8 * (x - 1) ** 2
-            ) / (1 + (n - 1) / 2 * (x - 1) + (n - 1) * (n - 2) / 6 * (x - 1) ** 2)
+            return n * x ** (n - 1) / (x**n - 1) - 1 / (x - 1)
 
     # Solve this using the Newton method.
     # initial guess: we can choose alpha = 1 now that the function is well behaved around that point.
-- 
2.43.0


From b1eca5599ed2916425d25b1d2623c16fe461aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:32 +0000
Subject: [PATCH 32/46] fix: gen_circle's default spacing failed with one layer
 and folded elements around a coarse square

---
 src/pymech/meshtools.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f2122df..5699967 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1599,22 +1599,22 @@ def gen_circle(
             l1 = len_new / width * ((1 - eta) * width + eta * total_width)
             return l1 - len_ref
 
-        # iterate using the secant method
-        l0 = 1
-        l1 = 0
-        f0 = err_stretching(l0, square_spacing)
-        eps = 1e-12  # this value shouldn't matter very much
-        max_iters = 10000
-        iters = 0
-        while abs(f0) > eps and iters < max_iters:
-            f1 = err_stretching(l1, square_spacing)
-            # Update l0 and l1
-            l0, l1 = l1, l1 - (l1 - l0) / (f1 - f0) * f1
-            f0 = f1
-            iters += 1
-
-        # geometric spacing progression factor using that first element size
-        alpha = exponential_refinement_parameter(l1, width, no)
+        if no > 1 and err_stretching(width, square_spacing) > 0:
+            # the length is between 0 and the whole width: find it by bisection
+            l0, l1 = 0, width
+            for _ in range(100):
+                middle = 0.5 * (l0 + l1)
+                if err_stretching(middle, square_spacing) > 0:
+                    l1 = middle
+                else:
+                    l0 = middle
+
+            # geometric spacing progression factor using that first element size
+            alpha = exponential_refinement_parameter(l1, width, no)
+        else:
+            # there is only one layer, or its first element would not fit: use a uniform spacing
+            l1 = width / no
+            alpha = 1
 
         def bl_fun(x):
             eps = 1e-12
-- 
2.43.0


From 16da2e482af49ad33b86fce5adbdd14c8dce9ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 33/46] fix: fields of two points per direction were refused as
 meshes because their shape is a tuple

---
 src/pymech/meshtools.py     | 6 +++---
 src/pymech/neksuite/mesh.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 5699967..61dba88 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -35,7 +35,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
 
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -218,7 +218,7 @@ def extrude_refine(
     # Consistency checks: Initial grid
     if mesh2D.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh2D.lr1 != [2, 2, 1]:
+    if list(mesh2D.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh2D.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
@@ -420,7 +420,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
     # Consistency checks: Initial grid
     if mesh.ndim != 2:
         raise ValueError("The mesh to extrude must be 2D")
-    if mesh.lr1 != [2, 2, 1]:
+    if list(mesh.lr1) != [2, 2, 1]:
         raise ValueError("Only mesh structures can be extruded (lr1 = [2, 2, 1])")
     if mesh.var[0] < 2:
         raise ValueError("The mesh to extrude must contain (x, y) geometry")
diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index b5bcebf..fa48bbd 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -775,7 +775,7 @@ def writere2(fname, data):
     # ---------------------------------------------------------------------------
     #
     # We could extract the corners, but for now just return an error if lr1 is too large
-    if data.lr1 != [2, 2, data.ndim - 1]:
+    if list(data.lr1) != [2, 2, data.ndim - 1]:
         raise ValueError(
             "wrong element dimensions for re2 file! {} != {}".format(
                 data.lr1, [2, 2, data.ndim - 1]
-- 
2.43.0


From 3350f3a4bba7ac0e0f9a4b9cfe92b2809b6ed33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 34/46] fix: writenek emptied an existing file before refusing
 data of an unsupported word size

---
 src/pymech/neksuite/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 9441f35..8bca338 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -384,8 +384,6 @@ def writenek(fname, data):
             data structure
     """
     #
-    outfile = open(fname, "wb")
-    #
     # ---------------------------------------------------------------------------
     # WRITE HEADER
     # ---------------------------------------------------------------------------
@@ -413,6 +411,9 @@ def writenek(fname, data):
     else:
         raise ValueError("Could not interpret real type (wdsz = %i)" % (data.wdsz))
     #
+    # only touch the file once the data is known to be writable
+    outfile = open(fname, "wb")
+    #
     # generate header
     outfile.write(h.as_bytestring())
     #
-- 
2.43.0


From efa6ed51cdfa4238f32d29dc0413fca50900f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 35/46] fix: extrude_refine failed when coarsening inwards
 across a line through mesh vertices

---
 src/pymech/meshtools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 61dba88..6ecf057 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -329,6 +329,9 @@ def extrude_refine(
         if k < imesh_high:
 
             def fun_local(xpos, ypos, rlim):
+                if fun[k](xpos, ypos, rlim) == 0.0:
+                    # a point on the line belongs to the internal mesh, here the coarse side
+                    return 1.0
                 return -fun[k](xpos, ypos, rlim)
 
             n_mid = 2 * n_local
-- 
2.43.0


From a5967446169ac7aca3e902f91928e7bc731d9fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 36/46] fix: keep_elements took negative element numbers and
 wrote wrong connectivity

---
 src/pymech/meshtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 6ecf057..cc24302 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1217,7 +1217,7 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
     last_iel = -1
     current_offset = 0
     for iel in elems:
-        if iel >= mesh.nel:
+        if iel < 0 or iel >= mesh.nel:
             raise ValueError(f"invalid element number {iel} for nel = {mesh.nel}")
         current_offset += iel - last_iel - 1
         offsets[iel] = current_offset
-- 
2.43.0


From c32edd3cadf9af99ae75016121b2a655be991bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:21 +0000
Subject: [PATCH 37/46] fix: keep_elements duplicated elements whose number was
 repeated

---
 src/pymech/meshtools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index cc24302..c06a877 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1205,9 +1205,8 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
             if an element was connected to another which is removed from the mesh, replace that condition with external_bc
     """
 
-    # sort element numbers
-    elems = np.array(elems)
-    elems.sort()
+    # sort element numbers, each of which is kept once
+    elems = np.array(sorted(set(elems)))
 
     # list of booleans representing whether each element is kept
     kept = [False for i in range(mesh.nel)]
-- 
2.43.0


From 67beb847fee147151a507329679f7c160f2696e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 38/46] fix: edge_mid and edge_circle used inner points of
 elements of higher order as vertices

---
 src/pymech/meshtools.py | 84 ++++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c06a877..b8a799c 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -915,40 +915,40 @@ def edge_mid(el, iedge):
     if el.ccurv[iedge] != "m":
         if iedge == 0:
             pos1 = el.pos[:, 0, 0, 0]
-            pos2 = el.pos[:, 0, 0, 1]
+            pos2 = el.pos[:, 0, 0, -1]
         elif iedge == 1:
-            pos1 = el.pos[:, 0, 0, 1]
-            pos2 = el.pos[:, 0, 1, 1]
+            pos1 = el.pos[:, 0, 0, -1]
+            pos2 = el.pos[:, 0, -1, -1]
         elif iedge == 2:
-            pos1 = el.pos[:, 0, 1, 1]
-            pos2 = el.pos[:, 0, 1, 0]
+            pos1 = el.pos[:, 0, -1, -1]
+            pos2 = el.pos[:, 0, -1, 0]
         elif iedge == 3:
-            pos1 = el.pos[:, 0, 1, 0]
+            pos1 = el.pos[:, 0, -1, 0]
             pos2 = el.pos[:, 0, 0, 0]
         elif iedge == 4:
-            pos1 = el.pos[:, 1, 0, 0]
-            pos2 = el.pos[:, 1, 0, 1]
+            pos1 = el.pos[:, -1, 0, 0]
+            pos2 = el.pos[:, -1, 0, -1]
         elif iedge == 5:
-            pos1 = el.pos[:, 1, 0, 1]
-            pos2 = el.pos[:, 1, 1, 1]
+            pos1 = el.pos[:, -1, 0, -1]
+            pos2 = el.pos[:, -1, -1, -1]
         elif iedge == 6:
-            pos1 = el.pos[:, 1, 1, 1]
-            pos2 = el.pos[:, 1, 1, 0]
+            pos1 = el.pos[:, -1, -1, -1]
+            pos2 = el.pos[:, -1, -1, 0]
         elif iedge == 7:
-            pos1 = el.pos[:, 1, 1, 0]
-            pos2 = el.pos[:, 1, 0, 0]
+            pos1 = el.pos[:, -1, -1, 0]
+            pos2 = el.pos[:, -1, 0, 0]
         elif iedge == 8:
             pos1 = el.pos[:, 0, 0, 0]
-            pos2 = el.pos[:, 1, 0, 0]
+            pos2 = el.pos[:, -1, 0, 0]
         elif iedge == 9:
-            pos1 = el.pos[:, 0, 0, 1]
-            pos2 = el.pos[:, 1, 0, 1]
+            pos1 = el.pos[:, 0, 0, -1]
+            pos2 = el.pos[:, -1, 0, -1]
         elif iedge == 10:
-            pos1 = el.pos[:, 0, 1, 1]
-            pos2 = el.pos[:, 1, 1, 1]
+            pos1 = el.pos[:, 0, -1, -1]
+            pos2 = el.pos[:, -1, -1, -1]
         elif iedge == 11:
-            pos1 = el.pos[:, 0, 1, 0]
-            pos2 = el.pos[:, 1, 1, 0]
+            pos1 = el.pos[:, 0, -1, 0]
+            pos2 = el.pos[:, -1, -1, 0]
 
         if el.ccurv[iedge] == "":
             midpoint = (pos1 + pos2) / 2.0
@@ -1006,40 +1006,40 @@ def edge_circle(el, iedge, midpoint):
 
     if iedge == 0:
         pos1 = el.pos[:, 0, 0, 0]
-        pos2 = el.pos[:, 0, 0, 1]
+        pos2 = el.pos[:, 0, 0, -1]
     elif iedge == 1:
-        pos1 = el.pos[:, 0, 0, 1]
-        pos2 = el.pos[:, 0, 1, 1]
+        pos1 = el.pos[:, 0, 0, -1]
+        pos2 = el.pos[:, 0, -1, -1]
     elif iedge == 2:
-        pos1 = el.pos[:, 0, 1, 1]
-        pos2 = el.pos[:, 0, 1, 0]
+        pos1 = el.pos[:, 0, -1, -1]
+        pos2 = el.pos[:, 0, -1, 0]
     elif iedge == 3:
-        pos1 = el.pos[:, 0, 1, 0]
+        pos1 = el.pos[:, 0, -1, 0]
         pos2 = el.pos[:, 0, 0, 0]
     elif iedge == 4:
-        pos1 = el.pos[:, 1, 0, 0]
-        pos2 = el.pos[:, 1, 0, 1]
+        pos1 = el.pos[:, -1, 0, 0]
+        pos2 = el.pos[:, -1, 0, -1]
     elif iedge == 5:
-        pos1 = el.pos[:, 1, 0, 1]
-        pos2 = el.pos[:, 1, 1, 1]
+        pos1 = el.pos[:, -1, 0, -1]
+        pos2 = el.pos[:, -1, -1, -1]
     elif iedge == 6:
-        pos1 = el.pos[:, 1, 1, 1]
-        pos2 = el.pos[:, 1, 1, 0]
+        pos1 = el.pos[:, -1, -1, -1]
+        pos2 = el.pos[:, -1, -1, 0]
     elif iedge == 7:
-        pos1 = el.pos[:, 1, 1, 0]
-        pos2 = el.pos[:, 1, 0, 0]
+        pos1 = el.pos[:, -1, -1, 0]
+        pos2 = el.pos[:, -1, 0, 0]
     elif iedge == 8:
         pos1 = el.pos[:, 0, 0, 0]
-        pos2 = el.pos[:, 1, 0, 0]
+        pos2 = el.pos[:, -1, 0, 0]
     elif iedge == 9:
-        pos1 = el.pos[:, 0, 0, 1]
-        pos2 = el.pos[:, 1, 0, 1]
+        pos1 = el.pos[:, 0, 0, -1]
+        pos2 = el.pos[:, -1, 0, -1]
     elif iedge == 10:
-        pos1 = el.pos[:, 0, 1, 1]
-        pos2 = el.pos[:, 1, 1, 1]
+        pos1 = el.pos[:, 0, -1, -1]
+        pos2 = el.pos[:, -1, -1, -1]
     elif iedge == 11:
-        pos1 = el.pos[:, 0, 1, 0]
-        pos2 = el.pos[:, 1, 1, 0]
+        pos1 = el.pos[:, 0, -1, 0]
+        pos2 = el.pos[:, -1, -1, 0]
 
     side1 = midpoint - pos1
     side2 = pos2 - midpoint
-- 
2.43.0


From 3a57cb391b1ed01b69d7b92db33cd15ed329656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 39/46] fix: map2D left the points of elements of higher order
 but the first four where they were

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index b8a799c..fd13fa4 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1847,9 +1847,9 @@ def map2D(
 
     mapped_mesh = copy.deepcopy(mesh)
     for el, mapped_el in zip(mesh.elem, mapped_mesh.elem):
-        # map the vertices of the elements. This is the easy part.
+        # map the points of the elements. This is the easy part.
         # we might want to use vectorisation here but the input function might not support it
-        for ix, iy in product(range(2), range(2)):
+        for ix, iy in product(range(mesh.lr1[1]), range(mesh.lr1[0])):
             x = el.pos[0, 0, ix, iy]
             y = el.pos[1, 0, ix, iy]
             mapped_x, mapped_y = transformation(x, y)
-- 
2.43.0


From f87e520d68d7a7cb783e59027c605ebfaf954751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:56 +0000
Subject: [PATCH 40/46] fix: merging meshes with different numbers of condition
 fields left elements with the wrong number of fields

---
 src/pymech/core.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 958dffd..24edbb5 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -421,6 +421,14 @@ class HexaData:
 
         # check how many boundary condition fields we have
         nbc = min(self.nbc, other.nbc)
+        if self.nbc != other.nbc:
+            # all elements must have the fields of the mesh: ignore those which only the other mesh has
+            # and leave those which it does not have empty
+            for el in mesh_add.elem:
+                empty_bcs = np.zeros(
+                    (self.nbc - nbc,) + el.bcs.shape[1:], dtype=el.bcs.dtype
+                )
+                el.bcs = np.concatenate((el.bcs[:nbc], empty_bcs))
 
         # glue common faces together
         # only look for the neighbour in the first BC field because it should be the same in all fields.
@@ -431,6 +439,8 @@ class HexaData:
             logger.warning("No pairs of faces to merge.")
             return nchanges
 
+        # the faces are connected in all fields
+        nbc = self.nbc
         for iel0, iface0 in product(range(nel1, self.nel), range(nfaces)):
             elem0 = self.elem[iel0]
             bc0 = elem0.bcs[0, iface0][0]
@@ -460,6 +470,10 @@ class HexaData:
 
                                     elem_p0_bcs[0] = "P"
                                     elem_p1_bcs[0] = "P"
+                                    elem_p0_bcs[1] = iel_p0 + 1
+                                    elem_p1_bcs[1] = iel_p1 + 1
+                                    elem_p0_bcs[2] = iface_p0 + 1
+                                    elem_p1_bcs[2] = iface_p1 + 1
                                     elem_p0_bcs[3] = iel_p1 + 1
                                     elem_p1_bcs[3] = iel_p0 + 1
                                     elem_p0_bcs[4] = iface_p1 + 1
@@ -468,6 +482,11 @@ class HexaData:
                             for ibc in range(nbc):
                                 elem0.bcs[ibc, iface0][0] = "E"
                                 elem1.bcs[ibc, iface1][0] = "E"
+                                # the condition may have been empty: also set the element and face it belongs to
+                                elem0.bcs[ibc, iface0][1] = iel0 + 1
+                                elem1.bcs[ibc, iface1][1] = iel1 + 1
+                                elem0.bcs[ibc, iface0][2] = iface0 + 1
+                                elem1.bcs[ibc, iface1][2] = iface1 + 1
                                 elem0.bcs[ibc, iface0][3] = iel1 + 1
                                 elem1.bcs[ibc, iface1][3] = iel0 + 1
                                 elem0.bcs[ibc, iface0][4] = iface1 + 1
-- 
2.43.0


From d0f4587ef04793dba262bd6a115d6fdb4616c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:26 +0000
Subject: [PATCH 41/46] fix: extruded meshes kept the velocity and scalar
 arrays of the 2D mesh, with 2D shapes

---
 src/pymech/meshtools.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index fd13fa4..c4567f1 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -80,6 +80,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
             iel = i + nel2d * k
             # replace the position arrays with 3D ones (with z empty)
             mesh3d.elem[iel].pos = np.zeros((3, 2, 2, 2))
+            _remove_2d_data(mesh3d.elem[iel])
             mesh3d.elem[iel].pos[:, :1, :, :] = mesh.elem[i].pos
             mesh3d.elem[iel].pos[:, 1:2, :, :] = mesh.elem[i].pos
 
@@ -159,6 +160,17 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     return mesh3d
 
 
+# ==============================================================================
+def _remove_2d_data(elem):
+    """Replaces the velocity and scalar arrays of an extruded element, which have 2D shapes,
+    with those of a 3D element that has nothing but geometry"""
+
+    elem.vel = np.zeros((3, 2, 2, 2))
+    elem.pres = np.zeros((0, 2, 2, 2))
+    elem.temp = np.zeros((0, 2, 2, 2))
+    elem.scal = np.zeros((0, 2, 2, 2))
+
+
 # ==============================================================================
 def extrude_refine(
     mesh2D,
@@ -472,6 +484,7 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
             for iell in range(6):
                 mesh3d.elem[iel + iell] = copy.deepcopy(mesh.elem[i])
                 mesh3d.elem[iel + iell].pos = np.zeros((3, 2, 2, 2))
+                _remove_2d_data(mesh3d.elem[iel + iell])
 
             xvec = np.zeros((2, 2))
             yvec = np.zeros((2, 2))
-- 
2.43.0


From 689f7cca5c4a2f55523b46c8e26fa7ee20312309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:58 +0000
Subject: [PATCH 42/46] fix: rotating a mesh left the centres of spherical
 curvature where they were

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c4567f1..7d50639 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1362,9 +1362,9 @@ def rotate_2d(mesh, x0, y0, theta):
         y = el.pos[1, ...] - y0
         el.pos[0, ...] = x0 + cost * x - sint * y
         el.pos[1, ...] = y0 + sint * x + cost * y
-        # rotate 'm' curvature
+        # rotate the midpoints of 'm' curvature and the centres of 's' curvature
         for edge in range(12):
-            if el.ccurv[edge] == "m":
+            if el.ccurv[edge] == "m" or el.ccurv[edge] == "s":
                 x = el.curv[edge, 0] - x0
                 y = el.curv[edge, 1] - y0
                 el.curv[edge, 0] = x0 + cost * x - sint * y
-- 
2.43.0


From 7f3e2d70167b88b03cf433d39eb19a83fb1f762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:54 +0000
Subject: [PATCH 43/46] fix: check_connectivity raised IndexError or accepted
 partner faces that do not exist

---
 src/pymech/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 24edbb5..faf450f 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -303,6 +303,13 @@ class HexaData:
                         f"{connected_face} of the nonexistent element {connected_iel}"
                     )
                     logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
+                elif connected_face < 0 or connected_face >= 2 * dim:
+                    err = True
+                    logger.error(
+                        f"face {iface} of element {iel} is connected ('{cbc}') to the "
+                        f"nonexistent face {connected_face} of element {connected_iel}"
+                    )
+                    logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
                 else:
                     cbc1 = self.elem[connected_iel].bcs[ibc, connected_face][0]
                     iel1 = int(self.elem[connected_iel].bcs[ibc, connected_face][3]) - 1
-- 
2.43.0


From 35d5ee0fb89d03b3a92e544041561c5684fa829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:54 +0000
Subject: [PATCH 44/46] fix: one part of a multi-file field was written with a
 header that claims all elements

---
 src/pymech/neksuite/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 8bca338..c0ab5eb 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -392,7 +392,7 @@ def writenek(fname, data):
         data.wdsz,
         data.lr1,
         data.nel,
-        data.nel,
+        len(data.elmap),
         data.time,
         data.istep,
         fid=0,
-- 
2.43.0


From b6afeb6963ceb0af1f2e2095a9b439c007742d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:53 +0000
Subject: [PATCH 45/46] fix: fields read with a corrupted element map were
 written with the data of other elements

---
 src/pymech/neksuite/field.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index c0ab5eb..4af4675 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -450,6 +450,11 @@ def writenek(fname, data):
     # compute total number of points per element
     #  npel = data.lr1[0] * data.lr1[1] * data.lr1[2]
 
+    # same workaround as in readnek, which does not follow a corrupted map
+    elmap = data.elmap
+    if 0 in elmap:
+        elmap = range(1, len(elmap) + 1)
+
     def write_ndarray_to_file(a):
         """Write a data array to the output file in the requested precision and endianness"""
         if data.wdsz == 4:
@@ -459,22 +464,22 @@ def writenek(fname, data):
 
     #
     # write geometry
-    for iel in data.elmap:
+    for iel in elmap:
         for idim in range(data.var[0]):  # if var[0] == 0, geometry is not written
             write_ndarray_to_file(data.elem[iel - 1].pos[idim, :, :, :])
     #
     # write velocity
-    for iel in data.elmap:
+    for iel in elmap:
         for idim in range(data.var[1]):  # if var[1] == 0, velocity is not written
             write_ndarray_to_file(data.elem[iel - 1].vel[idim, :, :, :])
     #
     # write pressure
-    for iel in data.elmap:
+    for iel in elmap:
         for ivar in range(data.var[2]):  # if var[2] == 0, pressure is not written
             write_ndarray_to_file(data.elem[iel - 1].pres[ivar, :, :, :])
     #
     # write temperature
-    for iel in data.elmap:
+    for iel in elmap:
         for ivar in range(data.var[3]):  # if var[3] == 0, temperature is not written
             write_ndarray_to_file(data.elem[iel - 1].temp[ivar, :, :, :])
     #
@@ -485,13 +490,13 @@ def writenek(fname, data):
     # are in the inner loop
     #
     for ivar in range(data.var[4]):  # if var[4] == 0, scalars are not written
-        for iel in data.elmap:
+        for iel in elmap:
             write_ndarray_to_file(data.elem[iel - 1].scal[ivar, :, :, :])
     #
     # write max and min of every field in every element (forced to single precision)
     if data.ndim == 3:
         #
-        for iel in data.elmap:
+        for iel in elmap:
             for idim in range(data.var[0]):
                 correct_endianness(
                     np.min(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
@@ -499,7 +504,7 @@ def writenek(fname, data):
                 correct_endianness(
                     np.max(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
                 ).tofile(outfile)
-        for iel in data.elmap:
+        for iel in elmap:
             for idim in range(data.var[1]):
                 correct_endianness(
                     np.min(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
@@ -507,7 +512,7 @@ def writenek(fname, data):
                 correct_endianness(
                     np.max(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
                 ).tofile(outfile)
-        for iel in data.elmap:
+        for iel in elmap:
             for ivar in range(data.var[2]):
                 correct_endianness(
                     np.min(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
@@ -515,7 +520,7 @@ def writenek(fname, data):
                 correct_endianness(
                     np.max(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
                 ).tofile(outfile)
-        for iel in data.elmap:
+        for iel in elmap:
             for ivar in range(data.var[3]):
                 correct_endianness(
                     np.min(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
@@ -523,7 +528,7 @@ def writenek(fname, data):
                 correct_endianness(
                     np.max(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
                 ).tofile(outfile)
-        for iel in data.elmap:
+        for iel in elmap:
             for ivar in range(data.var[4]):
                 correct_endianness(
                     np.min(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
-- 
2.43.0


From 20e7a195f9eaeefe3c3f81c6705f7fa6451be26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:42 +0000
Subject: [PATCH 46/46] fix: generate_internal_bcs overwrote the conditions of
 later fields on faces blank in the first, and failed without fields

---
 src/pymech/meshtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 7d50639..d9ecfc0 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1152,7 +1152,7 @@ def generate_internal_bcs(mesh, tol=1e-3):
         el = mesh.elem[iel]
         for iface in range(nface):
             fc[iel, iface, :] = el.face_center(iface)
-            if el.bcs[0, iface][0] != "":
+            if any(el.bcs[ibc, iface][0] != "" for ibc in range(mesh.nbc)):
                 lc[iel, iface] = True  # mark connected faces as True
 
     # Now that we have the scales, we can compare the location of the faces for each pair of elements and connect them if they are close
-- 
2.43.0

