From 387e3f17e7b995327026e53625bf35796397137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 01/35] fix: report write errors of writenek and writere2

ndarray.tofile buffers in a C stream whose flush errors are lost, so a full
disk or I/O error produced a truncated file and a success return value.
---
 src/pymech/neksuite/field.py | 54 ++++++++++++++++++++----------------
 src/pymech/neksuite/mesh.py  | 12 ++++----
 2 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index d61a11d..5a50cea 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -434,13 +434,19 @@ def writenek(fname, data):
         else:
             return a
 
+    def write_array(a):
+        """Write an array with the requested endianness, reporting any write error.
+        This goes through the file object because `ndarray.tofile` buffers the data
+        in a C stream and loses the errors that occur when that stream is flushed."""
+        outfile.write(correct_endianness(a).tobytes())
+
     #
     # write tag (to specify endianness)
     endianbytes = np.array([6.54321], dtype=np.float32)
-    correct_endianness(endianbytes).tofile(outfile)
+    write_array(endianbytes)
     #
     # write element map for the file
-    correct_endianness(data.elmap).tofile(outfile)
+    write_array(data.elmap)
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -452,9 +458,9 @@ def writenek(fname, data):
     def write_ndarray_to_file(a):
         """Write a data array to the output file in the requested precision and endianness"""
         if data.wdsz == 4:
-            correct_endianness(a.astype(np.float32)).tofile(outfile)
+            write_array(a.astype(np.float32))
         else:
-            correct_endianness(a).tofile(outfile)
+            write_array(a)
 
     #
     # write geometry
@@ -492,44 +498,44 @@ def writenek(fname, data):
         #
         for iel in data.elmap:
             for idim in range(data.var[0]):
-                correct_endianness(
+                write_array(
                     np.min(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
+                )
+                write_array(
                     np.max(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                )
         for iel in data.elmap:
             for idim in range(data.var[1]):
-                correct_endianness(
+                write_array(
                     np.min(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
+                )
+                write_array(
                     np.max(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                )
         for iel in data.elmap:
             for ivar in range(data.var[2]):
-                correct_endianness(
+                write_array(
                     np.min(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
+                )
+                write_array(
                     np.max(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                )
         for iel in data.elmap:
             for ivar in range(data.var[3]):
-                correct_endianness(
+                write_array(
                     np.min(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
+                )
+                write_array(
                     np.max(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                )
         for iel in data.elmap:
             for ivar in range(data.var[4]):
-                correct_endianness(
+                write_array(
                     np.min(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
-                correct_endianness(
+                )
+                write_array(
                     np.max(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
-                ).tofile(outfile)
+                )
 
     # close file
     outfile.close()
diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 03be657..a169a4f 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -810,10 +810,16 @@ def writere2(fname, data):
         else:
             return a
 
+    def write_data_to_file(a):
+        """Write an array to the output file with the requested endianness.
+        This goes through the file object because `ndarray.tofile` buffers the data
+        in a C stream and loses the errors that occur when that stream is flushed."""
+        outfile.write(correct_endianness(a).tobytes())
+
     #
     # write tag (to specify endianness)
     endianbytes = np.array([6.54321], dtype=np.float32)
-    correct_endianness(endianbytes).tofile(outfile)
+    write_data_to_file(endianbytes)
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -822,10 +828,6 @@ def writere2(fname, data):
     # compute total number of points per element
     npel = 2**ndim
 
-    def write_data_to_file(a):
-        """Write the geometry of an element to the output file in double precision"""
-        correct_endianness(a).tofile(outfile)
-
     #
     # write geometry (adding eight bytes of zeros before each element)
     xyz = np.zeros(
-- 
2.43.0


From 8492ce74dde06d6d134bd58d73542b69d7290713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 02/35] fix: always write the precision that the header of a
 field file declares

With wdsz = 8 the values were written in their in-memory type (4 bytes for
float32 data), and the element map in whatever integer type it had.
---
 src/pymech/neksuite/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 5a50cea..97e625e 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -446,7 +446,7 @@ def writenek(fname, data):
     write_array(endianbytes)
     #
     # write element map for the file
-    write_array(data.elmap)
+    write_array(np.asarray(data.elmap, dtype=np.int32))
     #
     # ---------------------------------------------------------------------------
     # WRITE DATA
@@ -460,7 +460,7 @@ def writenek(fname, data):
         if data.wdsz == 4:
             write_array(a.astype(np.float32))
         else:
-            write_array(a)
+            write_array(a.astype(np.float64))
 
     #
     # write geometry
-- 
2.43.0


From 60375d44fe2dccc05a3990f0b2b50d5069ac90a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 03/35] fix: do not truncate the existing file when writenek
 refuses the data

---
 src/pymech/neksuite/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 97e625e..40d8d34 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -384,8 +384,6 @@ def writenek(fname, data):
             data structure
     """
     #
-    outfile = open(fname, "wb")
-    #
     # ---------------------------------------------------------------------------
     # WRITE HEADER
     # ---------------------------------------------------------------------------
@@ -413,6 +411,9 @@ def writenek(fname, data):
     else:
         raise ValueError("Could not interpret real type (wdsz = %i)" % (data.wdsz))
     #
+    # only open the file (and discard what it contains) once the data has been accepted
+    outfile = open(fname, "wb")
+    #
     # generate header
     outfile.write(h.as_bytestring())
     #
-- 
2.43.0


From b784cceb1561912157851a3d9de03c8488597898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 04/35] fix: reject a truncated field file header

---
 src/pymech/neksuite/field.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 40d8d34..9dd6e69 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -155,13 +155,18 @@ def read_header(path_or_file_obj: Union[PathLike, BinaryIO]) -> Header:
     """
     if isinstance(path_or_file_obj, (str, os.PathLike)):
         with Path(path_or_file_obj).open("rb") as fp:
-            header = fp.read(132).split()
+            header = fp.read(132)
     elif isinstance(path_or_file_obj, io.BufferedReader):
         fp = path_or_file_obj
-        header = fp.read(132).split()
+        header = fp.read(132)
     else:
         raise ValueError("Should be a path or opened file object in 'rb' mode.")
 
+    # a truncated header may still contain enough words but end in the middle of one
+    if len(header) < 132:
+        raise IOError("Header of the file was truncated.")
+
+    header = header.split()
     logger.debug(b"Header: " + b" ".join(header))
     if len(header) < 12:
         raise IOError("Header of the file was too short.")
-- 
2.43.0


From fbdfea8c2be4b234579197ee610ce322c4287605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 05/35] fix: write the extrema of passive scalars in the order
 of the scalars

Nek5000 writes the metadata block of each scalar in turn, like the data.
---
 src/pymech/neksuite/field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 9dd6e69..5d804e0 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -534,8 +534,9 @@ def writenek(fname, data):
                 write_array(
                     np.max(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
                 )
-        for iel in data.elmap:
-            for ivar in range(data.var[4]):
+        # as above, scalars are in the outer loop and elements are in the inner loop
+        for ivar in range(data.var[4]):
+            for iel in data.elmap:
                 write_array(
                     np.min(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
                 )
-- 
2.43.0


From 480d827e6553b50746f26e63b94edb13d6e2d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 06/35] fix: read curved sides and boundary conditions of
 big-endian .re2 files

The counts were read in native byte order, and taking the type as a scalar
reversed its characters when the file has the other byte order.
---
 src/pymech/neksuite/mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index a169a4f..5310ab0 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -681,7 +681,7 @@ def readre2(fname):
     # where p1-5 are f64 parameters and ctype is the type of curvature in ASCII
     ncparam = 8
     buf = infile.read(wdsz)
-    ncurv = int(np.frombuffer(buf)[0])
+    ncurv = int(np.frombuffer(buf, dtype=emode + realtype)[0])
     logger.debug(f"Found {ncurv} curved sides")
     data.ncurv = ncurv
     buf = infile.read(wdsz * (ncparam * ncurv))
@@ -699,7 +699,7 @@ def readre2(fname):
         # select only the first byte, because it turns out the later bytes may contain garbage.
         # typically, it's b'C\x00\x00\x00\x00\x00\x00\x00' or b'C\x00\x00\x00\x00\x00\xe0?'.
         # AFAIK the curvature types are always one character long anyway.
-        ctype = curv[7].tobytes()[:1].decode("utf-8")
+        ctype = curv[7:].tobytes()[:1].decode("utf-8")
         # fill in the data structure
         data.elem[iel].curv[iedge, :] = cparams
         data.elem[iel].ccurv[iedge] = ctype
@@ -716,7 +716,7 @@ def readre2(fname):
             for el in data.elem:
                 empty_bcs = np.zeros(el.bcs[:1, :].shape, dtype=el.bcs.dtype)
                 el.bcs = np.concatenate((el.bcs, empty_bcs))
-        nbclines = int(np.frombuffer(buf)[0])
+        nbclines = int(np.frombuffer(buf, dtype=emode + realtype)[0])
         logger.debug(
             f"Found {nbclines} external boundary conditions for field {ifield}"
         )
@@ -732,7 +732,7 @@ def readre2(fname):
             iel = int(bc[0]) - 1
             iface = int(bc[1]) - 1
             bcparams = bc[2:7]
-            bctype = bc[7].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
+            bctype = bc[7:].tobytes().decode("utf-8").rstrip()  # remove trailing spaces
             # fill in the data structure
             data.elem[iel].bcs[ifield, iface][0] = bctype
             data.elem[iel].bcs[ifield, iface][1] = iel + 1
-- 
2.43.0


From 3a6b9cd077aa4d6a5953c2b534ac839bde03d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 07/35] fix: do not modify the mesh when writing a .rea file

Blank conditions were replaced by invalid 'E' conditions in the caller's data.
---
 src/pymech/neksuite/mesh.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 5310ab0..e2c5ecc 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -510,18 +510,17 @@ def writerea(fname, data):
             )
         for iel in range(data.nel):
             for iface in range(2 * data.ndim):
+                bctype, bciel, bciface = data.elem[iel].bcs[ibc, iface].tolist()[:3]
                 # if no boundary condition is specified, write 'E' iel iface [...]
                 # this is the behaviour of re2torea.
-                if data.elem[iel].bcs[ibc, iface][0] == "":
-                    data.elem[iel].bcs[ibc, iface][0] = "E"
-                    data.elem[iel].bcs[ibc, iface][1] = iel + 1
-                    data.elem[iel].bcs[ibc, iface][2] = iface + 1
+                if bctype == "":
+                    bctype, bciel, bciface = "E", iel + 1, iface + 1
                 if data.nel < 1e3:
                     outfile.write(
                         " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
+                            bctype,
+                            bciel,
+                            bciface,
                             data.elem[iel].bcs[ibc, iface][3],
                             data.elem[iel].bcs[ibc, iface][4],
                             data.elem[iel].bcs[ibc, iface][5],
@@ -532,8 +531,8 @@ def writerea(fname, data):
                 elif data.nel < 1e6:
                     outfile.write(
                         " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
+                            bctype,
+                            bciel,
                             data.elem[iel].bcs[ibc, iface][3],
                             data.elem[iel].bcs[ibc, iface][4],
                             data.elem[iel].bcs[ibc, iface][5],
@@ -544,9 +543,9 @@ def writerea(fname, data):
                 else:
                     outfile.write(
                         " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
-                            data.elem[iel].bcs[ibc, iface][0],
-                            data.elem[iel].bcs[ibc, iface][1],
-                            data.elem[iel].bcs[ibc, iface][2],
+                            bctype,
+                            bciel,
+                            bciface,
                             data.elem[iel].bcs[ibc, iface][3],
                             data.elem[iel].bcs[ibc, iface][4],
                             data.elem[iel].bcs[ibc, iface][5],
-- 
2.43.0


From 6306bd54ee2adaced8da9528df2931935dd2a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 08/35] fix: keep three-character boundary condition names in
 .rea files

The name is a three-character field (A1,A3 in Nek5000); longer names shifted
the rest of the line and were truncated when read.
---
 src/pymech/neksuite/mesh.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index e2c5ecc..c07ecec 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -147,7 +147,7 @@ def readrea(fname):
             for iface in range(nface):
                 line = infile.readline()
                 if nel < 1e3:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[7:10])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -156,7 +156,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 elif nel < 1e6:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = iel + 1
                     data.elem[iel].bcs[ibc, iface][2] = iface + 1
                     data.elem[iel].bcs[ibc, iface][3] = float(line[10:24])
@@ -165,7 +165,7 @@ def readrea(fname):
                     data.elem[iel].bcs[ibc, iface][6] = float(line[52:66])
                     data.elem[iel].bcs[ibc, iface][7] = float(line[66:80])
                 else:
-                    data.elem[iel].bcs[ibc, iface][0] = line[1:3].strip()
+                    data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:15])
                     data.elem[iel].bcs[ibc, iface][2] = int(line[15:16])
                     data.elem[iel].bcs[ibc, iface][3] = float(line[16:34])
@@ -517,7 +517,7 @@ def writerea(fname, data):
                     bctype, bciel, bciface = "E", iel + 1, iface + 1
                 if data.nel < 1e3:
                     outfile.write(
-                        " {:2s} {:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:3d}{:3d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bctype,
                             bciel,
                             bciface,
@@ -530,7 +530,7 @@ def writerea(fname, data):
                     )
                 elif data.nel < 1e6:
                     outfile.write(
-                        " {:2s} {:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                        " {:3s}{:6d}{:14.6e}{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
                             bctype,
                             bciel,
                             data.elem[iel].bcs[ibc, iface][3],
@@ -542,7 +542,7 @@ def writerea(fname, data):
                     )
                 else:
                     outfile.write(
-                        " {:2s} {:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
+                        " {:3s}{:11d}{:1d}{:18.11e}{:18.11e}{:18.11e}{:18.11e}{:18.11e}\n".format(
                             bctype,
                             bciel,
                             bciface,
-- 
2.43.0


From 71cbb6b44376b7868970484d941f75aa765604fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:49 +0000
Subject: [PATCH 09/35] fix: write readable .rea files for meshes without
 boundary conditions

---
 src/pymech/neksuite/mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index c07ecec..077f876 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -498,7 +498,10 @@ def writerea(fname, data):
     #
     # boundary conditions data
     outfile.write("  ***** BOUNDARY CONDITIONS *****\n")
-    outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
+    if data.nbc < 1:
+        outfile.write("  ***** NO FLUID BOUNDARY CONDITIONS *****\n")
+    else:
+        outfile.write("  ***** FLUID BOUNDARY CONDITIONS *****\n")
     for ibc in range(data.nbc):
         if ibc == 1:
             outfile.write("  ***** THERMAL BOUNDARY CONDITIONS *****\n")
-- 
2.43.0


From 24fc27455554ae351dee413cc03baf7fc5e01a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 10/35] fix: detect a .rea file cut in its last boundary
 condition

A file cut inside the last number was read with a wrong value.
---
 src/pymech/neksuite/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 077f876..82ef3ed 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -146,6 +146,9 @@ def readrea(fname):
         for iel in range(nel):
             for iface in range(nface):
                 line = infile.readline()
+                # the file may have been cut in the middle of the last number
+                if not line.endswith("\n"):
+                    raise IOError("Unexpected end of file in boundary conditions")
                 if nel < 1e3:
                     data.elem[iel].bcs[ibc, iface][0] = line[1:4].strip()
                     data.elem[iel].bcs[ibc, iface][1] = int(line[4:7])
-- 
2.43.0


From f91f1f0acc8ab3855a14cc08ad31660a1715bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 11/35] fix: write the actual number of curved sides to .rea
 files

The recorded number may be out of date (writere2 already counts them); the
file was then unreadable or lost curved sides.
---
 src/pymech/neksuite/mesh.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 82ef3ed..1d72f8a 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -446,8 +446,14 @@ def writerea(fname, data):
     #
     # curved side data
     outfile.write("  ***** CURVED SIDE DATA *****\n")
+    # the metadata may be out of date, so count what will actually be written
+    ncurv = sum(ccurv != "" for el in data.elem for ccurv in el.ccurv)
+    if ncurv != data.ncurv:
+        logger.warning(
+            f"wrong number of curved edges: expected {data.ncurv}, found {ncurv}"
+        )
     outfile.write(
-        f"  {data.ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
+        f"  {ncurv:10d} Curved sides follow IEDGE,IEL,CURVE(I),I=1,5, CCURVE\n"
     )
     for iel in range(data.nel):
         if data.nel < 1e3:
-- 
2.43.0


From acd9d9170cd0eb47e63ea7e5491969c1df56afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 12/35] fix: read SIMSON velocity files with passive scalars

The raw bytes were assigned to a float array, which raised.
---
 src/pymech/simsonsuite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index ccf18d3..c2a108b 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -74,10 +74,8 @@ def readdns(fname):
     pr = np.zeros(nscal)
     m = np.zeros(nscal)
     for i in range(nscal):
-        pr[i] = infile.read(wdsz)
-        pr[i] = struct.unpack(emode + realtype, pr[i])[0]
-        m[i] = infile.read(wdsz)
-        m[i] = struct.unpack(emode + realtype, m[i])[0]
+        pr[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
+        m[i] = struct.unpack(emode + realtype, infile.read(wdsz))[0]
     #
     # end-of-line
     eol = infile.read(8)
-- 
2.43.0


From 0b92e3dca7be63987028fb53d474bec56f05321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 13/35] fix: read one- and three-dimensional SIMSON plane files

The record length was computed as a float, which read() and the format
string do not accept.
---
 src/pymech/simsonsuite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/simsonsuite.py b/src/pymech/simsonsuite.py
index c2a108b..8d65855 100644
--- a/src/pymech/simsonsuite.py
+++ b/src/pymech/simsonsuite.py
@@ -313,7 +313,7 @@ def readplane(fname):
         # TODO untested
         print("WARNING: reading 1D files was not tested")
         eol = infile.read(4)
-        nt1 = struct.unpack(emode + "i", eol)[0] / 8
+        nt1 = struct.unpack(emode + "i", eol)[0] // 8
         dum = infile.read(nt1 * wdsz)
         x = struct.unpack(emode + nt1 * realtype, dum)
         #
@@ -333,7 +333,7 @@ def readplane(fname):
         print("WARNING: reading 3D files was not tested")
         for i in range(ndim):
             eol = infile.read(4)
-            nt3 = struct.unpack(emode + "i", eol)[0] / 8
+            nt3 = struct.unpack(emode + "i", eol)[0] // 8
             dum = infile.read(nt3 * wdsz)
             xx = struct.unpack(emode + nt3 * realtype, dum)
             x[i, :, :, :] = np.reshape(xx, (nn[0], nn[1], nn[2]), "F")
-- 
2.43.0


From c732621aff26da55bbaf45adac3b06a43bcc3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 14/35] fix: do not modify the element in edge_mid and
 edge_circle

They returned views of the curvature data and overwrote the radius of
circular edges, so that map2D modified its input and refined extrusion lost
the radius.
---
 src/pymech/meshtools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93ec911..4108e3e 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -895,7 +895,8 @@ def edge_mid(el, iedge):
     """
 
     # correct if ccurv=='m', otherwise, works as allocation
-    midpoint = el.curv[iedge][:3]
+    # (copied so that the element itself is not modified)
+    midpoint = el.curv[iedge][:3].copy()
 
     if el.ccurv[iedge] != "m":
         if iedge == 0:
@@ -1054,7 +1055,7 @@ def edge_circle(el, iedge, midpoint):
         radius = 0.0
         center = [0.0, 0.0, 0.0]
 
-    curv = el.curv[iedge][:4]
+    curv = el.curv[iedge][:4].copy()
     curv[0] = radius
     curv[1:4] = center
 
-- 
2.43.0


From 70416fe739f92f3fa0be2941c976b0f00f5ac524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 15/35] fix: do not share the var and lr1 lists between meshes

Modifying them in one mesh changed other meshes and the default arguments
of gen_box and gen_circle.
---
 src/pymech/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 9b6150e..b470c02 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -236,8 +236,9 @@ class HexaData:
         self.nel = nel
         self.ncurv = 0
         self.nbc = nbc
-        self.var = var
-        self.lr1 = lr1
+        # copied so that meshes never share these lists with each other or with the caller
+        self.var = copy.copy(var)
+        self.lr1 = copy.copy(lr1)
         self.time = 0.0
         self.istep = 0
         self.wdsz = 8
-- 
2.43.0


From 993e900c0fce5d63411a7bf8954125a8e5fc5813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 16/35] fix: measure edges, not diagonals, in
 Elem.smallest_edge

The edges in the second direction were ignored, so the tolerances of merging
and of the connectivity check were too large for thin elements.
---
 src/pymech/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index b470c02..a721a7e 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -150,8 +150,8 @@ class Elem:
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
         x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 0]
-        x4, y4, z4 = self.pos[:, 0, 1, 1]
+        x3, y3, z3 = self.pos[:, 0, 1, 1]
+        x4, y4, z4 = self.pos[:, 0, 1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -167,8 +167,8 @@ class Elem:
             # in 3D, do the same for the upper face, and also the side edges
             x5, y5, z5 = self.pos[:, 1, 0, 0]
             x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 0]
-            x8, y8, z8 = self.pos[:, 1, 1, 1]
+            x7, y7, z7 = self.pos[:, 1, 1, 1]
+            x8, y8, z8 = self.pos[:, 1, 1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From 04fa724a133aaecda09ae9cdb0b23bbe32f86205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 17/35] fix: keep the element map consistent in extrude and
 keep_elements

Its length no longer matched the number of elements, so writenek wrote
corrupt files.
---
 src/pymech/meshtools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 4108e3e..c9e5a84 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -71,6 +71,7 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
         # fix the indexing of periodic and internal conditions
         mesh_add.offset_connectivity((k + 1) * nel2d)
         mesh3d.elem = mesh3d.elem + mesh_add.elem
+        mesh3d.elmap = np.concatenate((mesh3d.elmap, mesh.elmap + (k + 1) * nel2d))
 
     # set the z locations and curvature
     for k in range(nz):
@@ -1231,6 +1232,10 @@ def keep_elements(mesh: HexaData, elems, external_bc=""):
     for iel in elems:
         new_elems.append(mesh.elem[iel])
     mesh.elem = new_elems
+    mesh.elmap = np.array(
+        [iel - offsets[iel - 1] for iel in mesh.elmap if kept[iel - 1]],
+        dtype=mesh.elmap.dtype,
+    )
     mesh.nel = len(mesh.elem)
     mesh.update_ncurv()
 
-- 
2.43.0


From 8fab9f5b6c742f90f1df7e002c56e77e91c3864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 18/35] fix: delete internal conditions in all slices when
 extruding without them

Only the first slice was cleaned.
---
 src/pymech/meshtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index c9e5a84..93c33e8 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -68,6 +68,8 @@ def extrude(mesh: HexaData, z, bc1=None, bc2=None, internal_bcs=True):
     # add extra copies of all elements
     for k in range(nz - 1):
         mesh_add = copy.deepcopy(mesh)
+        if not internal_bcs:
+            delete_internal_bcs(mesh_add)
         # fix the indexing of periodic and internal conditions
         mesh_add.offset_connectivity((k + 1) * nel2d)
         mesh3d.elem = mesh3d.elem + mesh_add.elem
-- 
2.43.0


From b2268c5aa433264bb4bba37401de006433de5ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 19/35] fix: record the number of curved sides made by
 gen_circle and map2D

---
 src/pymech/meshtools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 93c33e8..ee53c1f 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1800,6 +1800,9 @@ def gen_circle(
     rotate_2d(box_o, 0, 0, 0.5 * pi)
     box_square.merge(box_o, ignore_all_bcs=not internal_bcs)
 
+    # update curve metadata
+    box_square.update_ncurv()
+
     return box_square
 
 
@@ -1861,4 +1864,6 @@ def map2D(
                 xm, ym, _ = edge_mid(el, iedge)
                 mapped_xm, mapped_ym = transformation(xm, ym)
                 mapped_el.curv[iedge, 0:2] = mapped_xm, mapped_ym
+    # update curve metadata
+    mapped_mesh.update_ncurv()
     return mapped_mesh
-- 
2.43.0


From b45d32a575bc4266a52f27203b0997d508e9ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 20/35] fix: allow map2D without curvature on meshes without
 boundary conditions

---
 src/pymech/meshtools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index ee53c1f..f85dbf8 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1858,7 +1858,11 @@ def map2D(
             if (
                 curvature
                 or el.ccurv[iedge] != ""
-                or (boundary_curvature and el.bcs[0][iedge][0] not in ["", "E"])
+                or (
+                    boundary_curvature
+                    and mesh.nbc > 0
+                    and el.bcs[0][iedge][0] not in ["", "E"]
+                )
             ):
                 mapped_el.ccurv[iedge] = "m"
                 xm, ym, _ = edge_mid(el, iedge)
-- 
2.43.0


From 9baeb1dd57f267bef930f6b2c9bab9aa992874eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 21/35] fix: rotate meshes around the requested centre,
 including sphere centres

rotate_2d ignored (x0, y0) and left the centres of 's' curvature behind.
---
 src/pymech/meshtools.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index f85dbf8..9280050 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1345,17 +1345,17 @@ def rotate_2d(mesh, x0, y0, theta):
     cost = cos(theta)
     sint = sin(theta)
     for el in mesh.elem:
-        x = el.pos[0, ...].copy()
-        y = el.pos[1, ...].copy()
-        el.pos[0, ...] = cost * x - sint * y
-        el.pos[1, ...] = sint * x + cost * y
-        # rotate 'm' curvature
+        x = el.pos[0, ...] - x0
+        y = el.pos[1, ...] - y0
+        el.pos[0, ...] = x0 + cost * x - sint * y
+        el.pos[1, ...] = y0 + sint * x + cost * y
+        # rotate 'm' curvature (midpoints) and 's' curvature (centres of spheres)
         for edge in range(12):
-            if el.ccurv[edge] == "m":
-                x = el.curv[edge, 0]
-                y = el.curv[edge, 1]
-                el.curv[edge, 0] = cost * x - sint * y
-                el.curv[edge, 1] = sint * x + cost * y
+            if el.ccurv[edge] in ("m", "s"):
+                x = el.curv[edge, 0] - x0
+                y = el.curv[edge, 1] - y0
+                el.curv[edge, 0] = x0 + cost * x - sint * y
+                el.curv[edge, 1] = y0 + sint * x + cost * y
 
 
 # =================================================================================
-- 
2.43.0


From e706020841b61a9ab88f51b4f7ded157c81f5c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 22/35] fix: honour the documented defaults of fun and funpar
 in extrude_refine

Both raised a TypeError; the simple extrusion also ignored internal_bcs.
---
 src/pymech/meshtools.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 9280050..6d58495 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -229,9 +229,17 @@ def extrude_refine(
                 "Inconsistent boundary conditions: one end is 'P' but the other isn't"
             )
 
+    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
+    if fun is None or len(fun) == 0:
+        logger.info("Splitting function not defined. Calling simple extrusion routine.")
+        mesh3D = extrude(mesh2D, z, bc1, bc2, internal_bcs=internal_bcs)
+        return mesh3D
+
     # Consistency checks: Functions that define the splitting lines
     nsplit = len(fun)
-    if funpar is not None and len(funpar) != nsplit:
+    if funpar is None:
+        funpar = [0.0] * nsplit
+    if len(funpar) != nsplit:
         raise ValueError(
             f"The length of funpar ({len(funpar)}) must match the length of par ({nsplit})!"
         )
@@ -247,12 +255,6 @@ def extrude_refine(
             f"Inconsistent elements to extrude: the number of elements ({nz}) must be a multiple of {max([2**abs(imesh_high + 1), 2**abs(nsplit - imesh_high + 1)])}"
         )
 
-    # If fun is not defined, there is no splitting to be done. Call simple extrusion and end routine
-    if fun is None:
-        logger.info("Splitting function not defined. Calling simple extrusion routine.")
-        mesh3D = extrude(mesh2D, z, bc1, bc2)
-        return mesh3D
-
     mesh2D_ext = copy.deepcopy(mesh2D)
     # get rid of internal boundary conditions if they are not requested
     if not internal_bcs:
-- 
2.43.0


From f649fbd6422557ef50964e84202f36d0d14ee113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 23/35] fix: set the own element and face numbers of all
 conditions

They were left at zero by gen_circle and merge, and at the number of the
2D element by extrude_mid.
---
 src/pymech/core.py      |  4 ++++
 src/pymech/meshtools.py | 15 +++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index a721a7e..3b83290 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -467,6 +467,10 @@ class HexaData:
                             for ibc in range(nbc):
                                 elem0.bcs[ibc, iface0][0] = "E"
                                 elem1.bcs[ibc, iface1][0] = "E"
+                                elem0.bcs[ibc, iface0][1] = iel0 + 1
+                                elem1.bcs[ibc, iface1][1] = iel1 + 1
+                                elem0.bcs[ibc, iface0][2] = iface0 + 1
+                                elem1.bcs[ibc, iface1][2] = iface1 + 1
                                 elem0.bcs[ibc, iface0][3] = iel1 + 1
                                 elem1.bcs[ibc, iface1][3] = iel0 + 1
                                 elem0.bcs[ibc, iface0][4] = iface1 + 1
diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 6d58495..594cb40 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -467,6 +467,9 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
             for iell in range(6):
                 mesh3d.elem[iel + iell] = copy.deepcopy(mesh.elem[i])
                 mesh3d.elem[iel + iell].pos = np.zeros((3, 2, 2, 2))
+                for ibc, iface in product(range(nbc), range(4)):
+                    mesh3d.elem[iel + iell].bcs[ibc, iface][1] = iel + iell + 1
+                    mesh3d.elem[iel + iell].bcs[ibc, iface][2] = iface + 1
 
             xvec = np.zeros((2, 2))
             yvec = np.zeros((2, 2))
@@ -1638,14 +1641,26 @@ def gen_circle(
         for ibc in range(nbc):
             for i in range(ni):
                 # bottom face
+                iel = elnum(i, 0, ni, nj)
                 mesh.elem[elnum(i, 0, ni, nj)].bcs[ibc, 0][0] = bc0[ibc]
+                mesh.elem[iel].bcs[ibc, 0][1] = iel + 1
+                mesh.elem[iel].bcs[ibc, 0][2] = 1
                 # top face
+                iel = elnum(i, nj - 1, ni, nj)
                 mesh.elem[elnum(i, nj - 1, ni, nj)].bcs[ibc, 2][0] = bc2[ibc]
+                mesh.elem[iel].bcs[ibc, 2][1] = iel + 1
+                mesh.elem[iel].bcs[ibc, 2][2] = 3
             for j in range(nj):
                 # right face
+                iel = elnum(ni - 1, j, ni, nj)
                 mesh.elem[elnum(ni - 1, j, ni, nj)].bcs[ibc, 1][0] = bc1[ibc]
+                mesh.elem[iel].bcs[ibc, 1][1] = iel + 1
+                mesh.elem[iel].bcs[ibc, 1][2] = 2
                 # left face
+                iel = elnum(0, j, ni, nj)
                 mesh.elem[elnum(0, j, ni, nj)].bcs[ibc, 3][0] = bc3[ibc]
+                mesh.elem[iel].bcs[ibc, 3][1] = iel + 1
+                mesh.elem[iel].bcs[ibc, 3][2] = 4
 
     # mesh connectivity for a structured grid, ignoring boundaries
     def build_connectivity(mesh, ni, nj):
-- 
2.43.0


From e317821f78c0a1e13542b1f298fdc721230aa355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 24/35] fix: report links to nonexistent faces in
 check_connectivity

They made it crash with an IndexError or UnboundLocalError instead.
---
 src/pymech/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 3b83290..b9dd476 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -295,7 +295,14 @@ class HexaData:
                 connected_iel = int(el.bcs[ibc, iface][3]) - 1
                 connected_face = int(el.bcs[ibc, iface][4]) - 1
                 xc, yc, zc = el.face_center(iface)
-                if connected_iel < 0 or connected_iel >= self.nel:
+                if not (0 <= connected_face < 2 * dim):
+                    err = True
+                    logger.error(
+                        f"face {iface} of element {iel} is connected ('{cbc}') to the "
+                        f"nonexistent face {connected_face} of element {connected_iel}"
+                    )
+                    logger.error(f"face center: ({xc:.6e} {yc:.6e} {zc:.6e})")
+                elif connected_iel < 0 or connected_iel >= self.nel:
                     err = True
                     logger.error(
                         f"face {iface} of element {iel} is connected ('{cbc}') to face "
-- 
2.43.0


From 0490d8c95a2f7c9136d215a84777b313c1f2435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 25/35] fix: compute the limits of meshes with a single element

This raised a TypeError, also from repr().
---
 src/pymech/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index b9dd476..63db00a 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -44,7 +44,9 @@ class DataLims:
     def __init__(self, elements):
         self._variables = ("pos", "vel", "pres", "temp", "scal")
 
-        aggregated_lims = reduce(self._lims_aggregator, elements)
+        aggregated_lims = reduce(
+            self._lims_aggregator, map(self._lims_per_element, elements)
+        )
         for var in self._variables:
             agg_lims_var = aggregated_lims[var]
             # set minimum, maximum of variables as a nested tuple
-- 
2.43.0


From b2d7e3e8a119b3f01efe09ec5ec9de3e955359c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:47 +0000
Subject: [PATCH 26/35] fix: leave no dummy conditions in gen_circle without
 internal connectivity

---
 src/pymech/meshtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 594cb40..4dce5e1 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -1716,8 +1716,8 @@ def gen_circle(
     # connectivity
     if internal_bcs:
         build_connectivity(box_square, ns, ns)
-    # boundary conditions: dummy BCs to signal that the faces should be glued
-    connectivity_bc = ["con"] * nbc
+    # boundary conditions: dummy BCs to signal that the faces should be glued, if they should be
+    connectivity_bc = ["con" if internal_bcs else ""] * nbc
     apply_bcs(
         box_square,
         ns,
-- 
2.43.0


From f734758c0ae6eaf2bcc19ce62aee11377eb94258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 27/35] fix: leave no conditions on mid faces in extrude_mid
 without internal connectivity

---
 src/pymech/meshtools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 4dce5e1..1f47177 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -822,6 +822,11 @@ def extrude_mid(mesh, z, bc1, bc2, fun, funpar=0.0, internal_bcs=True):
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][0] = "E"
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][3] = iel + 1 + 4
                     mesh3d.elem[iel + 5].bcs[ibc, iedgehi][4] = iedgelo + 1
+                else:
+                    # the mid faces are internal: drop the conditions copied from the 2D element
+                    for iell in range(6):
+                        iface = iedgelo if iell in (1, 4) else iedgehi
+                        mesh3d.elem[iel + iell].bcs[ibc, iface] = ("",) + (0,) * 7
 
                 # update the conditions for side faces.
                 for iface in iedgelat:
-- 
2.43.0


From 659cc7b6c24a7edba6a0c35fa8f06fd12a7a4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:01 +0000
Subject: [PATCH 28/35] fix: refuse elements that do not follow the axes in
 datasets

---
 src/pymech/dataset.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pymech/dataset.py b/src/pymech/dataset.py
index 70cc958..e1e027d 100644
--- a/src/pymech/dataset.py
+++ b/src/pymech/dataset.py
@@ -169,6 +169,15 @@ class _NekDataStore(xr.backends.common.AbstractDataStore):
             "uy": xr.Variable(ax, elem.vel[1]),
             "uz": xr.Variable(ax, elem.vel[2]),
         }
+        # the points of the element have to follow the axes in the order of the
+        # coordinates: otherwise the values would end up at other coordinates
+        mesh = np.meshgrid(*(data_vars[dim] for dim in ax), indexing="ij")
+        for expected, pos in zip(mesh, elem.pos[::-1]):
+            if expected.shape != pos.shape or not np.allclose(
+                expected, pos, rtol=0, atol=2e-8
+            ):
+                raise ValueError("the element is not aligned with the axes")
+
         if elem.pres.size:
             data_vars["pressure"] = xr.Variable(ax, elem.pres[0])
 
-- 
2.43.0


From c7dd7e866bef963c53feecbebb5843edb807bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 29/35] fix: shortest edge of elements with more than two
 points per direction

---
 src/pymech/core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymech/core.py b/src/pymech/core.py
index 63db00a..bf8bb6f 100644
--- a/src/pymech/core.py
+++ b/src/pymech/core.py
@@ -151,9 +151,9 @@ class Elem:
 
         # get coordinates of points
         x1, y1, z1 = self.pos[:, 0, 0, 0]
-        x2, y2, z2 = self.pos[:, 0, 0, 1]
-        x3, y3, z3 = self.pos[:, 0, 1, 1]
-        x4, y4, z4 = self.pos[:, 0, 1, 0]
+        x2, y2, z2 = self.pos[:, 0, 0, -1]
+        x3, y3, z3 = self.pos[:, 0, -1, -1]
+        x4, y4, z4 = self.pos[:, 0, -1, 0]
         # compute squares of edges lengths
         edges_l2 = np.zeros((12,))
         edges_l2[0] = (x2 - x1) ** 2 + (y2 - y1) ** 2 + (z2 - z1) ** 2
@@ -167,10 +167,10 @@ class Elem:
             ndim = 2
         if ndim > 2:
             # in 3D, do the same for the upper face, and also the side edges
-            x5, y5, z5 = self.pos[:, 1, 0, 0]
-            x6, y6, z6 = self.pos[:, 1, 0, 1]
-            x7, y7, z7 = self.pos[:, 1, 1, 1]
-            x8, y8, z8 = self.pos[:, 1, 1, 0]
+            x5, y5, z5 = self.pos[:, -1, 0, 0]
+            x6, y6, z6 = self.pos[:, -1, 0, -1]
+            x7, y7, z7 = self.pos[:, -1, -1, -1]
+            x8, y8, z8 = self.pos[:, -1, -1, 0]
             edges_l2[4] = (x6 - x5) ** 2 + (y6 - y5) ** 2 + (z6 - z5) ** 2
             edges_l2[5] = (x7 - x6) ** 2 + (y7 - y6) ** 2 + (z7 - z6) ** 2
             edges_l2[6] = (x8 - x7) ** 2 + (y8 - y7) ** 2 + (z8 - z7) ** 2
-- 
2.43.0


From 3560846913c9bba944c76cd23e56c4a9a14b2095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 30/35] fix: map all the points of elements in map2D, not only
 those of linear elements

---
 src/pymech/meshtools.py | 46 ++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/pymech/meshtools.py b/src/pymech/meshtools.py
index 1f47177..45e3dd0 100644
--- a/src/pymech/meshtools.py
+++ b/src/pymech/meshtools.py
@@ -914,40 +914,40 @@ def edge_mid(el, iedge):
     if el.ccurv[iedge] != "m":
         if iedge == 0:
             pos1 = el.pos[:, 0, 0, 0]
-            pos2 = el.pos[:, 0, 0, 1]
+            pos2 = el.pos[:, 0, 0, -1]
         elif iedge == 1:
-            pos1 = el.pos[:, 0, 0, 1]
-            pos2 = el.pos[:, 0, 1, 1]
+            pos1 = el.pos[:, 0, 0, -1]
+            pos2 = el.pos[:, 0, -1, -1]
         elif iedge == 2:
-            pos1 = el.pos[:, 0, 1, 1]
-            pos2 = el.pos[:, 0, 1, 0]
+            pos1 = el.pos[:, 0, -1, -1]
+            pos2 = el.pos[:, 0, -1, 0]
         elif iedge == 3:
-            pos1 = el.pos[:, 0, 1, 0]
+            pos1 = el.pos[:, 0, -1, 0]
             pos2 = el.pos[:, 0, 0, 0]
         elif iedge == 4:
-            pos1 = el.pos[:, 1, 0, 0]
-            pos2 = el.pos[:, 1, 0, 1]
+            pos1 = el.pos[:, -1, 0, 0]
+            pos2 = el.pos[:, -1, 0, -1]
         elif iedge == 5:
-            pos1 = el.pos[:, 1, 0, 1]
-            pos2 = el.pos[:, 1, 1, 1]
+            pos1 = el.pos[:, -1, 0, -1]
+            pos2 = el.pos[:, -1, -1, -1]
         elif iedge == 6:
-            pos1 = el.pos[:, 1, 1, 1]
-            pos2 = el.pos[:, 1, 1, 0]
+            pos1 = el.pos[:, -1, -1, -1]
+            pos2 = el.pos[:, -1, -1, 0]
         elif iedge == 7:
-            pos1 = el.pos[:, 1, 1, 0]
-            pos2 = el.pos[:, 1, 0, 0]
+            pos1 = el.pos[:, -1, -1, 0]
+            pos2 = el.pos[:, -1, 0, 0]
         elif iedge == 8:
             pos1 = el.pos[:, 0, 0, 0]
-            pos2 = el.pos[:, 1, 0, 0]
+            pos2 = el.pos[:, -1, 0, 0]
         elif iedge == 9:
-            pos1 = el.pos[:, 0, 0, 1]
-            pos2 = el.pos[:, 1, 0, 1]
+            pos1 = el.pos[:, 0, 0, -1]
+            pos2 = el.pos[:, -1, 0, -1]
         elif iedge == 10:
-            pos1 = el.pos[:, 0, 1, 1]
-            pos2 = el.pos[:, 1, 1, 1]
+            pos1 = el.pos[:, 0, -1, -1]
+            pos2 = el.pos[:, -1, -1, -1]
         elif iedge == 11:
-            pos1 = el.pos[:, 0, 1, 0]
-            pos2 = el.pos[:, 1, 1, 0]
+            pos1 = el.pos[:, 0, -1, 0]
+            pos2 = el.pos[:, -1, -1, 0]
 
         if el.ccurv[iedge] == "":
             midpoint = (pos1 + pos2) / 2.0
@@ -1861,9 +1861,9 @@ def map2D(
 
     mapped_mesh = copy.deepcopy(mesh)
     for el, mapped_el in zip(mesh.elem, mapped_mesh.elem):
-        # map the vertices of the elements. This is the easy part.
+        # map the points of the elements. This is the easy part.
         # we might want to use vectorisation here but the input function might not support it
-        for ix, iy in product(range(2), range(2)):
+        for ix, iy in np.ndindex(el.pos.shape[2:]):
             x = el.pos[0, 0, ix, iy]
             y = el.pos[1, 0, ix, iy]
             mapped_x, mapped_y = transformation(x, y)
-- 
2.43.0


From 35aa0155fe3f91f277eed5210d1398edd38f30a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 31/35] fix: write fields with zeros in their element map in
 storage order

---
 src/pymech/neksuite/field.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 5d804e0..e6d5471 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -458,6 +458,13 @@ def writenek(fname, data):
     # WRITE DATA
     # ---------------------------------------------------------------------------
     #
+    # a map with zeros does not tell the order of the elements: write them as they are stored,
+    # which is how `readnek` reads such files
+    if 0 in data.elmap:
+        element_numbers = range(1, data.nel + 1)
+    else:
+        element_numbers = data.elmap
+    #
     # compute total number of points per element
     #  npel = data.lr1[0] * data.lr1[1] * data.lr1[2]
 
@@ -470,22 +477,22 @@ def writenek(fname, data):
 
     #
     # write geometry
-    for iel in data.elmap:
+    for iel in element_numbers:
         for idim in range(data.var[0]):  # if var[0] == 0, geometry is not written
             write_ndarray_to_file(data.elem[iel - 1].pos[idim, :, :, :])
     #
     # write velocity
-    for iel in data.elmap:
+    for iel in element_numbers:
         for idim in range(data.var[1]):  # if var[1] == 0, velocity is not written
             write_ndarray_to_file(data.elem[iel - 1].vel[idim, :, :, :])
     #
     # write pressure
-    for iel in data.elmap:
+    for iel in element_numbers:
         for ivar in range(data.var[2]):  # if var[2] == 0, pressure is not written
             write_ndarray_to_file(data.elem[iel - 1].pres[ivar, :, :, :])
     #
     # write temperature
-    for iel in data.elmap:
+    for iel in element_numbers:
         for ivar in range(data.var[3]):  # if var[3] == 0, temperature is not written
             write_ndarray_to_file(data.elem[iel - 1].temp[ivar, :, :, :])
     #
@@ -496,13 +503,13 @@ def writenek(fname, data):
     # are in the inner loop
     #
     for ivar in range(data.var[4]):  # if var[4] == 0, scalars are not written
-        for iel in data.elmap:
+        for iel in element_numbers:
             write_ndarray_to_file(data.elem[iel - 1].scal[ivar, :, :, :])
     #
     # write max and min of every field in every element (forced to single precision)
     if data.ndim == 3:
         #
-        for iel in data.elmap:
+        for iel in element_numbers:
             for idim in range(data.var[0]):
                 write_array(
                     np.min(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
@@ -510,7 +517,7 @@ def writenek(fname, data):
                 write_array(
                     np.max(data.elem[iel - 1].pos[idim, :, :, :]).astype(np.float32)
                 )
-        for iel in data.elmap:
+        for iel in element_numbers:
             for idim in range(data.var[1]):
                 write_array(
                     np.min(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
@@ -518,7 +525,7 @@ def writenek(fname, data):
                 write_array(
                     np.max(data.elem[iel - 1].vel[idim, :, :, :]).astype(np.float32)
                 )
-        for iel in data.elmap:
+        for iel in element_numbers:
             for ivar in range(data.var[2]):
                 write_array(
                     np.min(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
@@ -526,7 +533,7 @@ def writenek(fname, data):
                 write_array(
                     np.max(data.elem[iel - 1].pres[ivar, :, :, :]).astype(np.float32)
                 )
-        for iel in data.elmap:
+        for iel in element_numbers:
             for ivar in range(data.var[3]):
                 write_array(
                     np.min(data.elem[iel - 1].temp[ivar, :, :, :]).astype(np.float32)
@@ -536,7 +543,7 @@ def writenek(fname, data):
                 )
         # as above, scalars are in the outer loop and elements are in the inner loop
         for ivar in range(data.var[4]):
-            for iel in data.elmap:
+            for iel in element_numbers:
                 write_array(
                     np.min(data.elem[iel - 1].scal[ivar, :, :, :]).astype(np.float32)
                 )
-- 
2.43.0


From 0492711bda2d6e981a29f3c7efd2dbcf4489cc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:06 +0000
Subject: [PATCH 32/35] fix: separate coordinates with three-digit exponents in
 rea files

---
 src/pymech/neksuite/mesh.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index 1d72f8a..f153b5c 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -378,7 +378,7 @@ def writerea(fname, data):
         outfile.write("           ELEMENT {:10d} [  1a]    GROUP 1\n".format(iel + 1))
         if data.ndim == 2:
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[0, 0, 0, 0],
                     data.elem[iel].pos[0, 0, 0, -1],
                     data.elem[iel].pos[0, 0, -1, -1],
@@ -386,7 +386,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[1, 0, 0, 0],
                     data.elem[iel].pos[1, 0, 0, -1],
                     data.elem[iel].pos[1, 0, -1, -1],
@@ -395,7 +395,7 @@ def writerea(fname, data):
             )
         elif data.ndim == 3:
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[0, 0, 0, 0],
                     data.elem[iel].pos[0, 0, 0, -1],
                     data.elem[iel].pos[0, 0, -1, -1],
@@ -403,7 +403,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[1, 0, 0, 0],
                     data.elem[iel].pos[1, 0, 0, -1],
                     data.elem[iel].pos[1, 0, -1, -1],
@@ -411,7 +411,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[2, 0, 0, 0],
                     data.elem[iel].pos[2, 0, 0, -1],
                     data.elem[iel].pos[2, 0, -1, -1],
@@ -420,7 +420,7 @@ def writerea(fname, data):
             )
             #
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[0, -1, 0, 0],
                     data.elem[iel].pos[0, -1, 0, -1],
                     data.elem[iel].pos[0, -1, -1, -1],
@@ -428,7 +428,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[1, -1, 0, 0],
                     data.elem[iel].pos[1, -1, 0, -1],
                     data.elem[iel].pos[1, -1, -1, -1],
@@ -436,7 +436,7 @@ def writerea(fname, data):
                 )
             )
             outfile.write(
-                "{:14.6e}{:14.6e}{:14.6e}{:14.6e}\n".format(
+                " {:13.6e} {:13.6e} {:13.6e} {:13.6e}\n".format(
                     data.elem[iel].pos[2, -1, 0, 0],
                     data.elem[iel].pos[2, -1, 0, -1],
                     data.elem[iel].pos[2, -1, -1, -1],
-- 
2.43.0


From 81694963de2ebc57e6bb079c48fa221e91b8c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:07 +0000
Subject: [PATCH 33/35] fix: skip only the elements that a field file holds

A file of a field stored in several files holds some of its elements only:
skipping variables jumped over as many as the whole field has.
---
 src/pymech/neksuite/field.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index e6d5471..9fe3c98 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -258,7 +258,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(geometry_vars[idim] in skip_vars for idim in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 logger.warning(
@@ -291,7 +291,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
 
     if nb_vars:
         if all(skip_condition1) or all(skip_condition2):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -312,7 +312,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"p", "pressure"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -330,7 +330,7 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = any({"t", "temperature"}.intersection(skip_vars))
     if nb_vars:
         if skip_condition:
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             if 0 in elmap:
                 element_idxs = range(h.nb_elems_file)
@@ -350,14 +350,14 @@ def readnek(fname, dtype="float64", skip_vars=()):
     skip_condition = tuple(scalar_vars[ivar] in skip_vars for ivar in range(nb_vars))
     if nb_vars:
         if all(skip_condition):
-            skip_elements(h.nb_elems * nb_vars)
+            skip_elements(h.nb_elems_file * nb_vars)
         else:
             # NOTE: This is not a bug!
             # Unlike other variables, scalars are in the outer loop and elements
             # are in the inner loop
             for ivar in range(nb_vars):
                 if skip_condition[ivar]:
-                    skip_elements(h.nb_elems)
+                    skip_elements(h.nb_elems_file)
                 else:
                     if 0 in elmap:
                         element_idxs = range(h.nb_elems_file)
-- 
2.43.0


From 782e3b96df55c9fe0324173e703818e69a49b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:20 +0000
Subject: [PATCH 34/35] fix: write the actual number of elements of a partial
 field

The header declared all the elements of the field, so that what was read from
one file of several and written again could not be read.
---
 src/pymech/neksuite/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymech/neksuite/field.py b/src/pymech/neksuite/field.py
index 9fe3c98..3675d0b 100644
--- a/src/pymech/neksuite/field.py
+++ b/src/pymech/neksuite/field.py
@@ -397,7 +397,7 @@ def writenek(fname, data):
         data.wdsz,
         data.lr1,
         data.nel,
-        data.nel,
+        len(data.elmap),
         data.time,
         data.istep,
         fid=0,
@@ -461,7 +461,7 @@ def writenek(fname, data):
     # a map with zeros does not tell the order of the elements: write them as they are stored,
     # which is how `readnek` reads such files
     if 0 in data.elmap:
-        element_numbers = range(1, data.nel + 1)
+        element_numbers = range(1, len(data.elmap) + 1)
     else:
         element_numbers = data.elmap
     #
-- 
2.43.0


From 71e08b5d31f9f0fa9c422b47a11845566adf59d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:15 +0000
Subject: [PATCH 35/35] fix: read .rea files of problems without a fluid

They have conditions from the second field on, below the line that says that
there are none for the fluid.
---
 src/pymech/neksuite/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymech/neksuite/mesh.py b/src/pymech/neksuite/mesh.py
index f153b5c..3ba00f2 100644
--- a/src/pymech/neksuite/mesh.py
+++ b/src/pymech/neksuite/mesh.py
@@ -142,7 +142,9 @@ def readrea(fname):
     #
     infile.readline()  # ***** BOUNDARY CONDITIONS *****
     for ibc in range(nbc):
-        infile.readline()  # ***** FLUID   BOUNDARY CONDITIONS ***** [or similar]
+        line = infile.readline()  # ***** FLUID   BOUNDARY CONDITIONS ***** [or similar]
+        while "NO" in line.split():  # ***** NO FLUID BOUNDARY CONDITIONS *****
+            line = infile.readline()
         for iel in range(nel):
             for iface in range(nface):
                 line = infile.readline()
-- 
2.43.0

