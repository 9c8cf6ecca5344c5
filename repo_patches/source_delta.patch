From 00b4deed343ba5a865e9a716edda53b428538e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 01/66] fix: keep the WKB reader inside its input

The number of remaining bytes was not reduced after reading a coordinate
sequence and the size of a sequence was calculated using 32-bit arithmetic,
so truncated multi-part input and very large counts were read out of bounds.
---
 src/geoarrow/wkb_reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/wkb_reader.c b/src/geoarrow/wkb_reader.c
index 3fb003a..52d62cf 100644
--- a/src/geoarrow/wkb_reader.c
+++ b/src/geoarrow/wkb_reader.c
@@ -52,7 +52,8 @@ static inline int WKBReaderReadUInt32(struct WKBReaderPrivate* s, uint32_t* out,
 static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
     struct WKBReaderPrivate* s, uint32_t n_coords, uint32_t coord_size_elements,
     struct GeoArrowGeometryNode* node, struct GeoArrowError* error) {
-  int64_t bytes_needed = n_coords * coord_size_elements * sizeof(double);
+  int64_t bytes_needed =
+      (int64_t)n_coords * coord_size_elements * (int64_t)sizeof(double);
   if (s->size_bytes < bytes_needed) {
     GeoArrowErrorSet(
         error,
@@ -71,6 +72,7 @@ static inline GeoArrowErrorCode WKBReaderReadNodeCoordinates(
   }
 
   s->data += bytes_needed;
+  s->size_bytes -= bytes_needed;
   return GEOARROW_OK;
 }
 
-- 
2.43.0


From b67649e521d2155f81d57c50fadba59a1a88be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 02/66] fix: read every spelling of MULTIPOINT in WKT

The flat form was rejected when whitespace followed the opening parenthesis,
and neither form could be read when EMPTY was mixed with flat coordinates,
which is what the WKT writer produces by default.
---
 src/geoarrow/wkt_reader.c | 65 +++++++++++++--------------------------
 1 file changed, 21 insertions(+), 44 deletions(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 18b2918..5e5862c 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -197,36 +197,6 @@ static inline int ReadEmptyOrCoordinates(struct WKTReaderPrivate* s,
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
-static inline int ReadMultipointFlat(struct WKTReaderPrivate* s,
-                                     struct GeoArrowVisitor* v,
-                                     enum GeoArrowDimensions dimensions) {
-  NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, '(', v->error));
-
-  // Read the first coordinate (there must always be one)
-  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-  ResetCoordCache(s);
-  NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-  NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-  NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-  GeoArrowWKTSkipWhitespace(s);
-
-  // Read the rest of the coordinates
-  while (PeekChar(s) != ')') {
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
-    GeoArrowWKTSkipWhitespace(s);
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    ResetCoordCache(s);
-    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
-    GeoArrowWKTSkipWhitespace(s);
-  }
-
-  GeoArrowWKTAdvanceUnsafe(s, 1);
-  return GEOARROW_OK;
-}
-
 static inline int ReadEmptyOrPointCoordinate(struct WKTReaderPrivate* s,
                                              struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
@@ -275,6 +245,25 @@ static inline int ReadPolygon(struct WKTReaderPrivate* s, struct GeoArrowVisitor
   return GeoArrowWKTAssertWordEmpty(s, v->error);
 }
 
+// Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse, and either
+// form may contain EMPTY.
+static inline int ReadMultipointPoint(struct WKTReaderPrivate* s,
+                                      struct GeoArrowVisitor* v,
+                                      enum GeoArrowDimensions dimensions) {
+  NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
+
+  char next = PeekChar(s);
+  if (next == '(' || next == 'E') {
+    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
+  } else {
+    ResetCoordCache(s);
+    NANOARROW_RETURN_NOT_OK(ReadCoordinate(s, v));
+    NANOARROW_RETURN_NOT_OK(FlushCoordCache(s, v));
+  }
+
+  return v->geom_end(v);
+}
+
 static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisitor* v,
                                  enum GeoArrowDimensions dimensions) {
   GeoArrowWKTSkipWhitespace(s);
@@ -282,18 +271,8 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
-    // Both MULTIPOINT (1 2, 2 3) and MULTIPOINT ((1 2), (2 3)) have to parse here
-    // if it doesn't look like the verbose version, try the flat version
-    if (PeekChar(s) != '(' && PeekChar(s) != 'E') {
-      s->data--;
-      s->size_bytes++;
-      return ReadMultipointFlat(s, v, dimensions);
-    }
-
     // Read the first geometry (there must always be one)
-    NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-    NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
-    NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+    NANOARROW_RETURN_NOT_OK(ReadMultipointPoint(s, v, dimensions));
     GeoArrowWKTSkipWhitespace(s);
 
     // Read the rest of the geometries
@@ -301,9 +280,7 @@ static inline int ReadMultipoint(struct WKTReaderPrivate* s, struct GeoArrowVisi
       GeoArrowWKTSkipWhitespace(s);
       NANOARROW_RETURN_NOT_OK(GeoArrowWKTAssertChar(s, ',', v->error));
       GeoArrowWKTSkipWhitespace(s);
-      NANOARROW_RETURN_NOT_OK(v->geom_start(v, GEOARROW_GEOMETRY_TYPE_POINT, dimensions));
-      NANOARROW_RETURN_NOT_OK(ReadEmptyOrPointCoordinate(s, v));
-      NANOARROW_RETURN_NOT_OK(v->geom_end(v));
+      NANOARROW_RETURN_NOT_OK(ReadMultipointPoint(s, v, dimensions));
       GeoArrowWKTSkipWhitespace(s);
     }
 
-- 
2.43.0


From f36a5bd6728a03e23f7f0de32685493b3efb9cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 03/66] fix: reject WKT followed by a zero byte and further
 text

---
 src/geoarrow/wkt_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 5e5862c..3d9c377 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -502,7 +502,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
   NANOARROW_RETURN_NOT_OK(v->feat_end(v));
   GeoArrowWKTSkipWhitespace(s);
-  if (PeekChar(s) != '\0') {
+  if (s->size_bytes > 0) {
     SetParseErrorAuto("end of input", s, v->error);
     return EINVAL;
   }
-- 
2.43.0


From a0b0a8f9c022add018a9dba9f7d506d8d96ae40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 04/66] fix: limit the nesting of collections in the WKT reader

Deeply nested text overflowed the stack.
---
 src/geoarrow/wkt_reader.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/geoarrow/wkt_reader.c b/src/geoarrow/wkt_reader.c
index 3d9c377..9c0d1d6 100644
--- a/src/geoarrow/wkt_reader.c
+++ b/src/geoarrow/wkt_reader.c
@@ -8,10 +8,14 @@
 
 #define COORD_CACHE_SIZE_COORDS 64
 
+// Collections are read recursively, so their nesting has to be limited
+#define MAX_NESTING_LEVEL 255
+
 struct WKTReaderPrivate {
   const char* data;
   int64_t size_bytes;
   const char* data0;
+  int32_t level;
   double coords[4 * COORD_CACHE_SIZE_COORDS];
   struct GeoArrowCoordView coord_view;
 };
@@ -364,6 +368,12 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
                                          struct GeoArrowVisitor* v) {
   GeoArrowWKTSkipWhitespace(s);
   if (PeekChar(s) == '(') {
+    if (s->level >= MAX_NESTING_LEVEL) {
+      GeoArrowErrorSet(v->error, "Maximum recursion for GEOMETRYCOLLECTION reached");
+      return EINVAL;
+    }
+
+    s->level++;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     GeoArrowWKTSkipWhitespace(s);
 
@@ -380,6 +390,7 @@ static inline int ReadGeometryCollection(struct WKTReaderPrivate* s,
       GeoArrowWKTSkipWhitespace(s);
     }
 
+    s->level--;
     GeoArrowWKTAdvanceUnsafe(s, 1);
     return GEOARROW_OK;
   }
@@ -475,6 +486,7 @@ GeoArrowErrorCode GeoArrowWKTReaderInit(struct GeoArrowWKTReader* reader) {
   s->data0 = NULL;
   s->data = NULL;
   s->size_bytes = 0;
+  s->level = 0;
 
   s->coord_view.coords_stride = 1;
   s->coord_view.values[0] = s->coords;
@@ -497,6 +509,7 @@ GeoArrowErrorCode GeoArrowWKTReaderVisit(struct GeoArrowWKTReader* reader,
   s->data0 = src.data;
   s->data = src.data;
   s->size_bytes = src.size_bytes;
+  s->level = 0;
 
   NANOARROW_RETURN_NOT_OK(v->feat_start(v));
   NANOARROW_RETURN_NOT_OK(ReadTaggedGeometry(s, v));
-- 
2.43.0


From 7c5b06144fece18f98423df4a9c5a2a1b24ce1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 05/66] fix: GeoArrowFromChars() has to use all of its input
 with fast_float

"1abc" was parsed as 1.
---
 src/geoarrow/double_parse_fast_float.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_fast_float.cc b/src/geoarrow/double_parse_fast_float.cc
index db57722..210da9d 100644
--- a/src/geoarrow/double_parse_fast_float.cc
+++ b/src/geoarrow/double_parse_fast_float.cc
@@ -13,7 +13,8 @@ extern "C" GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* la
   auto answer = fast_float::from_chars(first, last, *out);
 #endif
 
-  if (answer.ec != std::errc()) {
+  // All of the input has to be a number, as is the case for the strtod() implementation
+  if (answer.ec != std::errc() || answer.ptr != last) {
     return EINVAL;
   } else {
     return GEOARROW_OK;
-- 
2.43.0


From 7509aa216e5402b81004940b87c787835075ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 06/66] fix: leading whitespace is not part of a number in
 GeoArrowFromChars()

---
 src/geoarrow/double_parse_std.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/double_parse_std.c b/src/geoarrow/double_parse_std.c
index 51b37de..a89f692 100644
--- a/src/geoarrow/double_parse_std.c
+++ b/src/geoarrow/double_parse_std.c
@@ -1,4 +1,5 @@
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdlib.h>
 #include <string.h>
@@ -8,7 +9,8 @@
 #if !defined(GEOARROW_USE_FAST_FLOAT) || !GEOARROW_USE_FAST_FLOAT
 
 GeoArrowErrorCode GeoArrowFromChars(const char* first, const char* last, double* out) {
-  if (first == last) {
+  // strtod() skips leading whitespace, which is not part of a number
+  if (first == last || isspace((unsigned char)*first)) {
     return EINVAL;
   }
 
-- 
2.43.0


From 9e0943e2785764f08be9d939c3954799abdf809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 07/66] fix: stop visiting when a geometry has too few nodes

---
 src/geoarrow/geometry.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 650b2a5..469159a 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -452,6 +452,7 @@ static GeoArrowErrorCode GeoArrowGeometryVisitNode(
     struct GeoArrowVisitor* v) {
   if ((*n_nodes)-- <= 0) {
     GeoArrowErrorSet(v->error, "Too few nodes provided to GeoArrowGeometryVisit()");
+    return EINVAL;
   }
 
   GEOARROW_RETURN_NOT_OK(v->geom_start(v, (enum GeoArrowGeometryType)node->geometry_type,
-- 
2.43.0


From a307678c0fbccbe75fe22a8971f63e9e20ae82a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 08/66] fix: record the sizes of geometries without any
 coordinates

MULTIPOINT (EMPTY) or POLYGON (EMPTY) lost their members.
---
 src/geoarrow/geometry.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 469159a..ab73119 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -352,11 +352,6 @@ static int feat_end_geometry(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->coords.size_bytes == 0) {
-    // Can happen for empty collections where there was never a sequence
-    return GEOARROW_OK;
-  }
-
   // Set sequence lengths by rolling backwards through the sequences. We recorded
   // the start position for each sequence in geom_start, so we can calculate the
   // size based on the distance between the pointers.
-- 
2.43.0


From 6523596b1b1d3e710e5446c021e2004db850313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 09/66] fix: check geometry builder events before adding a node

A node was left behind at a level beyond the maximum nesting, with invalid
dimensions, or without reserved coordinates, and ended in out of bounds
access or a division by zero later on.
---
 src/geoarrow/geometry.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index ab73119..45f1802 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -237,6 +237,24 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
   struct GeoArrowGeometry* geom = (struct GeoArrowGeometry*)v->private_data;
   struct GeoArrowGeometryPrivate* private_data =
       (struct GeoArrowGeometryPrivate*)geom->private_data;
+
+  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
+    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
+    return EINVAL;
+  }
+
+  if (dimensions < GEOARROW_DIMENSIONS_XY || dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "Invalid dimensions in GeoArrowGeometry visitor: %d",
+                     (int)dimensions);
+    return EINVAL;
+  }
+
+  // Reserve space for at least one coordinate before there is a node
+  // that refers to it
+  double* coords_start;
+  int n_values = _GeoArrowkNumDimensions[dimensions];
+  GEOARROW_RETURN_NOT_OK(GeoArrowGeometryReserveCoords(geom, n_values, &coords_start));
+
   struct GeoArrowGeometryNode* node;
   GEOARROW_RETURN_NOT_OK(GeoArrowGeometryAppendNodeInline(geom, &node));
   node->geometry_type = (uint8_t)geometry_type;
@@ -245,15 +263,11 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
   switch (geometry_type) {
     case GEOARROW_GEOMETRY_TYPE_POINT:
     case GEOARROW_GEOMETRY_TYPE_LINESTRING: {
-      // Reserve coords and set pointers here, even when we're not sure if
+      // Set pointers here, even when we're not sure if
       // there will be any coordinates. This lets us calculate sequences sizes
       // after the fact because we can always use the pointer differences between
       // the start of the x value in one sequence and the start of the x value
       // in the next sequence to calculate sequence size.
-      int n_values = _GeoArrowkNumDimensions[dimensions];
-      double* coords_start;
-      GEOARROW_RETURN_NOT_OK(
-          GeoArrowGeometryReserveCoords(geom, n_values, &coords_start));
       for (int i = 0; i < n_values; i++) {
         node->coords[i] = (uint8_t*)(coords_start + i);
         node->coord_stride[i] = n_values * sizeof(double);
@@ -264,11 +278,6 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
       break;
   }
 
-  if (private_data->current_level == GEOARROW_GEOMETRY_VISITOR_MAX_NESTING) {
-    GeoArrowErrorSet(v->error, "Maximum recursion for GeoArrowGeometry visitor reached");
-    return EINVAL;
-  }
-
   private_data->current_level++;
   return GEOARROW_OK;
 }
-- 
2.43.0


From d840f7b6cf6f6a17f56e7dbec0418a801d981074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 10/66] fix: reject sequences with invalid dimensions when
 visiting a geometry

---
 src/geoarrow/geometry.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 45f1802..0d3fcb0 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -415,6 +415,12 @@ void GeoArrowGeometryInitVisitor(struct GeoArrowGeometry* geom,
 
 static GeoArrowErrorCode GeoArrowGeometryVisitSequence(
     const struct GeoArrowGeometryNode* node, struct GeoArrowVisitor* v) {
+  if (node->dimensions < GEOARROW_DIMENSIONS_XY ||
+      node->dimensions > GEOARROW_DIMENSIONS_XYZM) {
+    GeoArrowErrorSet(v->error, "Invalid dimensions: %d", (int)node->dimensions);
+    return EINVAL;
+  }
+
   double coords[COORD_CACHE_SIZE_ELEMENTS];
   struct GeoArrowCoordView coord_view;
   coord_view.n_values = _GeoArrowkNumDimensions[node->dimensions];
-- 
2.43.0


From f8e4691545cf8756c78a64c70fcad514842ae220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 11/66] fix: make deep copies of geometries independent of
 their source

Coordinates in the other byte order were swapped while copying but still marked
as swapped, and dimensions that do not exist kept pointing into the source.
---
 src/geoarrow/geometry.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 0d3fcb0..130f372 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -140,6 +140,14 @@ GeoArrowErrorCode GeoArrowGeometryDeepCopy(struct GeoArrowGeometryView src,
           node->coord_stride[i] = n_values * sizeof(double);
         }
 
+        for (int i = node->size > 0 ? n_values : 0; i < 4; i++) {
+          node->coords[i] = _GeoArrowkEmptyPointCoords;
+          node->coord_stride[i] = 0;
+        }
+
+        // The coordinates were written in native endian
+        node->flags &= (uint8_t)(~GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN);
+
         coords_buf += bytes_written;
         coords_buf_size -= bytes_written;
         break;
-- 
2.43.0


From 188dbdbdfc42e47d00aa37e3a7bb105c4d04cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 12/66] fix: compute the size of a sequence using 64 bits

---
 src/geoarrow/geoarrow_type_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index da11f69..c4b354d 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -466,7 +466,7 @@ static inline int64_t GeoArrowGeometryNodeWriteSequence(
     const struct GeoArrowGeometryNode* node, uint8_t* dst, int64_t dst_size) {
   uint32_t n_values = _GeoArrowkNumDimensions[node->dimensions];
   uint32_t n_coords = node->size;
-  int64_t bytes_required = n_values * n_coords * sizeof(double);
+  int64_t bytes_required = (int64_t)n_values * n_coords * sizeof(double);
   if (dst_size < bytes_required) {
     return bytes_required;
   }
-- 
2.43.0


From 2e6804622bca50338773e44862a3fcad39eca316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 13/66] fix: let the empty dimensions of a node point to NaN

GeoArrowGeometryNodeSetInterleaved() and GeoArrowGeometryNodeSetSeparated()
left them pointing to other coordinates or beyond the given buffer.
---
 src/geoarrow/geoarrow_type_inline.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index c4b354d..dfa96b8 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -389,10 +389,15 @@ static inline void GeoArrowGeometryNodeSetInterleaved(
 
   int32_t coord_stride_bytes = _GeoArrowkNumDimensions[dimensions] * sizeof(double);
   node->size = (uint32_t)(coords.size_bytes / coord_stride_bytes);
-  for (int i = 0; i < 4; i++) {
+  for (int i = 0; i < _GeoArrowkNumDimensions[dimensions]; i++) {
     node->coord_stride[i] = coord_stride_bytes;
     node->coords[i] = coords.data + (i * sizeof(double));
   }
+
+  for (int i = _GeoArrowkNumDimensions[dimensions]; i < 4; i++) {
+    node->coord_stride[i] = 0;
+    node->coords[i] = _GeoArrowkEmptyPointCoords;
+  }
 }
 
 /// \brief Set a node where coordinates are stored in a column-major (Fortran) array
@@ -407,10 +412,15 @@ static inline void GeoArrowGeometryNodeSetSeparated(
 
   int64_t dimension_size_bytes = coords.size_bytes / _GeoArrowkNumDimensions[dimensions];
   node->size = (uint32_t)(dimension_size_bytes / sizeof(double));
-  for (int i = 0; i < 4; i++) {
+  for (int i = 0; i < _GeoArrowkNumDimensions[dimensions]; i++) {
     node->coord_stride[i] = sizeof(double);
     node->coords[i] = coords.data + (i * dimension_size_bytes);
   }
+
+  for (int i = _GeoArrowkNumDimensions[dimensions]; i < 4; i++) {
+    node->coord_stride[i] = 0;
+    node->coords[i] = _GeoArrowkEmptyPointCoords;
+  }
 }
 
 /// \brief Inline version of GeoArrowGeometryResizeNodes
-- 
2.43.0


From 031a3ff3697dc8337c5717764c2d28a9ef8955c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 14/66] fix: do not swap the bytes of dimensions that are
 filled with NaN

Copying big endian coordinates into more dimensions filled them with
3.1e-319.
---
 src/geoarrow/geoarrow_type_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index dfa96b8..c37cb86 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -553,7 +553,7 @@ static inline void GeoArrowGeometryViewCopyCoordsGeneric(
           src_stride_mapped = src_strides[map[i] + 1];
           out_stride = out_strides[i];
 
-          if (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN) {
+          if (map[i] >= 0 && (node->flags & GEOARROW_GEOMETRY_NODE_FLAG_SWAP_ENDIAN)) {
             uint64_t tmp;
             for (uint32_t j = 0; j < node->size; ++j) {
               memcpy(&tmp, src_mapped, sizeof(double));
-- 
2.43.0


From b9ef7e3f33c8502280ed6a45a501532962dac5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 15/66] fix: check the order of events in the WKB writer and
 drop incomplete features

---
 src/geoarrow/wkb_writer.c | 164 +++++++++++++++++++++-----------------
 1 file changed, 93 insertions(+), 71 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index 7ebb701..f248722 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -19,6 +19,8 @@ struct WKBWriterPrivate {
   int64_t length;
   int64_t null_count;
   int feat_is_null;
+  // Non-zero between the start and the end of a feature
+  int feat_is_open;
 };
 
 static uint8_t kWKBWriterEmptyPointCoords2[] = {0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
@@ -32,25 +34,71 @@ static uint8_t kWKBWriterEmptyPointCoords4[] = {
     0x00, 0x00, 0x00, 0xf8, 0x7f, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
     0xf8, 0x7f, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xf8, 0x7f};
 
-static inline int WKBWriterCheckLevel(struct WKBWriterPrivate* private) {
-  if (private->level >= 0 && private->level <= 30) {
+// Anything is only possible within a feature; the end of a geometry or ring
+// additionally needs a geometry or ring that was started.
+static inline int WKBWriterCheckLevel(struct WKBWriterPrivate* private,
+                                      int32_t min_level) {
+  if (private->feat_is_open && private->level >= min_level && private->level <= 30) {
     return GEOARROW_OK;
   } else {
     return EINVAL;
   }
 }
 
-static int feat_start_wkb(struct GeoArrowVisitor* v) {
-  struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
+// Remove what was written for a feature that was started but never ended
+static void WKBWriterDiscardFeature(struct WKBWriterPrivate* private) {
+  if (!private->feat_is_open) {
+    return;
+  }
+
+  int32_t feat_start;
+  private->offsets.size_bytes -= sizeof(int32_t);
+  memcpy(&feat_start, private->offsets.data + private->offsets.size_bytes,
+         sizeof(int32_t));
+  private->values.size_bytes = feat_start;
+  private->length--;
+  private->level = 0;
+  private->feat_is_open = 0;
+}
+
+static int WKBWriterStartFeature(struct WKBWriterPrivate* private) {
+  WKBWriterDiscardFeature(private);
+
+  if (private->values.size_bytes > 2147483647) {
+    return EOVERFLOW;
+  }
+  NANOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
+
   private->level = 0;
   private->size[private->level] = 0;
   private->length++;
   private->feat_is_null = 0;
+  private->feat_is_open = 1;
+  return GEOARROW_OK;
+}
 
-  if (private->values.size_bytes > 2147483647) {
-    return EOVERFLOW;
+static int WKBWriterEndFeature(struct WKBWriterPrivate* private, int is_valid) {
+  if (!is_valid) {
+    if (private->validity.buffer.data == NULL) {
+      NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
+      ArrowBitmapAppendUnsafe(&private->validity, 1, private->length - 1);
+    }
+
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 0, 1));
+    private->null_count++;
+  } else if (private->validity.buffer.data != NULL) {
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 1, 1));
   }
-  return ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes);
+
+  private->level = 0;
+  private->feat_is_open = 0;
+  return GEOARROW_OK;
+}
+
+static int feat_start_wkb(struct GeoArrowVisitor* v) {
+  struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
+  return WKBWriterStartFeature(private);
 }
 
 static int null_feat_wkb(struct GeoArrowVisitor* v) {
@@ -63,45 +111,48 @@ static int geom_start_wkb(struct GeoArrowVisitor* v,
                           enum GeoArrowGeometryType geometry_type,
                           enum GeoArrowDimensions dimensions) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  private->size[private->level]++;
-  private->level++;
-  private->geometry_type[private->level] = geometry_type;
-  private->dimensions[private->level] = dimensions;
-  private->size[private->level] = 0;
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private, 0));
 
   NANOARROW_RETURN_NOT_OK(
       ArrowBufferAppendUInt8(&private->values, GEOARROW_NATIVE_ENDIAN));
   NANOARROW_RETURN_NOT_OK(ArrowBufferAppendUInt32(
       &private->values, geometry_type + ((dimensions - 1) * 1000)));
+  int64_t size_pos = private->values.size_bytes;
   if (geometry_type != GEOARROW_GEOMETRY_TYPE_POINT) {
-    private->size_pos[private->level] = private->values.size_bytes;
     NANOARROW_RETURN_NOT_OK(ArrowBufferAppendUInt32(&private->values, 0));
   }
 
+  private->size[private->level]++;
+  private->level++;
+  private->geometry_type[private->level] = geometry_type;
+  private->dimensions[private->level] = dimensions;
+  private->size_pos[private->level] = size_pos;
+  private->size[private->level] = 0;
   return GEOARROW_OK;
 }
 
 static int ring_start_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private, 0));
+  int64_t size_pos = private->values.size_bytes;
+  NANOARROW_RETURN_NOT_OK(ArrowBufferAppendUInt32(&private->values, 0));
+
   private->size[private->level]++;
   private->level++;
   private->geometry_type[private->level] = GEOARROW_GEOMETRY_TYPE_GEOMETRY;
-  private->size_pos[private->level] = private->values.size_bytes;
+  private->size_pos[private->level] = size_pos;
   private->size[private->level] = 0;
-  return ArrowBufferAppendUInt32(&private->values, 0);
+  return GEOARROW_OK;
 }
 
 static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView* coords) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private, 0));
 
   NANOARROW_DCHECK(coords->n_coords <= UINT32_MAX);
-  private->size[private->level] += (uint32_t)coords->n_coords;
-
   NANOARROW_RETURN_NOT_OK(ArrowBufferReserve(
       &private->values, coords->n_values * coords->n_coords * sizeof(double)));
+  private->size[private->level] += (uint32_t)coords->n_coords;
   for (int64_t i = 0; i < coords->n_coords; i++) {
     for (int32_t j = 0; j < coords->n_values; j++) {
       ArrowBufferAppendUnsafe(&private->values,
@@ -115,8 +166,8 @@ static int coords_wkb(struct GeoArrowVisitor* v, const struct GeoArrowCoordView*
 
 static int ring_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private, 1));
+  if (private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_GEOMETRY) {
     return EINVAL;
   }
   memcpy(private->values.data + private->size_pos[private->level],
@@ -127,10 +178,7 @@ static int ring_end_wkb(struct GeoArrowVisitor* v) {
 
 static int geom_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
-  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private));
-  if (private->values.data == NULL) {
-    return EINVAL;
-  }
+  NANOARROW_RETURN_NOT_OK(WKBWriterCheckLevel(private, 1));
 
   if (private->geometry_type[private->level] != GEOARROW_GEOMETRY_TYPE_POINT) {
     memcpy(private->values.data + private->size_pos[private->level],
@@ -165,19 +213,11 @@ static int geom_end_wkb(struct GeoArrowVisitor* v) {
 static int feat_end_wkb(struct GeoArrowVisitor* v) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)v->private_data;
 
-  if (private->feat_is_null) {
-    if (private->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(ArrowBitmapReserve(&private->validity, private->length));
-      ArrowBitmapAppendUnsafe(&private->validity, 1, private->length - 1);
-    }
-
-    private->null_count++;
-    return ArrowBitmapAppend(&private->validity, 0, 1);
-  } else if (private->validity.buffer.data != NULL) {
-    return ArrowBitmapAppend(&private->validity, 1, 1);
+  if (!private->feat_is_open) {
+    return EINVAL;
   }
 
-  return GEOARROW_OK;
+  return WKBWriterEndFeature(private, !private->feat_is_null);
 }
 
 GeoArrowErrorCode GeoArrowWKBWriterInit(struct GeoArrowWKBWriter* writer) {
@@ -187,10 +227,8 @@ GeoArrowErrorCode GeoArrowWKBWriterInit(struct GeoArrowWKBWriter* writer) {
     return ENOMEM;
   }
 
+  memset(private, 0, sizeof(struct WKBWriterPrivate));
   private->storage_type = NANOARROW_TYPE_BINARY;
-  private->length = 0;
-  private->level = 0;
-  private->null_count = 0;
   ArrowBitmapInit(&private->validity);
   ArrowBufferInit(&private->offsets);
   ArrowBufferInit(&private->values);
@@ -219,6 +257,7 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
                                           struct GeoArrowError* error) {
   struct WKBWriterPrivate* private = (struct WKBWriterPrivate*)writer->private_data;
   array->release = NULL;
+  WKBWriterDiscardFeature(private);
 
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
@@ -246,34 +285,12 @@ void GeoArrowWKBWriterReset(struct GeoArrowWKBWriter* writer) {
   writer->private_data = NULL;
 }
 
-static GeoArrowErrorCode GeoArrowWKBWriterAppendValidity(struct GeoArrowWKBWriter* writer,
-                                                         int is_valid) {
-  struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-
-  private_data->length++;
-
-  if (!is_valid) {
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, private_data->length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, private_data->length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
-  }
-
-  return GEOARROW_OK;
-}
-
 GeoArrowErrorCode GeoArrowWKBWriterAppendNull(struct GeoArrowWKBWriter* writer) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-  GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
-      &private_data->offsets, (int32_t)private_data->values.size_bytes));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 0));
-  return GEOARROW_OK;
+  GEOARROW_RETURN_NOT_OK(WKBWriterStartFeature(private_data));
+  GeoArrowErrorCode result = WKBWriterEndFeature(private_data, 0);
+  WKBWriterDiscardFeature(private_data);
+  return result;
 }
 
 static GeoArrowErrorCode GeoArrowWKBWriterAppendSequence(
@@ -354,9 +371,14 @@ static GeoArrowErrorCode GeoArrowWKBWriterAppendBuffer(struct ArrowBuffer* value
 GeoArrowErrorCode GeoArrowWKBWriterAppend(struct GeoArrowWKBWriter* writer,
                                           struct GeoArrowGeometryView geom) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
-  GEOARROW_RETURN_NOT_OK(ArrowBufferAppendInt32(
-      &private_data->offsets, (int32_t)private_data->values.size_bytes));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendBuffer(&private_data->values, geom));
-  GEOARROW_RETURN_NOT_OK(GeoArrowWKBWriterAppendValidity(writer, 1));
-  return GEOARROW_OK;
+  GEOARROW_RETURN_NOT_OK(WKBWriterStartFeature(private_data));
+  GeoArrowErrorCode result =
+      GeoArrowWKBWriterAppendBuffer(&private_data->values, geom);
+  if (result == GEOARROW_OK) {
+    result = WKBWriterEndFeature(private_data, 1);
+  }
+
+  // Does nothing if the feature was ended
+  WKBWriterDiscardFeature(private_data);
+  return result;
 }
-- 
2.43.0


From 7886b54c7844fef5999c0deb1927c3a314c28af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 16/66] fix: apply the WKT element size limit whether or not
 there are nulls

---
 src/geoarrow/wkt_writer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 40e206c..6a47313 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -255,9 +255,9 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
     }
 
     private->null_count++;
-    return ArrowBitmapAppend(&private->validity, 0, 1);
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 0, 1));
   } else if (private->validity.buffer.data != NULL) {
-    return ArrowBitmapAppend(&private->validity, 1, 1);
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 1, 1));
   }
 
   if (private->max_element_size_bytes >= 0 &&
-- 
2.43.0


From 5deb84b23bfd4e9a5636e2056fa0b9126c5038df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 17/66] fix: check the order of events in the WKT writer and
 drop incomplete features

---
 src/geoarrow/wkt_writer.c | 81 ++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 23 deletions(-)

diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index 6a47313..f52e857 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -21,16 +21,39 @@ struct WKTWriterPrivate {
   int use_flat_multipoint;
   int64_t max_element_size_bytes;
   int feat_is_null;
+  // Non-zero between the start and the end of a feature
+  int feat_is_open;
 };
 
 static inline int WKTWriterCheckLevel(struct WKTWriterPrivate* private) {
-  if (private->level >= 0 && private->level <= 31) {
+  if (private->feat_is_open && private->level >= 0 && private->level <= 31) {
     return GEOARROW_OK;
   } else {
     return EINVAL;
   }
 }
 
+static inline int WKTWriterCheckNextLevel(struct WKTWriterPrivate* private) {
+  if (private->feat_is_open && private->level >= -1 && private->level <= 30) {
+    return GEOARROW_OK;
+  } else {
+    return EINVAL;
+  }
+}
+
+// Remove what was written for a feature that was started but never ended
+static void WKTWriterDiscardFeature(struct WKTWriterPrivate* private) {
+  if (!private->feat_is_open) {
+    return;
+  }
+
+  private->offsets.size_bytes -= sizeof(int32_t);
+  private->values.size_bytes = private->values_feat_start;
+  private->length--;
+  private->level = -1;
+  private->feat_is_open = 0;
+}
+
 static inline int WKTWriterWrite(struct WKTWriterPrivate* private, const char* value) {
   return ArrowBufferAppend(&private->values, value, strlen(value));
 }
@@ -47,15 +70,20 @@ static inline void WKTWriterWriteDoubleUnsafe(struct WKTWriterPrivate* private,
 
 static int feat_start_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
-  private->level = -1;
-  private->length++;
-  private->feat_is_null = 0;
-  private->values_feat_start = private->values.size_bytes;
+  WKTWriterDiscardFeature(private);
 
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
   }
-  return ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes);
+  NANOARROW_RETURN_NOT_OK(
+      ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
+
+  private->level = -1;
+  private->length++;
+  private->feat_is_null = 0;
+  private->feat_is_open = 1;
+  private->values_feat_start = private->values.size_bytes;
+  return GEOARROW_OK;
 }
 
 static int null_feat_wkt(struct GeoArrowVisitor* v) {
@@ -68,17 +96,17 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
                           enum GeoArrowGeometryType geometry_type,
                           enum GeoArrowDimensions dimensions) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
-  private->level++;
-  NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
+  NANOARROW_RETURN_NOT_OK(WKTWriterCheckNextLevel(private));
+  int32_t level = private->level + 1;
 
-  if (private->level > 0 && private->i[private->level - 1] > 0) {
+  if (level > 0 && private->i[level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
-  } else if (private->level > 0) {
+  } else if (level > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, "("));
   }
 
-  if (private->level == 0 || private->geometry_type[private->level - 1] ==
-                                 GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION) {
+  if (level == 0 ||
+      private->geometry_type[level - 1] == GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION) {
     if (geometry_type < GEOARROW_GEOMETRY_TYPE_POINT ||
         geometry_type > GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION) {
       GeoArrowErrorSet(v->error, "WKTWriter::geom_start(): Unexpected `geometry_type`");
@@ -108,10 +136,11 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, " "));
   }
 
-  if (private->level > 0) {
-    private->i[private->level - 1]++;
+  if (level > 0) {
+    private->i[level - 1]++;
   }
 
+  private->level = level;
   private->geometry_type[private->level] = geometry_type;
   private->i[private->level] = 0;
   return GEOARROW_OK;
@@ -119,19 +148,20 @@ static int geom_start_wkt(struct GeoArrowVisitor* v,
 
 static int ring_start_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
-  private->level++;
-  NANOARROW_RETURN_NOT_OK(WKTWriterCheckLevel(private));
+  NANOARROW_RETURN_NOT_OK(WKTWriterCheckNextLevel(private));
+  int32_t level = private->level + 1;
 
-  if (private->level > 0 && private->i[private->level - 1] > 0) {
+  if (level > 0 && private->i[level - 1] > 0) {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, ", "));
   } else {
     NANOARROW_RETURN_NOT_OK(WKTWriterWrite(private, "("));
   }
 
-  if (private->level > 0) {
-    private->i[private->level - 1]++;
+  if (level > 0) {
+    private->i[level - 1]++;
   }
 
+  private->level = level;
   private->geometry_type[private->level] = GEOARROW_GEOMETRY_TYPE_GEOMETRY;
   private->i[private->level] = 0;
   return GEOARROW_OK;
@@ -247,6 +277,9 @@ static int geom_end_wkt(struct GeoArrowVisitor* v) {
 
 static int feat_end_wkt(struct GeoArrowVisitor* v) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)v->private_data;
+  if (!private->feat_is_open) {
+    return EINVAL;
+  }
 
   if (private->feat_is_null) {
     if (private->validity.buffer.data == NULL) {
@@ -254,8 +287,8 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
       ArrowBitmapAppendUnsafe(&private->validity, 1, private->length - 1);
     }
 
-    private->null_count++;
     NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 0, 1));
+    private->null_count++;
   } else if (private->validity.buffer.data != NULL) {
     NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private->validity, 1, 1));
   }
@@ -267,6 +300,8 @@ static int feat_end_wkt(struct GeoArrowVisitor* v) {
         private->values_feat_start + private->max_element_size_bytes;
   }
 
+  private->level = -1;
+  private->feat_is_open = 0;
   return GEOARROW_OK;
 }
 
@@ -277,10 +312,9 @@ GeoArrowErrorCode GeoArrowWKTWriterInit(struct GeoArrowWKTWriter* writer) {
     return ENOMEM;
   }
 
+  memset(private, 0, sizeof(struct WKTWriterPrivate));
   private->storage_type = NANOARROW_TYPE_STRING;
-  private->length = 0;
-  private->level = 0;
-  private->null_count = 0;
+  private->level = -1;
   ArrowBitmapInit(&private->validity);
   ArrowBufferInit(&private->offsets);
   ArrowBufferInit(&private->values);
@@ -327,6 +361,7 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
                                           struct GeoArrowError* error) {
   struct WKTWriterPrivate* private = (struct WKTWriterPrivate*)writer->private_data;
   array->release = NULL;
+  WKTWriterDiscardFeature(private);
 
   if (private->values.size_bytes > 2147483647) {
     return EOVERFLOW;
-- 
2.43.0


From 633c658c0702bdc48ec39949204a30d3b67a04d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 18/66] fix: keep native writer output aligned after failures
 and for any mix of calls

---
 src/geoarrow/native_writer.c | 269 +++++++++++++++++++----------------
 1 file changed, 148 insertions(+), 121 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 97e84c2..b7bf24e 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -16,13 +16,17 @@ struct GeoArrowNativeWriterPrivate {
 
   struct ArrowBitmap validity;
   int64_t null_count;
-  int64_t current_length;
-  int32_t last_offset[4];
 
   // Fields to keep track of state
   int output_initialized;
   int feat_is_null;
   int nesting_multipoint;
+
+  // Non-zero between the start and the end of a feature, with the sizes at its start
+  int feat_is_open;
+  int64_t feat_start_coords;
+  int64_t feat_start_offset_bytes[3];
+
   double empty_coord_values[4];
   struct GeoArrowCoordView empty_coord;
   enum GeoArrowDimensions last_dimensions;
@@ -33,6 +37,81 @@ struct GeoArrowNativeWriterPrivate {
 static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
     struct GeoArrowNativeWriter* writer);
 
+// Remove what was written for a feature that was started but never ended
+static void GeoArrowNativeWriterDiscardFeature(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  if (!private_data->feat_is_open) {
+    return;
+  }
+
+  struct GeoArrowWritableArrayView* view = &private_data->builder.view;
+  for (int32_t i = 0; i < view->n_offsets; i++) {
+    view->buffers[i + 1].size_bytes = private_data->feat_start_offset_bytes[i];
+  }
+
+  // The sizes of the coordinate buffers may have been synchronized since
+  view->coords.size_coords = private_data->feat_start_coords;
+  int64_t bytes_per_coord = sizeof(double);
+  if (view->schema_view.coord_type == GEOARROW_COORD_TYPE_INTERLEAVED) {
+    bytes_per_coord *= view->coords.n_values;
+  }
+  for (int64_t i = view->n_offsets + 1; i < view->n_buffers; i++) {
+    view->buffers[i].size_bytes = view->coords.size_coords * bytes_per_coord;
+  }
+
+  private_data->feat_is_open = 0;
+}
+
+static GeoArrowErrorCode GeoArrowNativeWriterStartFeature(
+    struct GeoArrowNativeWriter* writer) {
+  struct GeoArrowNativeWriterPrivate* private_data =
+      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  GeoArrowNativeWriterDiscardFeature(private_data);
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterEnsureOutputInitialized(writer));
+
+  struct GeoArrowWritableArrayView* view = &private_data->builder.view;
+  private_data->feat_start_coords = view->coords.size_coords;
+  for (int32_t i = 0; i < view->n_offsets; i++) {
+    private_data->feat_start_offset_bytes[i] = view->buffers[i + 1].size_bytes;
+  }
+
+  private_data->feat_is_null = 0;
+  private_data->feat_is_open = 1;
+  return GEOARROW_OK;
+}
+
+static inline GeoArrowErrorCode GeoArrowNativeWriterCheckFeature(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  return private_data->feat_is_open ? GEOARROW_OK : EINVAL;
+}
+
+static GeoArrowErrorCode GeoArrowNativeWriterEndFeature(
+    struct GeoArrowNativeWriterPrivate* private_data, int is_valid) {
+  if (!is_valid) {
+    if (private_data->validity.buffer.data == NULL) {
+      struct GeoArrowWritableArrayView* view = &private_data->builder.view;
+      int64_t current_length;
+      if (view->n_offsets == 0) {
+        current_length = view->coords.size_coords;
+      } else {
+        current_length = view->buffers[1].size_bytes / sizeof(int32_t) - 1;
+      }
+
+      NANOARROW_RETURN_NOT_OK(
+          ArrowBitmapReserve(&private_data->validity, current_length));
+      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
+    }
+
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
+    private_data->null_count++;
+  } else if (private_data->validity.buffer.data != NULL) {
+    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
+  }
+
+  private_data->feat_is_open = 0;
+  return GEOARROW_OK;
+}
+
 GeoArrowErrorCode GeoArrowNativeWriterInit(struct GeoArrowNativeWriter* writer,
                                            enum GeoArrowType type) {
   struct GeoArrowNativeWriterPrivate* private_data =
@@ -94,13 +173,13 @@ static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
 
   int32_t zero = 0;
   for (int i = 0; i < private_data->builder.view.n_offsets; i++) {
-    NANOARROW_RETURN_NOT_OK(GeoArrowBuilderOffsetAppend(builder, i, &zero, 1));
+    if (builder->view.buffers[i + 1].size_bytes == 0) {
+      NANOARROW_RETURN_NOT_OK(GeoArrowBuilderOffsetAppend(builder, i, &zero, 1));
+    }
   }
 
   private_data->null_count = 0;
-  private_data->current_length = 0;
   NANOARROW_RETURN_NOT_OK(ArrowBitmapResize(&private_data->validity, 0, 0));
-  memset(private_data->last_offset, 0, sizeof(private_data->last_offset));
 
   private_data->builder.view.coords.size_coords = 0;
   private_data->builder.view.coords.capacity_coords = 0;
@@ -115,6 +194,9 @@ GeoArrowErrorCode GeoArrowNativeWriterFinish(struct GeoArrowNativeWriter* writer
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
+  GeoArrowNativeWriterDiscardFeature(private_data);
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterEnsureOutputInitialized(writer));
+
   // We could in theory wrap this buffer instead of copy it
   struct GeoArrowBufferView validity_view;
   validity_view.data = private_data->validity.buffer.data;
@@ -155,11 +237,18 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendSize(
     return EOVERFLOW;
   }
 
-  int32_t* p_last_offset = private_data->last_offset + offset;
-  (*p_last_offset) += size;
+  struct GeoArrowWritableBufferView* offsets =
+      private_data->builder.view.buffers + 1 + offset;
+  int64_t n_offsets = offsets->size_bytes / sizeof(int32_t);
+  int64_t next_offset = (int64_t)offsets->data.as_int32[n_offsets - 1] + size;
+  if (next_offset > INT32_MAX) {
+    GeoArrowErrorSet(error, "Offset exceeds INT32_MAX in GeoArrow native array");
+    return EOVERFLOW;
+  }
 
+  int32_t next_offset32 = (int32_t)next_offset;
   GEOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderOffsetAppend(&private_data->builder, offset, p_last_offset, 1));
+      GeoArrowBuilderOffsetAppend(&private_data->builder, offset, &next_offset32, 1));
 
   return GEOARROW_OK;
 }
@@ -251,39 +340,24 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendMultiPolygonOffsets(
   return GEOARROW_OK;
 }
 
-static GeoArrowErrorCode GeoArrowNativeWriterAppendValidity(
-    struct GeoArrowNativeWriter* writer, int is_valid) {
+GeoArrowErrorCode GeoArrowNativeWriterAppendNull(struct GeoArrowNativeWriter* writer) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
-  private_data->current_length++;
-
-  if (!is_valid) {
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, private_data->current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1,
-                              private_data->current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterStartFeature(writer));
+  GeoArrowErrorCode result = GeoArrowNativeWriterAppendEmpty(writer, NULL);
+  if (result == GEOARROW_OK) {
+    result = GeoArrowNativeWriterEndFeature(private_data, 0);
   }
 
-  return GEOARROW_OK;
-}
-
-GeoArrowErrorCode GeoArrowNativeWriterAppendNull(struct GeoArrowNativeWriter* writer) {
-  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendEmpty(writer, NULL));
-  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 0));
-  return GEOARROW_OK;
+  // Does nothing if the feature was ended
+  GeoArrowNativeWriterDiscardFeature(private_data);
+  return result;
 }
 
-GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer,
-                                             struct GeoArrowGeometryView geom,
-                                             struct GeoArrowError* error) {
+static GeoArrowErrorCode GeoArrowNativeWriterAppendGeometry(
+    struct GeoArrowNativeWriter* writer, struct GeoArrowGeometryView geom,
+    struct GeoArrowError* error) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
@@ -293,9 +367,7 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
 
   // Any EMPTY can be appended to any builder
   if (coord_count == 0) {
-    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendEmpty(writer, error));
-    GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 1));
-    return GEOARROW_OK;
+    return GeoArrowNativeWriterAppendEmpty(writer, error);
   }
 
   // Handle the offsets (and determine if this geometry can, in fact, be
@@ -427,20 +499,33 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
   GeoArrowNativeWriterAppendCoordsUnsafe(writer, geom);
   private_data->builder.view.coords.size_coords += coord_count;
 
-  // Append to validity buffer
-  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendValidity(writer, 1));
-
   return GEOARROW_OK;
 }
 
+GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer,
+                                             struct GeoArrowGeometryView geom,
+                                             struct GeoArrowError* error) {
+  struct GeoArrowNativeWriterPrivate* private_data =
+      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterStartFeature(writer));
+  GeoArrowErrorCode result = GeoArrowNativeWriterAppendGeometry(writer, geom, error);
+  if (result == GEOARROW_OK) {
+    result = GeoArrowNativeWriterEndFeature(private_data, 1);
+  }
+
+  // Does nothing if the feature was ended
+  GeoArrowNativeWriterDiscardFeature(private_data);
+  return result;
+}
+
 static int feat_start_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->level = 0;
   private_data->size[0] = 0;
-  private_data->feat_is_null = 0;
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterStartFeature(writer);
 }
 
 static int geom_start_point(struct GeoArrowVisitor* v,
@@ -468,6 +553,7 @@ static int coords_point(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   private_data->size[0] += coords->n_coords;
   return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
                                      private_data->last_dimensions, 0, coords->n_coords);
@@ -495,7 +581,7 @@ static int feat_end_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   // If there weren't any coords (i.e., EMPTY), we need to write some NANs here
   // if there was >1 coords, we also need to error or we'll get misaligned output
   if (private_data->size[0] == 0) {
@@ -508,21 +594,7 @@ static int feat_end_point(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->feat_is_null) {
-    int64_t current_length = private_data->builder.view.coords.size_coords;
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
-  }
-
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterEndFeature(private_data, !private_data->feat_is_null);
 }
 
 static void GeoArrowVisitorInitPoint(struct GeoArrowVisitor* v) {
@@ -547,9 +619,8 @@ static int feat_start_multipoint(struct GeoArrowVisitor* v) {
   private_data->level = 0;
   private_data->size[0] = 0;
   private_data->size[1] = 0;
-  private_data->feat_is_null = 0;
   private_data->nesting_multipoint = 0;
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterStartFeature(writer);
 }
 
 static int geom_start_multipoint(struct GeoArrowVisitor* v,
@@ -592,6 +663,7 @@ static int coords_multipoint(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   private_data->size[1] += coords->n_coords;
   return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
                                      private_data->last_dimensions, 0, coords->n_coords);
@@ -601,7 +673,7 @@ static int ring_end_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   private_data->level--;
   private_data->size[0]++;
   if (private_data->builder.view.coords.size_coords > 2147483647) {
@@ -618,7 +690,7 @@ static int geom_end_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   // Ignore geom_end calls from the end of a POINT nested within a MULTIPOINT
   if (private_data->nesting_multipoint == 2) {
     private_data->nesting_multipoint--;
@@ -651,7 +723,7 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   // If we didn't finish any sequences, finish at least one. This is usually an
   // EMPTY but could also be a single point.
   if (private_data->size[0] == 0) {
@@ -666,22 +738,7 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
     return EINVAL;
   }
 
-  if (private_data->feat_is_null) {
-    int64_t current_length =
-        private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
-  }
-
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterEndFeature(private_data, !private_data->feat_is_null);
 }
 
 static void GeoArrowVisitorInitLinestring(struct GeoArrowVisitor* v) {
@@ -706,8 +763,7 @@ static int feat_start_multilinestring(struct GeoArrowVisitor* v) {
   private_data->level = 0;
   private_data->size[0] = 0;
   private_data->size[1] = 0;
-  private_data->feat_is_null = 0;
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterStartFeature(writer);
 }
 
 static int geom_start_multilinestring(struct GeoArrowVisitor* v,
@@ -743,6 +799,7 @@ static int coords_multilinestring(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   private_data->size[1] += coords->n_coords;
   return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
                                      private_data->last_dimensions, 0, coords->n_coords);
@@ -752,7 +809,7 @@ static int ring_end_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   private_data->level--;
   if (private_data->size[1] > 0) {
     if (private_data->builder.view.coords.size_coords > 2147483647) {
@@ -772,7 +829,7 @@ static int geom_end_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   if (private_data->level == 1) {
     private_data->level--;
     if (private_data->size[1] > 0) {
@@ -802,7 +859,7 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   // If we have an unfinished sequence left over, finish it now. This could have
   // occurred if the last geometry that was visited was a POINT.
   if (private_data->size[1] > 0) {
@@ -821,22 +878,7 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
   NANOARROW_RETURN_NOT_OK(
       GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_seq32, 1));
 
-  if (private_data->feat_is_null) {
-    int64_t current_length =
-        private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
-  }
-
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterEndFeature(private_data, !private_data->feat_is_null);
 }
 
 static void GeoArrowVisitorInitMultiLinestring(struct GeoArrowVisitor* v) {
@@ -862,8 +904,7 @@ static int feat_start_multipolygon(struct GeoArrowVisitor* v) {
   private_data->size[0] = 0;
   private_data->size[1] = 0;
   private_data->size[2] = 0;
-  private_data->feat_is_null = 0;
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterStartFeature(writer);
 }
 
 static int geom_start_multipolygon(struct GeoArrowVisitor* v,
@@ -901,6 +942,7 @@ static int coords_multipolygon(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   private_data->size[2] += coords->n_coords;
   return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
                                      private_data->last_dimensions, 0, coords->n_coords);
@@ -910,7 +952,7 @@ static int ring_end_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   private_data->level--;
   if (private_data->size[2] > 0) {
     if (private_data->builder.view.coords.size_coords > 2147483647) {
@@ -930,7 +972,7 @@ static int geom_end_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   if (private_data->level == 2) {
     private_data->level--;
     if (private_data->size[2] > 0) {
@@ -971,7 +1013,7 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-
+  GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
   // If we have an unfinished sequence left over, finish it now. This could have
   // occurred if the last geometry that was visited was a POINT.
   if (private_data->size[2] > 0) {
@@ -1000,22 +1042,7 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
   NANOARROW_RETURN_NOT_OK(
       GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_seq_seq32, 1));
 
-  if (private_data->feat_is_null) {
-    int64_t current_length =
-        private_data->builder.view.buffers[1].size_bytes / sizeof(int32_t) - 1;
-    if (private_data->validity.buffer.data == NULL) {
-      NANOARROW_RETURN_NOT_OK(
-          ArrowBitmapReserve(&private_data->validity, current_length));
-      ArrowBitmapAppendUnsafe(&private_data->validity, 1, current_length - 1);
-    }
-
-    private_data->null_count++;
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 0, 1));
-  } else if (private_data->validity.buffer.data != NULL) {
-    NANOARROW_RETURN_NOT_OK(ArrowBitmapAppend(&private_data->validity, 1, 1));
-  }
-
-  return GEOARROW_OK;
+  return GeoArrowNativeWriterEndFeature(private_data, !private_data->feat_is_null);
 }
 
 static void GeoArrowVisitorInitMultiPolygon(struct GeoArrowVisitor* v) {
-- 
2.43.0


From 4f83ecc80752adada02cb85f5a6bf5137dd5946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 19/66] fix: keep sequences and polygons apart when visiting
 into native arrays

---
 src/geoarrow/native_writer.c | 359 +++++++++++++++++------------------
 src/geoarrow/wkb_writer.c    |   3 +-
 2 files changed, 180 insertions(+), 182 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index b7bf24e..525c134 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -20,7 +20,6 @@ struct GeoArrowNativeWriterPrivate {
   // Fields to keep track of state
   int output_initialized;
   int feat_is_null;
-  int nesting_multipoint;
 
   // Non-zero between the start and the end of a feature, with the sizes at its start
   int feat_is_open;
@@ -30,8 +29,16 @@ struct GeoArrowNativeWriterPrivate {
   double empty_coord_values[4];
   struct GeoArrowCoordView empty_coord;
   enum GeoArrowDimensions last_dimensions;
-  int64_t size[32];
-  int32_t level;
+  int64_t size[4];
+
+  // The number of nested elements started within the current coordinate sequence
+  // (or zero if there is no current coordinate sequence)
+  int32_t sequence_level;
+
+  // Non-zero within a POLYGON or MULTILINESTRING, whose sequences belong together
+  int in_group;
+  int group_is_empty;
+  int64_t n_groups;
 };
 
 static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
@@ -75,11 +82,83 @@ static GeoArrowErrorCode GeoArrowNativeWriterStartFeature(
     private_data->feat_start_offset_bytes[i] = view->buffers[i + 1].size_bytes;
   }
 
+  memset(private_data->size, 0, sizeof(private_data->size));
+  private_data->sequence_level = 0;
+  private_data->in_group = 0;
+  private_data->group_is_empty = 1;
+  private_data->n_groups = 0;
   private_data->feat_is_null = 0;
   private_data->feat_is_open = 1;
   return GEOARROW_OK;
 }
 
+// A POINT, a LINESTRING, a ring, and a MULTIPOINT are each one sequence of coordinates.
+// These keep track of where each of them (and each group of them) ends, given that the
+// receiver isn't told what a call to geom_end() is the end of.
+enum GeoArrowNativeWriterElement {
+  GEOARROW_NATIVE_WRITER_ELEMENT_OTHER,
+  GEOARROW_NATIVE_WRITER_ELEMENT_SEQUENCE,
+  GEOARROW_NATIVE_WRITER_ELEMENT_GROUP
+};
+
+static void GeoArrowNativeWriterStartElement(
+    struct GeoArrowNativeWriterPrivate* private_data,
+    enum GeoArrowGeometryType geometry_type) {
+  if (private_data->sequence_level > 0) {
+    private_data->sequence_level++;
+    return;
+  }
+
+  switch (geometry_type) {
+    case GEOARROW_GEOMETRY_TYPE_POINT:
+    case GEOARROW_GEOMETRY_TYPE_LINESTRING:
+    case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
+      private_data->sequence_level = 1;
+      break;
+    case GEOARROW_GEOMETRY_TYPE_POLYGON:
+    case GEOARROW_GEOMETRY_TYPE_MULTILINESTRING:
+      private_data->in_group = 1;
+      private_data->group_is_empty = 1;
+      break;
+    default:
+      break;
+  }
+}
+
+static enum GeoArrowNativeWriterElement GeoArrowNativeWriterEndElement(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  if (private_data->sequence_level > 0) {
+    private_data->sequence_level--;
+    return private_data->sequence_level == 0 ? GEOARROW_NATIVE_WRITER_ELEMENT_SEQUENCE
+                                             : GEOARROW_NATIVE_WRITER_ELEMENT_OTHER;
+  } else if (private_data->in_group) {
+    private_data->in_group = 0;
+    return GEOARROW_NATIVE_WRITER_ELEMENT_GROUP;
+  } else {
+    return GEOARROW_NATIVE_WRITER_ELEMENT_OTHER;
+  }
+}
+
+// Count the group that a (non-empty) sequence belongs to
+static void GeoArrowNativeWriterCountGroup(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  if (!private_data->in_group || private_data->group_is_empty) {
+    private_data->n_groups++;
+    private_data->group_is_empty = 0;
+  }
+}
+
+// End a sequence in the last buffer of offsets
+static GeoArrowErrorCode GeoArrowNativeWriterAppendCoordOffset(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  if (private_data->builder.view.coords.size_coords > 2147483647) {
+    return EOVERFLOW;
+  }
+  int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
+  return GeoArrowBuilderOffsetAppend(
+      &private_data->builder, private_data->builder.view.n_offsets - 1, &n_coord32, 1);
+}
+
 static inline GeoArrowErrorCode GeoArrowNativeWriterCheckFeature(
     struct GeoArrowNativeWriterPrivate* private_data) {
   return private_data->feat_is_open ? GEOARROW_OK : EINVAL;
@@ -521,10 +600,6 @@ GeoArrowErrorCode GeoArrowNativeWriterAppend(struct GeoArrowNativeWriter* writer
 
 static int feat_start_point(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
-  struct GeoArrowNativeWriterPrivate* private_data =
-      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level = 0;
-  private_data->size[0] = 0;
   return GeoArrowNativeWriterStartFeature(writer);
 }
 
@@ -614,12 +689,6 @@ static void GeoArrowVisitorInitPoint(struct GeoArrowVisitor* v) {
 
 static int feat_start_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
-  struct GeoArrowNativeWriterPrivate* private_data =
-      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level = 0;
-  private_data->size[0] = 0;
-  private_data->size[1] = 0;
-  private_data->nesting_multipoint = 0;
   return GeoArrowNativeWriterStartFeature(writer);
 }
 
@@ -630,23 +699,7 @@ static int geom_start_multipoint(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->last_dimensions = dimensions;
-
-  switch (geometry_type) {
-    case GEOARROW_GEOMETRY_TYPE_LINESTRING:
-      private_data->level++;
-      break;
-    case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
-      private_data->nesting_multipoint = 1;
-      private_data->level++;
-      break;
-    case GEOARROW_GEOMETRY_TYPE_POINT:
-      if (private_data->nesting_multipoint) {
-        private_data->nesting_multipoint++;
-      }
-    default:
-      break;
-  }
-
+  GeoArrowNativeWriterStartElement(private_data, geometry_type);
   return GEOARROW_OK;
 }
 
@@ -654,7 +707,7 @@ static int ring_start_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level++;
+  private_data->sequence_level++;
   return GEOARROW_OK;
 }
 
@@ -669,19 +722,26 @@ static int coords_multipoint(struct GeoArrowVisitor* v,
                                      private_data->last_dimensions, 0, coords->n_coords);
 }
 
+static int end_sequence_multipoint(struct GeoArrowNativeWriterPrivate* private_data) {
+  if (private_data->size[1] > 0) {
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendCoordOffset(private_data));
+    private_data->size[0]++;
+    private_data->size[1] = 0;
+  }
+
+  return GEOARROW_OK;
+}
+
 static int ring_end_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  private_data->level--;
-  private_data->size[0]++;
-  if (private_data->builder.view.coords.size_coords > 2147483647) {
-    return EOVERFLOW;
+
+  if (GeoArrowNativeWriterEndElement(private_data) ==
+      GEOARROW_NATIVE_WRITER_ELEMENT_SEQUENCE) {
+    return end_sequence_multipoint(private_data);
   }
-  int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-  NANOARROW_RETURN_NOT_OK(
-      GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
 
   return GEOARROW_OK;
 }
@@ -691,21 +751,10 @@ static int geom_end_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  // Ignore geom_end calls from the end of a POINT nested within a MULTIPOINT
-  if (private_data->nesting_multipoint == 2) {
-    private_data->nesting_multipoint--;
-    return GEOARROW_OK;
-  }
 
-  if (private_data->level == 1) {
-    private_data->size[0]++;
-    private_data->level--;
-    if (private_data->builder.view.coords.size_coords > 2147483647) {
-      return EOVERFLOW;
-    }
-    int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+  if (GeoArrowNativeWriterEndElement(private_data) ==
+      GEOARROW_NATIVE_WRITER_ELEMENT_SEQUENCE) {
+    return end_sequence_multipoint(private_data);
   }
 
   return GEOARROW_OK;
@@ -724,15 +773,13 @@ static int feat_end_multipoint(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  // If we didn't finish any sequences, finish at least one. This is usually an
-  // EMPTY but could also be a single point.
+
+  // Finish any coordinates that were not part of a sequence
+  NANOARROW_RETURN_NOT_OK(end_sequence_multipoint(private_data));
+
+  // If there were no coordinates, this is an EMPTY
   if (private_data->size[0] == 0) {
-    if (private_data->builder.view.coords.size_coords > 2147483647) {
-      return EOVERFLOW;
-    }
-    int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 0, &n_coord32, 1));
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendCoordOffset(private_data));
   } else if (private_data->size[0] != 1) {
     GeoArrowErrorSet(v->error, "Can't convert feature with >1 sequence to LINESTRING");
     return EINVAL;
@@ -758,11 +805,6 @@ static void GeoArrowVisitorInitLinestring(struct GeoArrowVisitor* v) {
 
 static int feat_start_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
-  struct GeoArrowNativeWriterPrivate* private_data =
-      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level = 0;
-  private_data->size[0] = 0;
-  private_data->size[1] = 0;
   return GeoArrowNativeWriterStartFeature(writer);
 }
 
@@ -773,16 +815,7 @@ static int geom_start_multilinestring(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->last_dimensions = dimensions;
-
-  switch (geometry_type) {
-    case GEOARROW_GEOMETRY_TYPE_LINESTRING:
-    case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
-      private_data->level++;
-      break;
-    default:
-      break;
-  }
-
+  GeoArrowNativeWriterStartElement(private_data, geometry_type);
   return GEOARROW_OK;
 }
 
@@ -790,7 +823,7 @@ static int ring_start_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level++;
+  private_data->sequence_level++;
   return GEOARROW_OK;
 }
 
@@ -805,21 +838,27 @@ static int coords_multilinestring(struct GeoArrowVisitor* v,
                                      private_data->last_dimensions, 0, coords->n_coords);
 }
 
+static int end_sequence_multilinestring(
+    struct GeoArrowNativeWriterPrivate* private_data) {
+  if (private_data->size[1] > 0) {
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendCoordOffset(private_data));
+    GeoArrowNativeWriterCountGroup(private_data);
+    private_data->size[0]++;
+    private_data->size[1] = 0;
+  }
+
+  return GEOARROW_OK;
+}
+
 static int ring_end_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  private_data->level--;
-  if (private_data->size[1] > 0) {
-    if (private_data->builder.view.coords.size_coords > 2147483647) {
-      return EOVERFLOW;
-    }
-    int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_coord32, 1));
-    private_data->size[0]++;
-    private_data->size[1] = 0;
+
+  if (GeoArrowNativeWriterEndElement(private_data) ==
+      GEOARROW_NATIVE_WRITER_ELEMENT_SEQUENCE) {
+    return end_sequence_multilinestring(private_data);
   }
 
   return GEOARROW_OK;
@@ -830,18 +869,10 @@ static int geom_end_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  if (private_data->level == 1) {
-    private_data->level--;
-    if (private_data->size[1] > 0) {
-      if (private_data->builder.view.coords.size_coords > 2147483647) {
-        return EOVERFLOW;
-      }
-      int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-      NANOARROW_RETURN_NOT_OK(
-          GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_coord32, 1));
-      private_data->size[0]++;
-      private_data->size[1] = 0;
-    }
+
+  if (GeoArrowNativeWriterEndElement(private_data) ==
+      GEOARROW_NATIVE_WRITER_ELEMENT_SEQUENCE) {
+    return end_sequence_multilinestring(private_data);
   }
 
   return GEOARROW_OK;
@@ -860,15 +891,15 @@ static int feat_end_multilinestring(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  // If we have an unfinished sequence left over, finish it now. This could have
-  // occurred if the last geometry that was visited was a POINT.
-  if (private_data->size[1] > 0) {
-    if (private_data->builder.view.coords.size_coords > 2147483647) {
-      return EOVERFLOW;
-    }
-    int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_coord32, 1));
+
+  // Finish any coordinates that were not part of a sequence
+  NANOARROW_RETURN_NOT_OK(end_sequence_multilinestring(private_data));
+
+  if (private_data->n_groups > 1 &&
+      private_data->builder.view.schema_view.geometry_type ==
+          GEOARROW_GEOMETRY_TYPE_POLYGON) {
+    GeoArrowErrorSet(v->error, "Can't convert feature with >1 polygon to POLYGON");
+    return EINVAL;
   }
 
   // Finish off the sequence of sequences. This is a polygon or multilinestring
@@ -898,12 +929,6 @@ static void GeoArrowVisitorInitMultiLinestring(struct GeoArrowVisitor* v) {
 
 static int feat_start_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
-  struct GeoArrowNativeWriterPrivate* private_data =
-      (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level = 0;
-  private_data->size[0] = 0;
-  private_data->size[1] = 0;
-  private_data->size[2] = 0;
   return GeoArrowNativeWriterStartFeature(writer);
 }
 
@@ -914,18 +939,7 @@ static int geom_start_multipolygon(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   private_data->last_dimensions = dimensions;
-
-  switch (geometry_type) {
-    case GEOARROW_GEOMETRY_TYPE_MULTILINESTRING:
-    case GEOARROW_GEOMETRY_TYPE_POLYGON:
-    case GEOARROW_GEOMETRY_TYPE_LINESTRING:
-    case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
-      private_data->level++;
-      break;
-    default:
-      break;
-  }
-
+  GeoArrowNativeWriterStartElement(private_data, geometry_type);
   return GEOARROW_OK;
 }
 
@@ -933,7 +947,7 @@ static int ring_start_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
-  private_data->level++;
+  private_data->sequence_level++;
   return GEOARROW_OK;
 }
 
@@ -948,21 +962,39 @@ static int coords_multipolygon(struct GeoArrowVisitor* v,
                                      private_data->last_dimensions, 0, coords->n_coords);
 }
 
+static int end_group_multipolygon(struct GeoArrowNativeWriterPrivate* private_data) {
+  if (private_data->size[1] > 0) {
+    int32_t n_seq32 =
+        (int32_t)(private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t)) - 1;
+    NANOARROW_RETURN_NOT_OK(
+        GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_seq32, 1));
+    private_data->size[0]++;
+    private_data->size[1] = 0;
+  }
+
+  return GEOARROW_OK;
+}
+
+static int end_sequence_multipolygon(struct GeoArrowNativeWriterPrivate* private_data) {
+  if (private_data->size[2] > 0) {
+    NANOARROW_RETURN_NOT_OK(GeoArrowNativeWriterAppendCoordOffset(private_data));
+    private_data->size[1]++;
+    private_data->size[2] = 0;
+  }
+
+  // A sequence that isn't part of a POLYGON or MULTILINESTRING is its own polygon
+  return private_data->in_group ? GEOARROW_OK : end_group_multipolygon(private_data);
+}
+
 static int ring_end_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriter* writer = (struct GeoArrowNativeWriter*)v->private_data;
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  private_data->level--;
-  if (private_data->size[2] > 0) {
-    if (private_data->builder.view.coords.size_coords > 2147483647) {
-      return EOVERFLOW;
-    }
-    int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
-    private_data->size[1]++;
-    private_data->size[2] = 0;
+
+  if (GeoArrowNativeWriterEndElement(private_data) ==
+      GEOARROW_NATIVE_WRITER_ELEMENT_SEQUENCE) {
+    return end_sequence_multipolygon(private_data);
   }
 
   return GEOARROW_OK;
@@ -973,32 +1005,15 @@ static int geom_end_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  if (private_data->level == 2) {
-    private_data->level--;
-    if (private_data->size[2] > 0) {
-      if (private_data->builder.view.coords.size_coords > 2147483647) {
-        return EOVERFLOW;
-      }
-      int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-      NANOARROW_RETURN_NOT_OK(
-          GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
-      private_data->size[1]++;
-      private_data->size[2] = 0;
-    }
-  } else if (private_data->level == 1) {
-    private_data->level--;
-    if (private_data->size[1] > 0) {
-      int32_t n_seq32 =
-          (int32_t)(private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t)) -
-          1;
-      NANOARROW_RETURN_NOT_OK(
-          GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_seq32, 1));
-      private_data->size[0]++;
-      private_data->size[1] = 0;
-    }
-  }
 
-  return GEOARROW_OK;
+  switch (GeoArrowNativeWriterEndElement(private_data)) {
+    case GEOARROW_NATIVE_WRITER_ELEMENT_SEQUENCE:
+      return end_sequence_multipolygon(private_data);
+    case GEOARROW_NATIVE_WRITER_ELEMENT_GROUP:
+      return end_group_multipolygon(private_data);
+    default:
+      return GEOARROW_OK;
+  }
 }
 
 static int null_feat_multipolygon(struct GeoArrowVisitor* v) {
@@ -1014,26 +1029,10 @@ static int feat_end_multipolygon(struct GeoArrowVisitor* v) {
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
-  // If we have an unfinished sequence left over, finish it now. This could have
-  // occurred if the last geometry that was visited was a POINT.
-  if (private_data->size[2] > 0) {
-    if (private_data->builder.view.coords.size_coords > 2147483647) {
-      return EOVERFLOW;
-    }
-    int32_t n_coord32 = (int32_t)private_data->builder.view.coords.size_coords;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 2, &n_coord32, 1));
-    private_data->size[1]++;
-  }
 
-  // If we have an unfinished sequence of sequences left over, finish it now.
-  // This could have occurred if the last geometry that was visited was a POINT.
-  if (private_data->size[1] > 0) {
-    int32_t n_seq32 =
-        (int32_t)(private_data->builder.view.buffers[3].size_bytes / sizeof(int32_t)) - 1;
-    NANOARROW_RETURN_NOT_OK(
-        GeoArrowBuilderOffsetAppend(&private_data->builder, 1, &n_seq32, 1));
-  }
+  // Finish any coordinates or sequences that were not part of a sequence or polygon
+  NANOARROW_RETURN_NOT_OK(end_sequence_multipolygon(private_data));
+  NANOARROW_RETURN_NOT_OK(end_group_multipolygon(private_data));
 
   // Finish off the sequence of sequence of sequences. This is a multipolygon
   // so it can be any number of them.
diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index f248722..ae40ae6 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -372,8 +372,7 @@ GeoArrowErrorCode GeoArrowWKBWriterAppend(struct GeoArrowWKBWriter* writer,
                                           struct GeoArrowGeometryView geom) {
   struct WKBWriterPrivate* private_data = (struct WKBWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(WKBWriterStartFeature(private_data));
-  GeoArrowErrorCode result =
-      GeoArrowWKBWriterAppendBuffer(&private_data->values, geom);
+  GeoArrowErrorCode result = GeoArrowWKBWriterAppendBuffer(&private_data->values, geom);
   if (result == GEOARROW_OK) {
     result = WKBWriterEndFeature(private_data, 1);
   }
-- 
2.43.0


From 573f41e26e3735654b22a10de9537c9bec51cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 20/66] fix: fill dimensions that a coordinate view does not
 have when copying it

---
 src/geoarrow/geoarrow_type_inline.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index c37cb86..8245928 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -606,6 +606,13 @@ static inline void GeoArrowCoordViewCopy(const struct GeoArrowCoordView* src,
   int dst_dim_map[4];
   GeoArrowMapDimensions(src_dim, dst_dim, dst_dim_map);
 
+  // Never look for values that are not there, whatever the dimensions are said to be
+  for (int i = 2; i < 4; i++) {
+    if (dst_dim_map[i] >= src->n_values) {
+      dst_dim_map[i] = -1;
+    }
+  }
+
   if (dst_dim_map[2] == -1) {
     for (int64_t i = 0; i < n; i++) {
       memcpy(&(GEOARROW_COORD_VIEW_VALUE(dst, dst_offset + i, 2)),
-- 
2.43.0


From 7a9ab68455c2dc39ef34a63ae10c8453a563e9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 21/66] fix: check the number of buffers of every array in
 GeoArrowArrayViewSetArray()

---
 src/geoarrow/array_view.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/array_view.c b/src/geoarrow/array_view.c
index 96afd83..618fa58 100644
--- a/src/geoarrow/array_view.c
+++ b/src/geoarrow/array_view.c
@@ -170,6 +170,13 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
         return EINVAL;
     }
 
+    if (array->n_buffers != 1) {
+      GeoArrowErrorSet(error,
+                       "Unexpected number of buffers for coordinate array "
+                       "in GeoArrowArrayViewSetArray()");
+      return EINVAL;
+    }
+
     return GEOARROW_OK;
   }
 
@@ -204,7 +211,15 @@ static int GeoArrowArrayViewSetArrayInternal(struct GeoArrowArrayView* array_vie
 }
 
 static GeoArrowErrorCode GeoArrowArrayViewSetArraySerialized(
-    struct GeoArrowArrayView* array_view, const struct ArrowArray* array) {
+    struct GeoArrowArrayView* array_view, const struct ArrowArray* array,
+    struct GeoArrowError* error) {
+  if (array->n_buffers != 3 || array->n_children != 0) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers or children for serialized array "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   array_view->length[0] = array->length;
   array_view->offset[0] = array->offset;
 
@@ -241,6 +256,13 @@ static GeoArrowErrorCode GeoArrowArrayViewSetArrayBox(
         ((const double*)array->children[i]->buffers[1]) + array->children[i]->offset;
   }
 
+  if (array->n_buffers != 1) {
+    GeoArrowErrorSet(error,
+                     "Unexpected number of buffers for box array struct "
+                     "in GeoArrowArrayViewSetArray()");
+    return EINVAL;
+  }
+
   return GEOARROW_OK;
 }
 
@@ -250,7 +272,8 @@ GeoArrowErrorCode GeoArrowArrayViewSetArray(struct GeoArrowArrayView* array_view
   switch (array_view->schema_view.type) {
     case GEOARROW_TYPE_WKT:
     case GEOARROW_TYPE_WKB:
-      NANOARROW_RETURN_NOT_OK(GeoArrowArrayViewSetArraySerialized(array_view, array));
+      NANOARROW_RETURN_NOT_OK(
+          GeoArrowArrayViewSetArraySerialized(array_view, array, error));
       break;
     case GEOARROW_TYPE_BOX:
     case GEOARROW_TYPE_BOX_Z:
-- 
2.43.0


From bc200516bd64a948aff6306e62c03a372d8a4839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:59 +0000
Subject: [PATCH 22/66] fix: check the number of buffers before reading large
 and view arrays

---
 src/geoarrow/array_reader.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/geoarrow/array_reader.c b/src/geoarrow/array_reader.c
index 896b5ac..4eedde9 100644
--- a/src/geoarrow/array_reader.c
+++ b/src/geoarrow/array_reader.c
@@ -225,6 +225,14 @@ GeoArrowErrorCode GeoArrowArrayReaderSetArray(struct GeoArrowArrayReader* reader
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKB_VIEW:
+      // ArrowArrayViewSetArray() reads the buffers before it checks how many there are
+      if (array->n_buffers < 3) {
+        GeoArrowErrorSet(error,
+                         "Unexpected number of buffers for serialized array "
+                         "in GeoArrowArrayReaderSetArray()");
+        return EINVAL;
+      }
+
       GEOARROW_RETURN_NOT_OK(ArrowArrayViewSetArray(&private_data->src.arrow, array,
                                                     (struct ArrowError*)error));
       break;
-- 
2.43.0


From 42d0cde10feb55fbee2ca36ad2b84d3d8028f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:18 +0000
Subject: [PATCH 23/66] fix: reject geometries whose total number of
 coordinates exceeds 32 bits

---
 src/geoarrow/geoarrow_type_inline.h |  4 ++--
 src/geoarrow/native_writer.c        | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 8245928..6e1a439 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -453,8 +453,8 @@ static inline GeoArrowErrorCode GeoArrowGeometryAppendNodeInline(
 
 /// \brief Count coordinates in a GeoArrowGeometryView
 /// \ingroup geoarrow-geometry
-static inline uint32_t GeoArrowGeometryViewNumCoords(struct GeoArrowGeometryView geom) {
-  uint32_t count = 0;
+static inline int64_t GeoArrowGeometryViewNumCoords(struct GeoArrowGeometryView geom) {
+  int64_t count = 0;
   const struct GeoArrowGeometryNode* end = geom.root + geom.size_nodes;
   for (const struct GeoArrowGeometryNode* node = geom.root; node < end; node++) {
     switch (node->geometry_type) {
diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 525c134..23f4587 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -440,7 +440,13 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendGeometry(
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
 
-  uint32_t coord_count = GeoArrowGeometryViewNumCoords(geom);
+  int64_t coord_count = GeoArrowGeometryViewNumCoords(geom);
+  if (coord_count > INT32_MAX) {
+    GeoArrowErrorSet(
+        error,
+        "Can't append geometry with coord count > INT32_MAX to GeoArrow native array");
+    return EOVERFLOW;
+  }
 
   const struct GeoArrowGeometryNode* node = geom.root;
 
@@ -513,7 +519,7 @@ static GeoArrowErrorCode GeoArrowNativeWriterAppendGeometry(
         case GEOARROW_GEOMETRY_TYPE_POINT:
         case GEOARROW_GEOMETRY_TYPE_MULTIPOINT:
           GEOARROW_RETURN_NOT_OK(
-              GeoArrowNativeWriterAppendSize(writer, 0, coord_count, error));
+              GeoArrowNativeWriterAppendSize(writer, 0, (uint32_t)coord_count, error));
           break;
 
         default:
-- 
2.43.0


From 1a78f275f3fdd9e5a8e04bcae81fbda3c9c0da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 24/66] fix: do not strip the zeros of integers when printing
 without Ryu

---
 src/geoarrow/double_print.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/double_print.c b/src/geoarrow/double_print.c
index a4f8d3f..89b1b61 100644
--- a/src/geoarrow/double_print.c
+++ b/src/geoarrow/double_print.c
@@ -32,6 +32,11 @@ int64_t GeoArrowPrintDouble(double f, uint32_t precision, char* result) {
     n_chars = 39;
   }
 
+  // Without a decimal point there are no trailing zeroes to strip
+  if (precision == 0) {
+    return n_chars;
+  }
+
   // Strip trailing zeroes + decimal
   for (int64_t i = n_chars - 1; i >= 0; i--) {
     if (result[i] == '0') {
-- 
2.43.0


From 92509fba254fe9fff8d881e2511e094092753b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 25/66] fix: do not leak when initializing an array writer of
 an unsupported type

---
 src/geoarrow/array_writer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/array_writer.c b/src/geoarrow/array_writer.c
index 864937d..b5bf59a 100644
--- a/src/geoarrow/array_writer.c
+++ b/src/geoarrow/array_writer.c
@@ -30,7 +30,8 @@ GeoArrowErrorCode GeoArrowArrayWriterInitFromType(struct GeoArrowArrayWriter* wr
     case GEOARROW_TYPE_LARGE_WKB:
     case GEOARROW_TYPE_WKT_VIEW:
     case GEOARROW_TYPE_WKB_VIEW:
-      return ENOTSUP;
+      result = ENOTSUP;
+      break;
     case GEOARROW_TYPE_WKT:
       result = GeoArrowWKTWriterInit(&private_data->wkt_writer);
       break;
-- 
2.43.0


From 9b60ad99520701ee2526aa95e0c7f802436a5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 26/66] fix: release the previous reader when a kernel is
 started again

---
 src/geoarrow/kernel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index ad8d96b..fcd87dd 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -232,6 +232,12 @@ static int kernel_visitor_start(struct GeoArrowKernel* kernel, struct ArrowSchem
   struct GeoArrowVisitorKernelPrivate* private_data =
       (struct GeoArrowVisitorKernelPrivate*)kernel->private_data;
 
+  // Discard the state of a previous call to start()
+  if (private_data->reader.private_data != NULL) {
+    GeoArrowArrayReaderReset(&private_data->reader);
+    kernel->push_batch = &kernel_push_batch_void_agg;
+  }
+
   struct GeoArrowSchemaView schema_view;
   NANOARROW_RETURN_NOT_OK(GeoArrowSchemaViewInit(&schema_view, schema, error));
 
-- 
2.43.0


From 5936bae3590609bb1ff1e74de1837070a8a327fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 27/66] fix: mark scalar functions and their factory as
 released

---
 src/geoarrow/scalar_udf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/scalar_udf.c b/src/geoarrow/scalar_udf.c
index b25952d..e35d453 100644
--- a/src/geoarrow/scalar_udf.c
+++ b/src/geoarrow/scalar_udf.c
@@ -7,7 +7,7 @@ static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* se
                                              struct GeoArrowScalarUdf* out);
 
 static void GeoArrowScalarUdfVoidFactoryRelease(struct GeoArrowScalarUdfFactory* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 GeoArrowErrorCode GeoArrowScalarUdfFactoryInit(struct GeoArrowScalarUdfFactory* out,
@@ -66,7 +66,7 @@ static const char* GeoArrowScalarUdfVoidGetLastError(struct GeoArrowScalarUdf* s
 }
 
 static void GeoArrowScalarUdfVoidRelease(struct GeoArrowScalarUdf* self) {
-  GEOARROW_UNUSED(self);
+  self->release = NULL;
 }
 
 static void GeoArrowScalarUdfVoidFactoryInit(struct GeoArrowScalarUdfFactory* self,
-- 
2.43.0


From e483ec4365500b24c51b0b0045e2075bcc9e15ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 28/66] fix: discard the rows of a batch that fails in a kernel

---
 src/geoarrow/kernel.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index fcd87dd..53ebd6d 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -187,6 +187,17 @@ static void kernel_release_visitor(struct GeoArrowKernel* kernel) {
   kernel->release = NULL;
 }
 
+// Remove the output of the rows before the one that failed, such that they don't end
+// up in the output of the next batch
+static void kernel_discard_batch(struct GeoArrowVisitorKernelPrivate* private_data) {
+  struct ArrowArray tmp;
+  tmp.release = NULL;
+  private_data->finish_push_batch(private_data, &tmp, NULL);
+  if (tmp.release != NULL) {
+    tmp.release(&tmp);
+  }
+}
+
 static int kernel_push_batch(struct GeoArrowKernel* kernel, struct ArrowArray* array,
                              struct ArrowArray* out, struct GeoArrowError* error) {
   struct GeoArrowVisitorKernelPrivate* private_data =
@@ -196,8 +207,12 @@ static int kernel_push_batch(struct GeoArrowKernel* kernel, struct ArrowArray* a
       GeoArrowArrayReaderSetArray(&private_data->reader, array, error));
 
   private_data->v.error = error;
-  NANOARROW_RETURN_NOT_OK(GeoArrowArrayReaderVisit(&private_data->reader, 0,
-                                                   array->length, &private_data->v));
+  int result = GeoArrowArrayReaderVisit(&private_data->reader, 0, array->length,
+                                        &private_data->v);
+  if (result != GEOARROW_OK) {
+    kernel_discard_batch(private_data);
+    return result;
+  }
 
   return private_data->finish_push_batch(private_data, out, error);
 }
@@ -217,8 +232,11 @@ static int kernel_push_batch_by_feature(struct GeoArrowKernel* kernel,
     result = GeoArrowArrayReaderVisit(&private_data->reader, i, 1, &private_data->v);
 
     if (result == EAGAIN) {
-      NANOARROW_RETURN_NOT_OK(private_data->v.feat_end(&private_data->v));
-    } else if (result != NANOARROW_OK) {
+      result = private_data->v.feat_end(&private_data->v);
+    }
+
+    if (result != NANOARROW_OK) {
+      kernel_discard_batch(private_data);
       return result;
     }
   }
-- 
2.43.0


From 7dfe16fa3aae681ce8752471556e071bd10157c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 29/66] fix: compare the value of crs_type when parsing
 metadata

---
 src/geoarrow/metadata.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c6c3c47..faecb8f 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -255,13 +255,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     } else if (k.size_bytes == 10 && strncmp(k.data, "\"crs_type\"", 10) == 0) {
       if (v.data[0] == '\"') {
-        if (v.size_bytes == 10 && strncmp(k.data, "\"projjson\"", 10)) {
+        if (v.size_bytes == 10 && strncmp(v.data, "\"projjson\"", 10) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_PROJJSON;
-        } else if (v.size_bytes == 11 && strncmp(k.data, "\"wkt2:2019\"", 11)) {
+        } else if (v.size_bytes == 11 && strncmp(v.data, "\"wkt2:2019\"", 11) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_WKT2_2019;
-        } else if (v.size_bytes == 16 && strncmp(k.data, "\"authority_code\"", 16)) {
+        } else if (v.size_bytes == 16 && strncmp(v.data, "\"authority_code\"", 16) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_AUTHORITY_CODE;
-        } else if (v.size_bytes == 6 && strncmp(k.data, "\"srid\"", 6)) {
+        } else if (v.size_bytes == 6 && strncmp(v.data, "\"srid\"", 6) == 0) {
           metadata_view->crs_type = GEOARROW_CRS_TYPE_SRID;
         } else {
           // Accept unrecognized string values but ignore them
-- 
2.43.0


From 1bdbc93ce29a14c692a0fa98ae900c6f4572a0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 30/66] fix: don't read past the end of truncated metadata or
 loop on a NUL

---
 src/geoarrow/metadata.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index faecb8f..516abd0 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -74,7 +74,7 @@ static GeoArrowErrorCode FindNull(struct ArrowStringView* s,
 static GeoArrowErrorCode FindString(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '\"') {
+  if (s->size_bytes == 0 || s->data[0] != '\"') {
     return EINVAL;
   }
 
@@ -112,7 +112,7 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
 static GeoArrowErrorCode FindList(struct ArrowStringView* s,
                                   struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '[') {
+  if (s->size_bytes == 0 || s->data[0] != '[') {
     return EINVAL;
   }
 
@@ -140,6 +140,8 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
         default:
           break;
       }
+    } else {
+      return EINVAL;
     }
   }
 
@@ -149,7 +151,7 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
 static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
                                     struct ArrowStringView* out) {
   out->data = s->data;
-  if (s->data[0] != '{') {
+  if (s->size_bytes == 0 || s->data[0] != '{') {
     return EINVAL;
   }
 
@@ -177,6 +179,8 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
         default:
           break;
       }
+    } else {
+      return EINVAL;
     }
   }
 
@@ -197,6 +201,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
     NANOARROW_RETURN_NOT_OK(ParseChar(s, ':'));
     SkipWhitespace(s);
 
+    if (s->size_bytes == 0) {
+      return EINVAL;
+    }
+
     switch (s->data[0]) {
       case '[':
         NANOARROW_RETURN_NOT_OK(FindList(s, &v));
@@ -273,7 +281,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     }
 
-    SkipUntil(s, ",}");
+    if (!SkipUntil(s, ",}")) {
+      return EINVAL;
+    }
+
     if (s->data[0] == ',') {
       s->size_bytes--;
       s->data++;
-- 
2.43.0


From 1eb43f92b24a472ac5a96966cc52f0ffe0c5361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 31/66] fix: limit the nesting depth of metadata values

---
 src/geoarrow/metadata.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 516abd0..aa06c0a 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -106,13 +106,16 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
   return EINVAL;
 }
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out);
+// The maximum nesting depth of lists and objects in a metadata value
+#define GEOARROW_METADATA_MAX_DEPTH 512
 
-static GeoArrowErrorCode FindList(struct ArrowStringView* s,
-                                  struct ArrowStringView* out) {
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
+                                    int depth);
+
+static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringView* out,
+                                  int depth) {
   out->data = s->data;
-  if (s->size_bytes == 0 || s->data[0] != '[') {
+  if (s->size_bytes == 0 || s->data[0] != '[' || depth > GEOARROW_METADATA_MAX_DEPTH) {
     return EINVAL;
   }
 
@@ -127,10 +130,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, depth + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, depth + 1));
           break;
         case ']':
           s->size_bytes--;
@@ -148,10 +151,10 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s,
   return EINVAL;
 }
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
-                                    struct ArrowStringView* out) {
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
+                                    int depth) {
   out->data = s->data;
-  if (s->size_bytes == 0 || s->data[0] != '{') {
+  if (s->size_bytes == 0 || s->data[0] != '{' || depth > GEOARROW_METADATA_MAX_DEPTH) {
     return EINVAL;
   }
 
@@ -166,10 +169,10 @@ static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
           NANOARROW_RETURN_NOT_OK(FindString(s, &tmp_value));
           break;
         case '[':
-          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindList(s, &tmp_value, depth + 1));
           break;
         case '{':
-          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value));
+          NANOARROW_RETURN_NOT_OK(FindObject(s, &tmp_value, depth + 1));
           break;
         case '}':
           s->size_bytes--;
@@ -207,10 +210,10 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
 
     switch (s->data[0]) {
       case '[':
-        NANOARROW_RETURN_NOT_OK(FindList(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindList(s, &v, 1));
         break;
       case '{':
-        NANOARROW_RETURN_NOT_OK(FindObject(s, &v));
+        NANOARROW_RETURN_NOT_OK(FindObject(s, &v, 1));
         break;
       case '\"':
         NANOARROW_RETURN_NOT_OK(FindString(s, &v));
-- 
2.43.0


From 1ea41be7b0dca8ebae72cda8f9c1a86c4eee0cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 32/66] fix: reject metadata with malformed separators between
 members

---
 src/geoarrow/metadata.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index aa06c0a..c7bcbce 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -197,7 +197,11 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
   struct ArrowStringView k;
   struct ArrowStringView v;
 
-  while (s->size_bytes > 0 && s->data[0] != '}') {
+  if (ParseChar(s, '}') == GEOARROW_OK) {
+    return GEOARROW_OK;
+  }
+
+  while (1) {
     SkipWhitespace(s);
     NANOARROW_RETURN_NOT_OK(FindString(s, &k));
     SkipWhitespace(s);
@@ -284,23 +288,13 @@ static GeoArrowErrorCode ParseJSONMetadata(struct GeoArrowMetadataView* metadata
       }
     }
 
-    if (!SkipUntil(s, ",}")) {
-      return EINVAL;
-    }
-
-    if (s->data[0] == ',') {
-      s->size_bytes--;
-      s->data++;
+    SkipWhitespace(s);
+    if (ParseChar(s, ',') != GEOARROW_OK) {
+      break;
     }
   }
 
-  if (s->size_bytes > 0 && s->data[0] == '}') {
-    s->size_bytes--;
-    s->data++;
-    return GEOARROW_OK;
-  } else {
-    return EINVAL;
-  }
+  return ParseChar(s, '}');
 }
 
 static GeoArrowErrorCode GeoArrowMetadataViewInitJSON(
-- 
2.43.0


From ad492e861f003f0f7f58c9483bbb4af3dabe75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 33/66] fix: escape backslashes in the CRS when serializing
 metadata

---
 src/geoarrow/metadata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index c7bcbce..0c0baf2 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -457,7 +457,7 @@ static int64_t GeoArrowMetadataSerializeInternal(
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
-        if (val == '"') {
+        if (val == '\\' || val == '"') {
           *out++ = '\\';
         }
 
-- 
2.43.0


From 1f148a753fb3a35b2a2e8198caea8b8f23fa95c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:10 +0000
Subject: [PATCH 34/66] fix: write and read escaped control characters in the
 CRS

---
 src/geoarrow/metadata.c | 138 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 122 insertions(+), 16 deletions(-)

diff --git a/src/geoarrow/metadata.c b/src/geoarrow/metadata.c
index 0c0baf2..410e420 100644
--- a/src/geoarrow/metadata.c
+++ b/src/geoarrow/metadata.c
@@ -109,8 +109,8 @@ static GeoArrowErrorCode FindString(struct ArrowStringView* s,
 // The maximum nesting depth of lists and objects in a metadata value
 #define GEOARROW_METADATA_MAX_DEPTH 512
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
-                                    int depth);
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
+                                    struct ArrowStringView* out, int depth);
 
 static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringView* out,
                                   int depth) {
@@ -151,8 +151,8 @@ static GeoArrowErrorCode FindList(struct ArrowStringView* s, struct ArrowStringV
   return EINVAL;
 }
 
-static GeoArrowErrorCode FindObject(struct ArrowStringView* s, struct ArrowStringView* out,
-                                    int depth) {
+static GeoArrowErrorCode FindObject(struct ArrowStringView* s,
+                                    struct ArrowStringView* out, int depth) {
   out->data = s->data;
   if (s->size_bytes == 0 || s->data[0] != '{' || depth > GEOARROW_METADATA_MAX_DEPTH) {
     return EINVAL;
@@ -386,7 +386,12 @@ static int64_t GeoArrowMetadataCalculateSerializedSize(
       size_out += kSizeQuotes + metadata_view->crs.size_bytes;
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
-        size_out += val == '\\' || val == '"';
+        if (val == '\\' || val == '"') {
+          size_out += 1;
+        } else if ((unsigned char)val < 0x20) {
+          // Written as \u00XX
+          size_out += 5;
+        }
       }
     } else {
       size_out += metadata_view->crs.size_bytes;
@@ -457,6 +462,14 @@ static int64_t GeoArrowMetadataSerializeInternal(
       *out++ = '"';
       for (int64_t i = 0; i < metadata_view->crs.size_bytes; i++) {
         char val = metadata_view->crs.data[i];
+        if ((unsigned char)val < 0x20) {
+          const char* kHexDigits = "0123456789abcdef";
+          GeoArrowWriteString("\\u00", &out);
+          *out++ = kHexDigits[(val >> 4) & 0x0f];
+          *out++ = kHexDigits[val & 0x0f];
+          continue;
+        }
+
         if (val == '\\' || val == '"') {
           *out++ = '\\';
         }
@@ -552,6 +565,52 @@ GeoArrowErrorCode GeoArrowSchemaSetMetadataFrom(struct ArrowSchema* schema,
   return result;
 }
 
+// Parse the four hex digits of a \uXXXX escape, returning -1 if there are fewer than four
+static int32_t GeoArrowParseHex4(const char* data, int64_t n) {
+  if (n < 4) {
+    return -1;
+  }
+
+  int32_t value = 0;
+  for (int i = 0; i < 4; i++) {
+    char c = data[i];
+    if (c >= '0' && c <= '9') {
+      value = value * 16 + (c - '0');
+    } else if (c >= 'a' && c <= 'f') {
+      value = value * 16 + (c - 'a' + 10);
+    } else if (c >= 'A' && c <= 'F') {
+      value = value * 16 + (c - 'A' + 10);
+    } else {
+      return -1;
+    }
+  }
+
+  return value;
+}
+
+// Encode a code point as UTF-8, returning the number of bytes
+static int GeoArrowEncodeUtf8(int32_t code_point, char* out) {
+  if (code_point < 0x80) {
+    out[0] = (char)code_point;
+    return 1;
+  } else if (code_point < 0x800) {
+    out[0] = (char)(0xc0 | (code_point >> 6));
+    out[1] = (char)(0x80 | (code_point & 0x3f));
+    return 2;
+  } else if (code_point < 0x10000) {
+    out[0] = (char)(0xe0 | (code_point >> 12));
+    out[1] = (char)(0x80 | ((code_point >> 6) & 0x3f));
+    out[2] = (char)(0x80 | (code_point & 0x3f));
+    return 3;
+  } else {
+    out[0] = (char)(0xf0 | (code_point >> 18));
+    out[1] = (char)(0x80 | ((code_point >> 12) & 0x3f));
+    out[2] = (char)(0x80 | ((code_point >> 6) & 0x3f));
+    out[3] = (char)(0x80 | (code_point & 0x3f));
+    return 4;
+  }
+}
+
 int64_t GeoArrowUnescapeCrs(struct GeoArrowStringView crs, char* out, int64_t n) {
   if (crs.size_bytes == 0) {
     if (n > 0) {
@@ -572,20 +631,67 @@ int64_t GeoArrowUnescapeCrs(struct GeoArrowStringView crs, char* out, int64_t n)
   }
 
   int64_t out_i = 0;
-  int is_escape = 0;
-  for (int64_t i = 1; i < (crs.size_bytes - 1); i++) {
-    if (!is_escape && crs.data[i] == '\\') {
-      is_escape = 1;
-      continue;
-    } else {
-      is_escape = 0;
-    }
+  int64_t end = crs.size_bytes - 1;
+  for (int64_t i = 1; i < end; i++) {
+    char value[4];
+    int value_size = 1;
+    value[0] = crs.data[i];
+
+    if (value[0] == '\\') {
+      i++;
+      if (i >= end) {
+        break;
+      }
 
-    if (out_i < n) {
-      out[out_i] = crs.data[i];
+      value[0] = crs.data[i];
+      switch (value[0]) {
+        case 'b':
+          value[0] = '\b';
+          break;
+        case 'f':
+          value[0] = '\f';
+          break;
+        case 'n':
+          value[0] = '\n';
+          break;
+        case 'r':
+          value[0] = '\r';
+          break;
+        case 't':
+          value[0] = '\t';
+          break;
+        case 'u': {
+          int32_t code_point = GeoArrowParseHex4(crs.data + i + 1, end - i - 1);
+          if (code_point < 0) {
+            break;
+          }
+
+          i += 4;
+          // A high surrogate forms one code point with the low surrogate that follows it
+          if (code_point >= 0xd800 && code_point < 0xdc00 && (end - i) > 2 &&
+              crs.data[i + 1] == '\\' && crs.data[i + 2] == 'u') {
+            int32_t low = GeoArrowParseHex4(crs.data + i + 3, end - i - 3);
+            if (low >= 0xdc00 && low < 0xe000) {
+              code_point = 0x10000 + ((code_point - 0xd800) << 10) + (low - 0xdc00);
+              i += 6;
+            }
+          }
+
+          value_size = GeoArrowEncodeUtf8(code_point, value);
+          break;
+        }
+        default:
+          break;
+      }
     }
 
-    out_i++;
+    for (int j = 0; j < value_size; j++) {
+      if (out_i < n) {
+        out[out_i] = value[j];
+      }
+
+      out_i++;
+    }
   }
 
   if (out_i < n) {
-- 
2.43.0


From 86709237c21441e7a10089c3dbfd54772391264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 35/66] fix: require the exact extension name for geoarrow.wkb

---
 src/geoarrow/schema_view.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index 85c1a64..b4757f1 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -312,7 +312,7 @@ static GeoArrowErrorCode GeoArrowSchemaViewInitInternal(
     schema_view->geometry_type = GeoArrowGeometryTypeFromType(schema_view->type);
     schema_view->dimensions = GeoArrowDimensionsFromType(schema_view->type);
     schema_view->coord_type = GeoArrowCoordTypeFromType(schema_view->type);
-  } else if (ext_len >= 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
+  } else if (ext_len == 12 && strncmp(ext_name, "geoarrow.wkb", 12) == 0) {
     switch (na_schema_view->type) {
       case NANOARROW_TYPE_BINARY:
         schema_view->type = GEOARROW_TYPE_WKB;
-- 
2.43.0


From 2407198738a510013ae68bec0f37011ba7ffad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 36/66] fix: reject schemas with released children

---
 src/geoarrow/schema_view.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/geoarrow/schema_view.c b/src/geoarrow/schema_view.c
index b4757f1..865e273 100644
--- a/src/geoarrow/schema_view.c
+++ b/src/geoarrow/schema_view.c
@@ -6,10 +6,23 @@
 #include "geoarrow/geoarrow.h"
 #include "nanoarrow/nanoarrow.h"
 
+static int GeoArrowCheckChildren(const struct ArrowSchema* schema,
+                                 struct ArrowError* error) {
+  for (int64_t i = 0; i < schema->n_children; i++) {
+    if (schema->children[i] == NULL || schema->children[i]->release == NULL) {
+      ArrowErrorSet(error, "Expected valid child %d but found a released schema", (int)i);
+      return EINVAL;
+    }
+  }
+
+  return GEOARROW_OK;
+}
+
 static int GeoArrowParsePointFixedSizeList(const struct ArrowSchema* schema,
                                            struct GeoArrowSchemaView* schema_view,
                                            struct ArrowError* error,
                                            const char* ext_name) {
+  NANOARROW_RETURN_NOT_OK(GeoArrowCheckChildren(schema, error));
   if (schema->n_children != 1 || strcmp(schema->children[0]->format, "g") != 0) {
     ArrowErrorSet(
         error,
@@ -70,6 +83,7 @@ static int GeoArrowParsePointFixedSizeList(const struct ArrowSchema* schema,
 static int GeoArrowParsePointStruct(const struct ArrowSchema* schema,
                                     struct GeoArrowSchemaView* schema_view,
                                     struct ArrowError* error, const char* ext_name) {
+  NANOARROW_RETURN_NOT_OK(GeoArrowCheckChildren(schema, error));
   if (schema->n_children < 2 || schema->n_children > 4) {
     ArrowErrorSet(
         error,
@@ -146,6 +160,7 @@ static GeoArrowErrorCode GeoArrowParseNestedSchema(const struct ArrowSchema* sch
       return EINVAL;
     }
 
+    NANOARROW_RETURN_NOT_OK(GeoArrowCheckChildren(schema, error));
     return GeoArrowParseNestedSchema(schema->children[0], n - 1, schema_view, error,
                                      ext_name);
   }
-- 
2.43.0


From 8f4b256ba3bdc89118df2103fa1ec6c4ca1e575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 37/66] fix: don't export a validity buffer that was only
 reserved

---
 src/geoarrow/builder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 86e548b..f6935a3 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -266,6 +266,11 @@ GeoArrowErrorCode GeoArrowBuilderFinish(struct GeoArrowBuilder* builder,
   NANOARROW_RETURN_NOT_OK(
       ArrowArrayFinishBuildingDefault(&private->array, (struct ArrowError*)error));
 
+  // A validity buffer that was reserved but never written is omitted
+  if (builder->view.buffers[0].size_bytes == 0) {
+    private->array.buffers[0] = NULL;
+  }
+
   // If the first buffer is non-null, we don't know what it is
   if (private->array.buffers[0] != NULL) {
     private->array.null_count = -1;
-- 
2.43.0


From 89eae6df3c9ae09bad86777a49772f7ef3220576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 38/66] fix: free a nanoarrow buffer when its reallocation
 fails

---
 src/vendor/nanoarrow/nanoarrow.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index da621c9..abe98c0 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -225,7 +225,13 @@ static uint8_t* ArrowBufferAllocatorMallocReallocate(
     int64_t new_size) {
   NANOARROW_UNUSED(allocator);
   NANOARROW_UNUSED(old_size);
-  return (uint8_t*)ArrowRealloc(ptr, new_size);
+  uint8_t* new_ptr = (uint8_t*)ArrowRealloc(ptr, new_size);
+  if (new_ptr == NULL && new_size > 0) {
+    // Callers replace ptr with the result even if it is NULL
+    ArrowFree(ptr);
+  }
+
+  return new_ptr;
 }
 
 static void ArrowBufferAllocatorMallocFree(struct ArrowBufferAllocator* allocator,
-- 
2.43.0


From b90c0d83f7a967a7f238aefae504af47345ba491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 39/66] fix: check the allocation of nanoarrow's buffer
 pointers

---
 src/vendor/nanoarrow/nanoarrow.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index abe98c0..6f65293 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -2464,6 +2464,12 @@ ArrowErrorCode ArrowArrayInitFromType(struct ArrowArray* array,
   ArrowBufferInit(&private_data->buffers[1]);
   private_data->buffer_data =
       (const void**)ArrowMalloc(sizeof(void*) * NANOARROW_MAX_FIXED_BUFFERS);
+  if (private_data->buffer_data == NULL) {
+    ArrowFree(private_data);
+    array->release = NULL;
+    return ENOMEM;
+  }
+
   for (int i = 0; i < NANOARROW_MAX_FIXED_BUFFERS; ++i) {
     private_data->buffer_data[i] = NULL;
   }
-- 
2.43.0


From 00dfa936ff655ba5aee602bf773d24f205fb99e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 40/66] fix: release the array view if nanoarrow can't
 initialize an array from it

---
 src/vendor/nanoarrow/nanoarrow.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index 6f65293..4c4e33c 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -2563,7 +2563,13 @@ ArrowErrorCode ArrowArrayInitFromSchema(struct ArrowArray* array,
                                         struct ArrowError* error) {
   struct ArrowArrayView array_view;
   NANOARROW_RETURN_NOT_OK(ArrowArrayViewInitFromSchema(&array_view, schema, error));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromArrayView(array, &array_view, error));
+
+  int result = ArrowArrayInitFromArrayView(array, &array_view, error);
+  if (result != NANOARROW_OK) {
+    ArrowArrayViewReset(&array_view);
+    return result;
+  }
+
   if (array_view.storage_type == NANOARROW_TYPE_DENSE_UNION ||
       array_view.storage_type == NANOARROW_TYPE_SPARSE_UNION) {
     struct ArrowArrayPrivateData* private_data =
-- 
2.43.0


From a9f6d4eeda20a551ab8e1599c0e985cc39cbdf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 41/66] fix: leave a nanoarrow buffer as it is if it can't be
 reallocated

---
 src/vendor/nanoarrow/nanoarrow.c | 19 +++++++------------
 src/vendor/nanoarrow/nanoarrow.h | 22 ++++++++++++----------
 2 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index 4c4e33c..dab3264 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -225,13 +225,7 @@ static uint8_t* ArrowBufferAllocatorMallocReallocate(
     int64_t new_size) {
   NANOARROW_UNUSED(allocator);
   NANOARROW_UNUSED(old_size);
-  uint8_t* new_ptr = (uint8_t*)ArrowRealloc(ptr, new_size);
-  if (new_ptr == NULL && new_size > 0) {
-    // Callers replace ptr with the result even if it is NULL
-    ArrowFree(ptr);
-  }
-
-  return new_ptr;
+  return (uint8_t*)ArrowRealloc(ptr, new_size);
 }
 
 static void ArrowBufferAllocatorMallocFree(struct ArrowBufferAllocator* allocator,
@@ -253,6 +247,9 @@ struct ArrowBufferAllocator ArrowBufferAllocatorDefault(void) {
 static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* allocator,
                                                  uint8_t* ptr, int64_t old_size,
                                                  int64_t new_size) {
+  NANOARROW_UNUSED(allocator);
+  NANOARROW_UNUSED(ptr);
+  NANOARROW_UNUSED(old_size);
   NANOARROW_UNUSED(new_size);
 
   // Attempting to reallocate a buffer with a custom deallocator is
@@ -263,11 +260,9 @@ static uint8_t* ArrowBufferDeallocatorReallocate(struct ArrowBufferAllocator* al
                           "ArrowBufferDeallocator()");
 #endif
 
-  // In release mode, ensure the the deallocator is called exactly
-  // once using the pointer it was given and return NULL, which
-  // will trigger the caller to return ENOMEM.
-  allocator->free(allocator, ptr, old_size);
-  *allocator = ArrowBufferAllocatorDefault();
+  // In release mode, return NULL, which will trigger the caller to return
+  // ENOMEM and leave the buffer as it is (i.e., the deallocator is called
+  // exactly once when the buffer is reset).
   return NULL;
 }
 
diff --git a/src/vendor/nanoarrow/nanoarrow.h b/src/vendor/nanoarrow/nanoarrow.h
index 61cf62f..fc09596 100644
--- a/src/vendor/nanoarrow/nanoarrow.h
+++ b/src/vendor/nanoarrow/nanoarrow.h
@@ -2535,15 +2535,16 @@ static inline ArrowErrorCode ArrowBufferResize(struct ArrowBuffer* buffer,
                            (shrink_to_fit && new_size_bytes < buffer->capacity_bytes);
 
   if (needs_reallocation) {
-    buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                                buffer->capacity_bytes, new_size_bytes);
+    uint8_t* new_data =
+        buffer->allocator.reallocate(&buffer->allocator, buffer->data,
+                                     buffer->capacity_bytes, new_size_bytes);
 
-    if (buffer->data == NULL && new_size_bytes > 0) {
-      buffer->capacity_bytes = 0;
-      buffer->size_bytes = 0;
+    // The original allocation is still valid if it could not be reallocated
+    if (new_data == NULL && new_size_bytes > 0) {
       return ENOMEM;
     }
 
+    buffer->data = new_data;
     buffer->capacity_bytes = new_size_bytes;
   }
 
@@ -2560,15 +2561,16 @@ static inline ArrowErrorCode ArrowBufferReserve(struct ArrowBuffer* buffer,
 
   int64_t new_capacity_bytes =
       _ArrowGrowByFactor(buffer->capacity_bytes, min_capacity_bytes);
-  buffer->data = buffer->allocator.reallocate(&buffer->allocator, buffer->data,
-                                              buffer->capacity_bytes, new_capacity_bytes);
+  uint8_t* new_data =
+      buffer->allocator.reallocate(&buffer->allocator, buffer->data,
+                                   buffer->capacity_bytes, new_capacity_bytes);
 
-  if (buffer->data == NULL && new_capacity_bytes > 0) {
-    buffer->capacity_bytes = 0;
-    buffer->size_bytes = 0;
+  // The original allocation is still valid if it could not be reallocated
+  if (new_data == NULL && new_capacity_bytes > 0) {
     return ENOMEM;
   }
 
+  buffer->data = new_data;
   buffer->capacity_bytes = new_capacity_bytes;
   return NANOARROW_OK;
 }
-- 
2.43.0


From 6839a2b0293dd8ac2c980483a23c8a27a6a8e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 42/66] fix: release a schema that can't be initialized

---
 src/geoarrow/schema.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/geoarrow/schema.c b/src/geoarrow/schema.c
index 935537f..293c71e 100644
--- a/src/geoarrow/schema.c
+++ b/src/geoarrow/schema.c
@@ -109,9 +109,8 @@ static GeoArrowErrorCode GeoArrowSchemaInitListOf(struct ArrowSchema* schema,
 #define CHILD_NAMES_MULTIPOLYGON \
   (const char*[]) { "polygons", "rings", "vertices" }
 
-GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
-  schema->release = NULL;
-
+static GeoArrowErrorCode GeoArrowSchemaInitInternal(struct ArrowSchema* schema,
+                                                    enum GeoArrowType type) {
   switch (type) {
     case GEOARROW_TYPE_WKB:
       return ArrowSchemaInitFromType(schema, NANOARROW_TYPE_BINARY);
@@ -205,8 +204,21 @@ GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowTy
   return NANOARROW_OK;
 }
 
+GeoArrowErrorCode GeoArrowSchemaInit(struct ArrowSchema* schema, enum GeoArrowType type) {
+  schema->release = NULL;
+
+  int result = GeoArrowSchemaInitInternal(schema, type);
+  if (result != GEOARROW_OK && schema->release != NULL) {
+    schema->release(schema);
+  }
+
+  return result;
+}
+
 GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
                                               enum GeoArrowType type) {
+  schema->release = NULL;
+
   const char* ext_type = GeoArrowExtensionNameFromType(type);
   if (ext_type == NULL) {
     return EINVAL;
@@ -236,5 +248,9 @@ GeoArrowErrorCode GeoArrowSchemaInitExtension(struct ArrowSchema* schema,
 
   result = ArrowSchemaSetMetadata(schema, (const char*)metadata.data);
   ArrowBufferReset(&metadata);
+  if (result != NANOARROW_OK) {
+    schema->release(schema);
+  }
+
   return result;
 }
-- 
2.43.0


From d6e3491a1b435b390396f2b19dce267cd7c6fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 43/66] fix: keep the builder usable if GeoArrowBuilderFinish()
 can't allocate

---
 src/geoarrow/builder.c | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index f6935a3..073f72c 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -19,13 +19,9 @@ struct BuilderPrivate {
   struct ArrowBuffer* buffers[9];
 };
 
-static ArrowErrorCode GeoArrowBuilderInitArrayAndCachePointers(
-    struct GeoArrowBuilder* builder) {
+static ArrowErrorCode GeoArrowBuilderCachePointers(struct GeoArrowBuilder* builder) {
   struct BuilderPrivate* private = (struct BuilderPrivate*)builder->private_data;
 
-  NANOARROW_RETURN_NOT_OK(
-      ArrowArrayInitFromSchema(&private->array, &private->schema, NULL));
-
   private->validity = ArrowArrayValidityBitmap(&private->array);
 
   struct _GeoArrowFindBufferResult res;
@@ -102,11 +98,13 @@ static GeoArrowErrorCode GeoArrowBuilderInitInternal(struct GeoArrowBuilder* bui
   }
 
   // Initialize an empty array; cache the ArrowBitmap and ArrowBuffer pointers we need
-  result = GeoArrowBuilderInitArrayAndCachePointers(builder);
+  result = ArrowArrayInitFromSchema(&private->array, &private->schema, NULL);
+  if (result == GEOARROW_OK) {
+    result = GeoArrowBuilderCachePointers(builder);
+  }
+
   if (result != GEOARROW_OK) {
-    private->schema.release(&private->schema);
-    ArrowFree(private);
-    builder->private_data = NULL;
+    GeoArrowBuilderReset(builder);
     return result;
   }
 
@@ -276,20 +274,14 @@ GeoArrowErrorCode GeoArrowBuilderFinish(struct GeoArrowBuilder* builder,
     private->array.null_count = -1;
   }
 
-  // Move the result out of private so we can maybe prepare for the next round
-  struct ArrowArray tmp;
-  ArrowArrayMove(&private->array, &tmp);
-
-  // Prepare for another round of building
-  int result = GeoArrowBuilderInitArrayAndCachePointers(builder);
-  if (result != GEOARROW_OK) {
-    tmp.release(&tmp);
-    return result;
-  }
+  // Prepare for another round of building before giving up what was built
+  struct ArrowArray next;
+  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromSchema(&next, &private->schema, NULL));
 
   // Move the result
-  ArrowArrayMove(&tmp, array);
-  return GEOARROW_OK;
+  ArrowArrayMove(&private->array, array);
+  ArrowArrayMove(&next, &private->array);
+  return GeoArrowBuilderCachePointers(builder);
 }
 
 void GeoArrowBuilderReset(struct GeoArrowBuilder* builder) {
-- 
2.43.0


From 466ddc3b0253a72d7dc500c53f60bac8510c2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 44/66] fix: keep the coordinate pointers valid if
 GeoArrowBuilderCoordsReserve() fails

---
 src/geoarrow/geoarrow_type_inline.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geoarrow/geoarrow_type_inline.h b/src/geoarrow/geoarrow_type_inline.h
index 6e1a439..261c9bb 100644
--- a/src/geoarrow/geoarrow_type_inline.h
+++ b/src/geoarrow/geoarrow_type_inline.h
@@ -762,15 +762,15 @@ static inline GeoArrowErrorCode GeoArrowBuilderCoordsReserve(
         if (result != GEOARROW_OK) {
           return result;
         }
+
+        // Sync the pointer back to the writable view
+        writable_view->values[i - (last_buffer - n_values + 1)] =
+            builder->view.buffers[i].data.as_double;
       }
 
-      // Sync the capacity and pointers back to the writable view
+      // Sync the capacity back to the writable view
       writable_view->capacity_coords =
           builder->view.buffers[last_buffer].capacity_bytes / sizeof(double);
-      for (int i = 0; i < n_values; i++) {
-        writable_view->values[i] =
-            builder->view.buffers[last_buffer - n_values + 1 + i].data.as_double;
-      }
 
       return GEOARROW_OK;
     default:
-- 
2.43.0


From 0b6fa60e70bad177f12be5918c3774b7a13472a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 45/66] fix: don't append the validity buffer twice if
 GeoArrowNativeWriterFinish() is retried

---
 src/geoarrow/native_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 23f4587..6330093 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -280,6 +280,7 @@ GeoArrowErrorCode GeoArrowNativeWriterFinish(struct GeoArrowNativeWriter* writer
   struct GeoArrowBufferView validity_view;
   validity_view.data = private_data->validity.buffer.data;
   validity_view.size_bytes = private_data->validity.buffer.size_bytes;
+  private_data->builder.view.buffers[0].size_bytes = 0;
   if (validity_view.size_bytes > 0) {
     GEOARROW_RETURN_NOT_OK(
         GeoArrowBuilderAppendBuffer(&private_data->builder, 0, validity_view));
-- 
2.43.0


From 8d071ef625d6c1bbdcb78b13365b666779fbde47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 46/66] fix: don't leave a dangling pointer in a native writer
 that was reset

---
 src/geoarrow/native_writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 6330093..7565325 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -237,6 +237,7 @@ void GeoArrowNativeWriterReset(struct GeoArrowNativeWriter* writer) {
   GeoArrowBuilderReset(&private_data->builder);
   ArrowBitmapReset(&private_data->validity);
   ArrowFree(private_data);
+  writer->private_data = NULL;
 }
 
 static GeoArrowErrorCode GeoArrowNativeWriterEnsureOutputInitialized(
-- 
2.43.0


From 0e5143bfc9c2d4920d4d5744feadac03a865f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 47/66] fix: handle allocation failures when finishing the box
 kernels

---
 src/geoarrow/kernel.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/kernel.c b/src/geoarrow/kernel.c
index 53ebd6d..6bb395a 100644
--- a/src/geoarrow/kernel.c
+++ b/src/geoarrow/kernel.c
@@ -544,13 +544,20 @@ static ArrowErrorCode box_finish(struct GeoArrowVisitorKernelPrivate* private_da
     if (tmp.release != NULL) {
       tmp.release(&tmp);
     }
+
+    return result;
   }
 
   int64_t length = private_data->box2d_private.values[0].size_bytes / sizeof(double);
 
   for (int i = 0; i < 4; i++) {
-    NANOARROW_RETURN_NOT_OK(
-        ArrowArraySetBuffer(tmp.children[i], 1, &private_data->box2d_private.values[i]));
+    result =
+        ArrowArraySetBuffer(tmp.children[i], 1, &private_data->box2d_private.values[i]);
+    if (result != GEOARROW_OK) {
+      tmp.release(&tmp);
+      return result;
+    }
+
     tmp.children[i]->length = length;
   }
 
-- 
2.43.0


From 5824e41fb2314e172849767f9059bde3a293ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 48/66] fix: don't leak the children that nanoarrow could
 allocate for an array

---
 src/vendor/nanoarrow/nanoarrow.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vendor/nanoarrow/nanoarrow.c b/src/vendor/nanoarrow/nanoarrow.c
index dab3264..0c283b4 100644
--- a/src/vendor/nanoarrow/nanoarrow.c
+++ b/src/vendor/nanoarrow/nanoarrow.c
@@ -2596,6 +2596,7 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
   }
 
   memset(array->children, 0, n_children * sizeof(struct ArrowArray*));
+  array->n_children = n_children;
 
   for (int64_t i = 0; i < n_children; i++) {
     array->children[i] = (struct ArrowArray*)ArrowMalloc(sizeof(struct ArrowArray));
@@ -2605,7 +2606,6 @@ ArrowErrorCode ArrowArrayAllocateChildren(struct ArrowArray* array, int64_t n_ch
     array->children[i]->release = NULL;
   }
 
-  array->n_children = n_children;
   return NANOARROW_OK;
 }
 
-- 
2.43.0


From 45a39b2e6819304cd206c6311ff386ce1de5ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 49/66] fix: don't count coordinates that could not be appended
 to a point array

---
 src/geoarrow/native_writer.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/native_writer.c b/src/geoarrow/native_writer.c
index 7565325..eeb5513 100644
--- a/src/geoarrow/native_writer.c
+++ b/src/geoarrow/native_writer.c
@@ -637,9 +637,11 @@ static int coords_point(struct GeoArrowVisitor* v,
   struct GeoArrowNativeWriterPrivate* private_data =
       (struct GeoArrowNativeWriterPrivate*)writer->private_data;
   GEOARROW_RETURN_NOT_OK(GeoArrowNativeWriterCheckFeature(private_data));
+  GEOARROW_RETURN_NOT_OK(
+      GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
+                                  private_data->last_dimensions, 0, coords->n_coords));
   private_data->size[0] += coords->n_coords;
-  return GeoArrowBuilderCoordsAppend(&private_data->builder, coords,
-                                     private_data->last_dimensions, 0, coords->n_coords);
+  return GEOARROW_OK;
 }
 
 static int ring_end_point(struct GeoArrowVisitor* v) {
-- 
2.43.0


From 6a8db1db1cc5c0b44f91aa805938496d67d92682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 50/66] fix: don't leave an extra offset behind if a WKB or WKT
 array can't be initialized

---
 src/geoarrow/wkb_writer.c | 7 ++++++-
 src/geoarrow/wkt_writer.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/wkb_writer.c b/src/geoarrow/wkb_writer.c
index ae40ae6..4c2c850 100644
--- a/src/geoarrow/wkb_writer.c
+++ b/src/geoarrow/wkb_writer.c
@@ -265,7 +265,12 @@ GeoArrowErrorCode GeoArrowWKBWriterFinish(struct GeoArrowWKBWriter* writer,
 
   NANOARROW_RETURN_NOT_OK(
       ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
+  GeoArrowErrorCode result = ArrowArrayInitFromType(array, private->storage_type);
+  if (result != GEOARROW_OK) {
+    private->offsets.size_bytes -= sizeof(int32_t);
+    return result;
+  }
+
   ArrowArraySetValidityBitmap(array, &private->validity);
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 2, &private->values));
diff --git a/src/geoarrow/wkt_writer.c b/src/geoarrow/wkt_writer.c
index f52e857..eb8317e 100644
--- a/src/geoarrow/wkt_writer.c
+++ b/src/geoarrow/wkt_writer.c
@@ -368,7 +368,12 @@ GeoArrowErrorCode GeoArrowWKTWriterFinish(struct GeoArrowWKTWriter* writer,
   }
   NANOARROW_RETURN_NOT_OK(
       ArrowBufferAppendInt32(&private->offsets, (int32_t) private->values.size_bytes));
-  NANOARROW_RETURN_NOT_OK(ArrowArrayInitFromType(array, private->storage_type));
+  GeoArrowErrorCode result = ArrowArrayInitFromType(array, private->storage_type);
+  if (result != GEOARROW_OK) {
+    private->offsets.size_bytes -= sizeof(int32_t);
+    return result;
+  }
+
   ArrowArraySetValidityBitmap(array, &private->validity);
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 1, &private->offsets));
   NANOARROW_RETURN_NOT_OK(ArrowArraySetBuffer(array, 2, &private->values));
-- 
2.43.0


From 19f785e92e4969ef1692d67bce6afdb255472dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 51/66] fix: apply the stride in StridedIterator::operator[]

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index c45c151..dead6b8 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -161,7 +161,7 @@ class StridedIterator {
   bool operator!=(const StridedIterator& other) const { return ptr_ != other.ptr_; }
 
   T operator*() const { return *ptr_; }
-  T operator[](ptrdiff_t i) const { return ptr_[i]; }
+  T operator[](ptrdiff_t i) const { return ptr_[i * stride_]; }
 
   using iterator_category = std::random_access_iterator_tag;
   using difference_type = int64_t;
-- 
2.43.0


From 8dbf4953969d53137a0a0079b33fe5c02107d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 52/66] fix: load the value in UnalignedStridedIterator
 post-increment

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index dead6b8..9d287b3 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -202,7 +202,7 @@ class UnalignedStridedIterator {
     return *this;
   }
   T operator++(int) {
-    T retval = *ptr_;
+    T retval = load_(ptr_);
     ptr_ += stride_;
     return retval;
   }
-- 
2.43.0


From 859663462ea9b25c05ed199b537dd6911597f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 53/66] fix: set all six values of an empty BoxXYZ or BoxXYM

---
 src/geoarrow/hpp/array_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 9d287b3..d72788a 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -433,7 +433,8 @@ struct BoxXYZ : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), zmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), zmax()}; }
   static BoxXYZ Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
@@ -453,7 +454,8 @@ struct BoxXYM : public std::array<T, 6> {
   bound_type lower_bound() const { return {xmin(), ymin(), mmin()}; }
   bound_type upper_bound() const { return {xmax(), ymax(), mmax()}; }
   static BoxXYM Empty() {
-    return {std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity(),
+    return {std::numeric_limits<T>::infinity(),  std::numeric_limits<T>::infinity(),
+            std::numeric_limits<T>::infinity(),  -std::numeric_limits<T>::infinity(),
             -std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity()};
   }
 };
-- 
2.43.0


From 9936422fa3104ca66646046fca6455639a819e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 54/66] fix: keep the loader type in
 UnalignedCoordSequence::Slice

---
 src/geoarrow/hpp/array_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index d72788a..2534657 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -782,8 +782,8 @@ struct UnalignedCoordSequence {
   ///
   /// Caller is responsible for ensuring that offset + length is within the bounds
   /// of this function.
-  UnalignedCoordSequence<Coord> Slice(int64_t offset, int64_t length) const {
-    UnalignedCoordSequence<Coord> out = *this;
+  UnalignedCoordSequence Slice(int64_t offset, int64_t length) const {
+    UnalignedCoordSequence out = *this;
     out.offset += offset;
     out.length = length;
     return out;
-- 
2.43.0


From 2a53cee77fbef4ac1eff7159cdea058447a81867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 55/66] fix: convert coordinates to the requested type when
 visiting edges

---
 src/geoarrow/hpp/array_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 2534657..e48b584 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -640,7 +640,7 @@ struct CoordSequence {
     CoordDst start = CoordCast<Coord, CoordDst>(*it);
     ++it;
     while (it != end()) {
-      CoordDst end = *it;
+      CoordDst end = CoordCast<Coord, CoordDst>(*it);
       func(start, end);
       start = end;
       ++it;
-- 
2.43.0


From 0b82c6029951053d6704f2e2b135575bac8f0b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 56/66] fix: pass the requested coordinate type for degenerate
 edges

---
 src/geoarrow/hpp/array_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index e48b584..8dcbc2c 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -1111,7 +1111,7 @@ struct PointArray : public Array<CoordSequence<Coord>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
@@ -1233,7 +1233,7 @@ struct MultipointArray : public Array<ListSequence<CoordSequence<Coord>>> {
   /// For the purposes of this function, points are considered degenerate edges.
   template <typename CoordDst, typename Func>
   void VisitEdges(Func&& func) const {
-    this->template VisitVertices<CoordDst>([&](Coord coord) { func(coord, coord); });
+    this->template VisitVertices<CoordDst>([&](CoordDst coord) { func(coord, coord); });
   }
 };
 
-- 
2.43.0


From bbab8ecf1eed95840d90de17921e3d4ea118ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 57/66] fix: initialize an UnalignedCoordSequence from a const
 view

---
 src/geoarrow/hpp/array_util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_util.hpp b/src/geoarrow/hpp/array_util.hpp
index 8dcbc2c..a699cbd 100644
--- a/src/geoarrow/hpp/array_util.hpp
+++ b/src/geoarrow/hpp/array_util.hpp
@@ -705,8 +705,9 @@ struct UnalignedCoordSequence {
   }
 
   /// \brief Initialize from a GeoArrowCoordView
-  GeoArrowErrorCode InitFrom(struct GeoArrowCoordView* view) {
-    if (view->n_values < coord_size || !std::is_same<ordinate_type, double>::value) {
+  GeoArrowErrorCode InitFrom(const struct GeoArrowCoordView* view) {
+    if (static_cast<uint32_t>(view->n_values) < coord_size ||
+        !std::is_same<ordinate_type, double>::value) {
       return EINVAL;
     }
 
-- 
2.43.0


From 59992b63d34a073e1ca45a77ea850cef6cfcf453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 58/66] fix: call the right function in
 ArrayWriter::SetFlatMultipoint

---
 src/geoarrow/hpp/array_writer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 12ef329..337125c 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -105,8 +105,8 @@ class ArrayWriter {
   }
 
   void SetFlatMultipoint(bool flat_multipoint) {
-    GEOARROW_THROW_NOT_OK(nullptr,
-                          GeoArrowArrayWriterSetPrecision(&writer_, flat_multipoint));
+    GEOARROW_THROW_NOT_OK(
+        nullptr, GeoArrowArrayWriterSetFlatMultipoint(&writer_, flat_multipoint));
   }
 
   struct GeoArrowVisitor* visitor() {
-- 
2.43.0


From 6cdb701415287866f1d539bcb242f9c03a34da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 59/66] fix: pass the builder's address in
 ArrayBuilder::SetBufferWrapped

---
 src/geoarrow/hpp/array_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/array_writer.hpp b/src/geoarrow/hpp/array_writer.hpp
index 337125c..d8c96eb 100644
--- a/src/geoarrow/hpp/array_writer.hpp
+++ b/src/geoarrow/hpp/array_writer.hpp
@@ -36,7 +36,7 @@ class ArrayBuilder {
   void SetBufferWrapped(int64_t i, T obj, GeoArrowBufferView value) {
     T* obj_moved = new T(std::move(obj));
     GeoArrowErrorCode result = GeoArrowBuilderSetOwnedBuffer(
-        builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
+        &builder_, i, value, &internal::FreeWrappedBuffer<T>, obj_moved);
     if (result != GEOARROW_OK) {
       delete obj_moved;
       throw ::geoarrow::ErrnoException(result, "GeoArrowBuilderSetOwnedBuffer()",
-- 
2.43.0


From 635df613c32219ff25fedf1295f104f53f53ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 60/66] fix: release the previous array in
 ArrayReader::SetArray

---
 src/geoarrow/hpp/array_reader.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/array_reader.hpp b/src/geoarrow/hpp/array_reader.hpp
index 3f812b0..09b016f 100644
--- a/src/geoarrow/hpp/array_reader.hpp
+++ b/src/geoarrow/hpp/array_reader.hpp
@@ -46,6 +46,10 @@ class ArrayReader {
   }
 
   void SetArray(struct ArrowArray* array) {
+    if (array_.array.release != nullptr) {
+      array_.array.release(&array_.array);
+    }
+
     std::memcpy(&array_.array, array, sizeof(struct ArrowArray));
     array->release = nullptr;
     SetArrayNonOwning(&array_.array);
-- 
2.43.0


From 73f0b9d900d8c35b114bfebb38e32a142a2dc2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 61/66] fix: initialize the counts of a WKBGeometry

---
 src/geoarrow/hpp/wkb_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index b82c057..d7ca613 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -256,9 +256,9 @@ class WKBGeometry {
   // Vectors managed privately to ensure that all the stack-allocated memory associated
   // with the geometries is not freed when the vector is resized to zero.
   std::vector<WKBSequence> sequences_;
-  uint32_t num_sequences_;
+  uint32_t num_sequences_{};
   std::vector<WKBGeometry> geometries_;
-  uint32_t num_geometries_;
+  uint32_t num_geometries_{};
 };
 
 /// \brief Parse Well-known binary blobs
-- 
2.43.0


From 96c5d06187e3754578b5502aabd38cb69bffc74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 62/66] fix: reject WKB types of 4000 or more in WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index d7ca613..d3f9dab 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -372,6 +372,8 @@ class WKBParser {
     geometry_type &= kEWKBMask;
 
     switch (geometry_type / 1000) {
+      case 0:
+        break;
       case 1:
         has_z = true;
         break;
@@ -382,6 +384,8 @@ class WKBParser {
         has_z = true;
         has_m = true;
         break;
+      default:
+        return INVALID_GEOMETRY_TYPE;
     }
 
     last_coord_stride_ = 2 + has_z + has_m;
-- 
2.43.0


From c4cb901f7b4bece0a143c027d48c2ee15b211b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 63/66] fix: do not truncate the size of a blob in WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index d3f9dab..437f4b1 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -286,7 +286,7 @@ class WKBParser {
   /// cursor
   Status Parse(struct GeoArrowBufferView data, WKBGeometry* out,
                const uint8_t** cursor = nullptr) {
-    return Parse(data.data, static_cast<uint32_t>(data.size_bytes), out, cursor);
+    return Parse(data.data, static_cast<size_t>(data.size_bytes), out, cursor);
   }
 
   /// \brief Parse the specified bytes into out, placing the end of the sequence in
-- 
2.43.0


From ee2517f8d177fdd7982284d0c3c05aff0ffd03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 64/66] fix: limit the nesting depth in WKBParser

---
 src/geoarrow/hpp/wkb_util.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/geoarrow/hpp/wkb_util.hpp b/src/geoarrow/hpp/wkb_util.hpp
index 437f4b1..4074577 100644
--- a/src/geoarrow/hpp/wkb_util.hpp
+++ b/src/geoarrow/hpp/wkb_util.hpp
@@ -277,9 +277,17 @@ class WKBParser {
     INVALID_ENDIAN,
     /// \brief An unexpected geometry type value was encountered (e.g., corrupted data or
     /// curved/complex geometry)
-    INVALID_GEOMETRY_TYPE
+    INVALID_GEOMETRY_TYPE,
+    /// \brief The geometry is nested more deeply than kMaxLevels
+    TOO_MANY_LEVELS
   };
 
+  /// \brief The number of nested geometries that can be parsed
+  ///
+  /// Parsing, destroying, and visiting a WKBGeometry are all recursive, so that
+  /// the depth that a blob can request must have a limit.
+  static constexpr int kMaxLevels = 255;
+
   WKBParser() = default;
 
   /// \brief Parse a GeoArrowBufferView into out, placing the end of the sequence in
@@ -295,6 +303,7 @@ class WKBParser {
                const uint8_t** cursor = nullptr) {
     data_ = cursor_ = data;
     remaining_ = size;
+    level_ = 0;
     Status status = ParseGeometry(out);
     if (status != OK) {
       return status;
@@ -323,6 +332,8 @@ class WKBParser {
         return "INVALID_ENDIAN";
       case INVALID_GEOMETRY_TYPE:
         return "INVALID_GEOMETRY_TYPE";
+      case TOO_MANY_LEVELS:
+        return "TOO_MANY_LEVELS";
       default:
         return "UNKNOWN";
     }
@@ -332,6 +343,7 @@ class WKBParser {
   const uint8_t* data_{};
   const uint8_t* cursor_{};
   size_t remaining_{};
+  int level_{};
   uint8_t last_endian_;
   enum GeoArrowDimensions last_dimensions_;
   uint32_t last_coord_stride_;
@@ -475,6 +487,11 @@ class WKBParser {
     }
 
     uint32_t size = ReadUInt32Unchecked();
+    if (size > 0 && level_ + 1 >= kMaxLevels) {
+      return TOO_MANY_LEVELS;
+    }
+
+    ++level_;
     for (uint32_t i = 0; i < size; ++i) {
       status = ParseGeometry(out->AppendGeometry());
       if (status != OK) {
@@ -482,6 +499,7 @@ class WKBParser {
       }
     }
 
+    --level_;
     return OK;
   }
 
-- 
2.43.0


From 557ba92bcdbd551054973c6df8dadf80fb305489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 65/66] fix: accept an owned buffer without an address in
 GeoArrowBuilderSetOwnedBuffer()

An empty std::vector has no address. Such a buffer was kept with its custom
deallocator, so that GeoArrowBuilderFinish() failed to allocate it with ENOMEM.
---
 src/geoarrow/builder.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/geoarrow/builder.c b/src/geoarrow/builder.c
index 073f72c..594a923 100644
--- a/src/geoarrow/builder.c
+++ b/src/geoarrow/builder.c
@@ -170,6 +170,17 @@ GeoArrowErrorCode GeoArrowBuilderSetOwnedBuffer(
   struct BuilderPrivate* private = (struct BuilderPrivate*)builder->private_data;
   struct ArrowBuffer* buffer_src = private->buffers[i];
 
+  // An empty buffer may have no address (e.g., an empty std::vector). There is nothing
+  // to keep of it, and the buffer has to be allocated when the array is finished.
+  if (value.data == NULL) {
+    ArrowBufferReset(buffer_src);
+    builder->view.buffers[i].data.data = NULL;
+    builder->view.buffers[i].size_bytes = 0;
+    builder->view.buffers[i].capacity_bytes = 0;
+    custom_free(NULL, 0, private_data);
+    return GEOARROW_OK;
+  }
+
   struct GeoArrowBufferDeallocatorPrivate* deallocator =
       (struct GeoArrowBufferDeallocatorPrivate*)ArrowMalloc(
           sizeof(struct GeoArrowBufferDeallocatorPrivate));
-- 
2.43.0


From e75b101b470b7cb2f931682bb4df6488386bcd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 66/66] fix: reject invalid geometry types in the
 GeoArrowGeometry visitor

The type was cut to eight bits, where an invalid type could be taken
for a point without coordinates pointers: feat_end then divided by zero.
---
 src/geoarrow/geometry.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geoarrow/geometry.c b/src/geoarrow/geometry.c
index 130f372..d03236e 100644
--- a/src/geoarrow/geometry.c
+++ b/src/geoarrow/geometry.c
@@ -257,6 +257,13 @@ static int geom_start_geometry(struct GeoArrowVisitor* v,
     return EINVAL;
   }
 
+  if (geometry_type < GEOARROW_GEOMETRY_TYPE_GEOMETRY ||
+      geometry_type > GEOARROW_GEOMETRY_TYPE_GEOMETRYCOLLECTION) {
+    GeoArrowErrorSet(v->error, "Invalid geometry type in GeoArrowGeometry visitor: %d",
+                     (int)geometry_type);
+    return EINVAL;
+  }
+
   // Reserve space for at least one coordinate before there is a node
   // that refers to it
   double* coords_start;
-- 
2.43.0

