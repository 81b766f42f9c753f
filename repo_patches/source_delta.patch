From b76f56d7b4f6f5f66cd579d1198cb90ac620b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 01/15] fix: count references when TG_NOATOMICS is defined

The increment and decrement moved the pointer and left the counter alone, so
a cloned geometry was never (or prematurely) released.
---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index ca67505..bb6c2fc 100644
--- a/tg.c
+++ b/tg.c
@@ -549,11 +549,11 @@ static void rc_init(rc_t *rc) {
     *rc = 0;
 }
 static void rc_retain(rc_t *rc) {
-    *rc++;
+    (*rc)++;
 }
 static bool rc_release(rc_t *rc) {
-    *rc--;
-    return *rc == 1;
+    (*rc)--;
+    return *rc == 0;
 }
 
 #else
-- 
2.43.0


From 4918dafd61012d74fd79341ae76b5aff16bae1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 02/15] fix: child accessors accept index == count

tg_geom_point_at, line_at, poly_at and geometry_at read one past the end of
the child array.
---
 tg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index bb6c2fc..d81688f 100644
--- a/tg.c
+++ b/tg.c
@@ -5407,7 +5407,7 @@ int tg_geom_num_geometries(const struct tg_geom *geom) {
 struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOINT && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return ((struct boxed_point*)geom->multi->geoms[index])->point;
     }
@@ -5424,7 +5424,7 @@ struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
 const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTILINESTRING && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_line*)geom->multi->geoms[index];
     }
@@ -5441,7 +5441,7 @@ const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
 const struct tg_poly *tg_geom_poly_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOLYGON && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_poly *)geom->multi->geoms[index];
     }
@@ -5463,7 +5463,7 @@ const struct tg_geom *tg_geom_geometry_at(const struct tg_geom *geom,
 {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_GEOMETRYCOLLECTION && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return geom->multi->geoms[index];
     }
-- 
2.43.0


From ffe85e8faf6b5f838444ff516f9158f7b714c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 03/15] fix: copied indexes point into the memory of the
 original

tg_ring_copy, tg_line_copy, tg_poly_copy and tg_geom_copy left ring->index
and the rects of every index level pointing into the source geometry, which
is a use-after-free once the source is freed.
---
 tg.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index d81688f..5b75d1b 100644
--- a/tg.c
+++ b/tg.c
@@ -2140,6 +2140,16 @@ static void fill_index_struct(struct index *index, int nlevels, int nsegs,
     }
 }
 
+// copy_index_struct copies an index to new memory, which must have room for
+// from->memsz bytes. The level rects of the copy are in the new memory too.
+static void copy_index_struct(struct index *index, const struct index *from) {
+    memcpy(index, from, from->memsz);
+    for (int i = 0; i < index->nlevels; i++) {
+        size_t np = (char*)from->levels[i].rects - (char*)from;
+        index->levels[i].rects = (void*)&(((char*)index)[np]);
+    }
+}
+
 static struct tg_ring *series_new(const struct tg_point *points, int npoints, 
     bool closed, enum tg_index ix) 
 {
@@ -15067,6 +15077,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     rc_init(&ring2->head.rc);
     rc_retain(&ring2->head.rc);
     ring2->head.noheap = 0;
+    if (ring->index) {
+        // The index is in the same allocation as the ring.
+        size_t ixoff = (char*)ring->index - (char*)ring;
+        ring2->index = (struct index*)(((char*)ring2)+ixoff);
+        copy_index_struct(ring2->index, ring->index);
+    }
     if (ring->ystripes) {
         ring2->ystripes = tg_malloc(ring->ystripes->memsz);
         if (!ring2->ystripes) {
@@ -15197,8 +15213,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
                 if (!geom2->multi->index) {
                     goto fail;
                 }
-                memcpy(geom2->multi->index, geom->multi->index, 
-                    geom->multi->index->memsz);
+                copy_index_struct(geom2->multi->index, geom->multi->index);
             }
             if (geom->multi->ixgeoms) {
                 geom2->multi->ixgeoms = tg_malloc(
-- 
2.43.0


From 85ffd5bdf62081e4eeb806cf0f9e3fbad8a39b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 04/15] fix: tg_geom_copy fails for an empty LineString or
 Polygon

An empty LineString or Polygon has no line or poly to copy, which was taken
for an out of memory condition.
---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 5b75d1b..2087994 100644
--- a/tg.c
+++ b/tg.c
@@ -15171,13 +15171,13 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         break;
     case TG_LINESTRING:
         geom2->line = tg_line_copy(geom->line);
-        if (!geom2->line) {
+        if (geom->line && !geom2->line) {
             goto fail;
         }
         break;
     case TG_POLYGON:
         geom2->poly = tg_poly_copy(geom->poly);
-        if (!geom2->poly) {
+        if (geom->poly && !geom2->poly) {
             goto fail;
         }
         break;
-- 
2.43.0


From e1396055fb724d1a6281a122f3724fb45289d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 05/15] fix: WKB position count overflows the length check

count*2*8 was computed in 32 bits, so a count of 2^28 or more passed the
check against the remaining length and was read out of bounds.
---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 2087994..b91500f 100644
--- a/tg.c
+++ b/tg.c
@@ -13343,11 +13343,11 @@ static size_t parse_wkb_posns(enum base base, int dims,
     uint32_t count;
     read_uint32(count);
     if (count == 0) return i;
-    if (dims == 2 && !swap && len-i >= count*2*8) {
+    if (dims == 2 && !swap && len-i >= (size_t)count*2*8) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
         *npoints = count;
-        i += count*2*8; 
+        i += (size_t)count*2*8; 
     } else {
         for (uint32_t j = 0 ; j < count; j++) {
             read_posn(posn);
-- 
2.43.0


From d09991d35ff416c0121da853be9fb033e9b00f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 06/15] fix: tg_geobin_fullrect trusts the dims of the data

A dims byte greater than 4 was written past the end of min and max, and a
truncated point returned its dims without filling in min and max.
---
 tg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index b91500f..af1a649 100644
--- a/tg.c
+++ b/tg.c
@@ -15870,13 +15870,17 @@ int tg_geobin_fullrect(const uint8_t *geobin, size_t len, double min[4],
             case 2001: dims = 3; break;
             case 3001: dims = 4; break;
             }
-            if (dims > 0 && len >= 5+8*dims) {
-                memcpy(min, geobin+5, 8*dims);
-                memcpy(max, geobin+5, 8*dims);
+            if (len < 5+8*dims) {
+                return 0;
             }
+            memcpy(min, geobin+5, 8*dims);
+            memcpy(max, geobin+5, 8*dims);
         } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
             // Read MBR
             dims = geobin[1];
+            if (dims > 4) {
+                return 0;
+            }
             memcpy(min, geobin+2, 8*dims);
             memcpy(max, geobin+2+8*dims, 8*dims);
         }
-- 
2.43.0


From 9127a1116ed83754a493d4a3c979bb9e03b15ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 07/15] fix: parse_geobin accepts features that failed to parse

A feature whose wkb failed without PARSE_FAIL (a mismatched child type) was
taken as a success: it ended up inside of the collection, or had its error
message overwritten. Running out of memory for the features returned zero,
which is a valid index, and left the output unset.
---
 tg.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index af1a649..e3d8e8d 100644
--- a/tg.c
+++ b/tg.c
@@ -15516,7 +15516,7 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
     if (xjsonlen > 0 && !json_validn(xjson, xjsonlen)) {
         goto invalid;
     }
-    struct tg_geom *geom;
+    struct tg_geom *geom = NULL;
     if (head == 0x04) {
         // FeatureCollection
         if (i+4 > len) {
@@ -15527,14 +15527,16 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         i += 4;
         struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
         if (!feats) {
-            return 0;
+            *g = 0;
+            return PARSE_FAIL;
         }
         memset(feats, 0, nfeats*sizeof(struct tg_geom*));
         struct tg_geom *feat = 0;
         uint32_t j = 0;
         for (; j < nfeats; j++) {
+            feat = 0;
             i = parse_geobin(geobin, len, i, depth+1, ix, &feat);
-            if (i == PARSE_FAIL) {
+            if (i == PARSE_FAIL || !feat || tg_geom_error(feat)) {
                 break;
             }
             feats[j] = feat;
@@ -15558,7 +15560,7 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
     } else {
         i = parse_wkb(geobin, len, i, depth, ix, &geom);
     }
-    if (i == PARSE_FAIL || !geom) {
+    if (i == PARSE_FAIL || !geom || tg_geom_error(geom)) {
         *g = geom;
         return PARSE_FAIL;
     }
-- 
2.43.0


From ce6bb01d7d0178eb1862d5f4c9dbb40d333dbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:08 +0000
Subject: [PATCH 08/15] fix: GeoBIN feature count is trusted for the allocation
 size

A ten byte input could make parse_geobin allocate and clear up to 32 GB. Every
feature takes at least one byte of input.
---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index e3d8e8d..6c74140 100644
--- a/tg.c
+++ b/tg.c
@@ -15525,6 +15525,9 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t nfeats;
         memcpy(&nfeats, geobin+i, 4);
         i += 4;
+        if (nfeats > len-i) {
+            goto invalid;
+        }
         struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
         if (!feats) {
             *g = 0;
-- 
2.43.0


From 66b7fe57aa3b92be211c6504ed91d3e12e7f7413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 09/15] fix: GeoJSON multi geometries without positions have Z
 and M

An empty 'coordinates' array left dims at zero, which selected the four
dimensional constructor.
---
 tg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tg.c b/tg.c
index 6c74140..d5d6ba6 100644
--- a/tg.c
+++ b/tg.c
@@ -8326,6 +8326,7 @@ static struct tg_geom *parse_geojson_multipoint(struct json json,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
@@ -8376,6 +8377,7 @@ static struct tg_geom *parse_geojson_multilinestring(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
@@ -8435,6 +8437,7 @@ static struct tg_geom *parse_geojson_multipolygon(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
-- 
2.43.0


From 2a90630cb1b03fcd43a89d0d9a187327844b2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 10/15] fix: constructors ignore a failed clone

Cloning a stack based ring, line or poly is a copy, which fails when out of
memory. tg_poly_new then returned a polygon without its holes, and the
geometry constructors returned a geometry without its children.
---
 tg.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/tg.c b/tg.c
index d5d6ba6..52aaff4 100644
--- a/tg.c
+++ b/tg.c
@@ -3782,6 +3782,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
     poly->head.base = BASE_POLY;
     poly->head.type = TG_POLYGON;
     poly->exterior = tg_ring_clone(exterior);
+    if (!poly->exterior) {
+        goto fail;
+    }
     if (nholes > 0) {
         poly->holes = tg_malloc(sizeof(struct tg_ring*)*nholes);
         if (!poly->holes) {
@@ -3791,6 +3794,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
         memset(poly->holes, 0, sizeof(struct tg_ring*)*poly->nholes);
         for (int i = 0; i < poly->nholes; i++) {
             poly->holes[i] = tg_ring_clone(holes[i]);
+            if (!poly->holes[i]) {
+                goto fail;
+            }
         }
     }
     return poly;
@@ -4708,6 +4714,10 @@ struct tg_geom *tg_geom_new_multilinestring(const struct tg_line *const lines[],
     if (!geom) return NULL;
     for (int i = 0; i < geom->multi->ngeoms; i++) {
         geom->multi->geoms[i] = (struct tg_geom*)tg_line_clone(lines[i]);
+        if (lines[i] && !geom->multi->geoms[i]) {
+            tg_geom_free(geom);
+            return NULL;
+        }
     }
     return multi_geom_inflate_rect(geom);
 }
@@ -4735,6 +4745,10 @@ struct tg_geom *tg_geom_new_multipolygon(const struct tg_poly *const polys[],
     if (!geom) return NULL;
     for (int i = 0; i < geom->multi->ngeoms; i++) {
         geom->multi->geoms[i] = (struct tg_geom*)tg_poly_clone(polys[i]);
+        if (polys[i] && !geom->multi->geoms[i]) {
+            tg_geom_free(geom);
+            return NULL;
+        }
     }
     return multi_geom_inflate_rect(geom);
 }
@@ -4762,6 +4776,10 @@ struct tg_geom *tg_geom_new_geometrycollection(
     if (!geom) return NULL;
     for (int i = 0; i < geom->multi->ngeoms; i++) {
         geom->multi->geoms[i] = tg_geom_clone(geoms[i]);
+        if (geoms[i] && !geom->multi->geoms[i]) {
+            tg_geom_free(geom);
+            return NULL;
+        }
     }
     return multi_geom_inflate_rect(geom);
 }
@@ -4810,6 +4828,10 @@ struct tg_geom *tg_geom_new_linestring_z(const struct tg_line *line,
     struct tg_geom *geom = geom_new(TG_LINESTRING);
     if (!geom) return NULL;
     geom->line = tg_line_clone(line);
+    if (line && !geom->line) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_Z);
 }
 
@@ -4828,6 +4850,10 @@ struct tg_geom *tg_geom_new_linestring_m(const struct tg_line *line,
     struct tg_geom *geom = geom_new(TG_LINESTRING);
     if (!geom) return NULL;
     geom->line = tg_line_clone(line);
+    if (line && !geom->line) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_M);
 }
 
@@ -4846,6 +4872,10 @@ struct tg_geom *tg_geom_new_linestring_zm(const struct tg_line *line,
     struct tg_geom *geom = geom_new(TG_LINESTRING);
     if (!geom) return NULL;
     geom->line = tg_line_clone(line);
+    if (line && !geom->line) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_Z|HAS_M);
 }
 
@@ -4864,6 +4894,10 @@ struct tg_geom *tg_geom_new_polygon_z(const struct tg_poly *poly,
     struct tg_geom *geom = geom_new(TG_POLYGON);
     if (!geom) return NULL;
     geom->poly = tg_poly_clone(poly);
+    if (poly && !geom->poly) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_Z);
 }
 
@@ -4882,6 +4916,10 @@ struct tg_geom *tg_geom_new_polygon_m(const struct tg_poly *poly,
     struct tg_geom *geom = geom_new(TG_POLYGON);
     if (!geom) return NULL;
     geom->poly = tg_poly_clone(poly);
+    if (poly && !geom->poly) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_M);
 }
 
@@ -4900,6 +4938,10 @@ struct tg_geom *tg_geom_new_polygon_zm(const struct tg_poly *poly,
     struct tg_geom *geom = geom_new(TG_POLYGON);
     if (!geom) return NULL;
     geom->poly = tg_poly_clone(poly);
+    if (poly && !geom->poly) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_Z|HAS_M);
 }
 
-- 
2.43.0


From 4eaf1d0fca0c2bfc40198c09a0e23a62af332f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 11/15] fix: missing children are dereferenced

A multi geometry or collection may have NULL children, such as a LineString
without points in a WKB MultiLineString, and a LineString or Polygon may have
a NULL line or poly. Writing, copying, or testing for touches crashed. These
are empty geometries.
---
 tg.c | 61 +++++++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/tg.c b/tg.c
index 52aaff4..eeaa901 100644
--- a/tg.c
+++ b/tg.c
@@ -4171,6 +4171,7 @@ bool tg_poly_touches_line(const struct tg_poly *a, const struct tg_line *b) {
 }
 
 bool tg_poly_touches_poly(const struct tg_poly *a, const struct tg_poly *b) {
+    if (tg_poly_empty(a) || tg_poly_empty(b)) return false;
     if (!tg_rect_intersects_rect(tg_poly_rect(a), tg_poly_rect(b))) {
         return false;
     }
@@ -11560,7 +11561,7 @@ static void write_geom_linestring_geojson(const struct tg_geom *geom,
     struct writer *wr)
 {
     write_string(wr, "{\"type\":\"LineString\",\"coordinates\":");
-    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY) {
+    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY || !geom->line) {
         write_string(wr, "[]");
     } else {
         switch (tg_geom_dims(geom)) {
@@ -11584,7 +11585,7 @@ static void write_geom_polygon_geojson(const struct tg_geom *geom,
     struct writer *wr)
 {
     write_string(wr, "{\"type\":\"Polygon\",\"coordinates\":");
-    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY) {
+    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY || !geom->poly) {
         write_string(wr, "[]");
     } else {
         switch (tg_geom_dims(geom)) {
@@ -11649,6 +11650,10 @@ static void write_geom_multilinestring_geojson(const struct tg_geom *geom,
             const struct tg_line *line = tg_geom_line(geom->multi->geoms[i]);
             const struct tg_ring *ring = (struct tg_ring*)line;
             if (i > 0) write_char(wr, ',');
+            if (!line) {
+                write_string(wr, "[]");
+                continue;
+            }
             switch (tg_geom_dims(geom)) {
             case 3:
                 n = write_ring_points_geojson_3(wr, ring, pcoords, ncoords);
@@ -11683,6 +11688,10 @@ static void write_geom_multipolygon_geojson(const struct tg_geom *geom,
         for (int i = 0; i < geom->multi->ngeoms; i++) {
             const struct tg_poly *poly = tg_geom_poly(geom->multi->geoms[i]);
             if (i > 0) write_char(wr, ',');
+            if (!poly) {
+                write_string(wr, "[]");
+                continue;
+            }
             switch (tg_geom_dims(geom)) {
             case 3:
                 n = write_poly_points_geojson_3(wr, poly, pcoords, ncoords);
@@ -11903,6 +11912,11 @@ static void write_poly_geojson(const struct tg_poly *poly, struct writer *wr) {
 }
 
 static void write_geom_geojson(const struct tg_geom *geom, struct writer *wr) {
+    if (!geom) {
+        // A missing child of a collection, write an empty point.
+        write_string(wr, "{\"type\":\"Point\",\"coordinates\":[]}");
+        return;
+    }
     switch (geom->head.base) {
     case BASE_GEOM:
         write_base_geom_geojson(geom, wr);
@@ -13059,7 +13073,7 @@ static void write_geom_linestring_wkt(const struct tg_geom *geom,
 {
     write_string(wr, "LINESTRING");
     write_zm_def_wkt(wr, geom);
-    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY) {
+    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY || !geom->line) {
         write_string(wr, " EMPTY");
         return;
     }
@@ -13085,7 +13099,7 @@ static void write_geom_polygon_wkt(const struct tg_geom *geom,
 {
     write_string(wr, "POLYGON");
     write_zm_def_wkt(wr, geom);
-    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY) {
+    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY || !geom->poly) {
         write_string(wr, " EMPTY");
         return;
     }
@@ -13164,6 +13178,10 @@ static void write_geom_multilinestring_wkt(const struct tg_geom *geom,
                 geom->multi->geoms[i]);
         const struct tg_ring *ring = (struct tg_ring*)line;
         if (i > 0) write_char(wr, ',');
+        if (!line) {
+            write_string(wr, "EMPTY");
+            continue;
+        }
         write_char(wr, '(');
         switch (tg_geom_dims(geom)) {
         case 3:
@@ -13206,6 +13224,10 @@ static void write_geom_multipolygon_wkt(const struct tg_geom *geom,
         const struct tg_poly *poly = tg_geom_poly(
                 geom->multi->geoms[i]);
         if (i > 0) write_char(wr, ',');
+        if (!poly) {
+            write_string(wr, "EMPTY");
+            continue;
+        }
         write_char(wr, '(');
         switch (tg_geom_dims(geom)) {
         case 3:
@@ -13278,6 +13300,11 @@ static void write_base_geom_wkt(const struct tg_geom *geom, struct writer *wr) {
 }
 
 static void write_geom_wkt(const struct tg_geom *geom, struct writer *wr) {
+    if (!geom) {
+        // A missing child of a collection, write an empty point.
+        write_string(wr, "POINT EMPTY");
+        return;
+    }
     switch (geom->head.base) {
     case BASE_GEOM:
         write_base_geom_wkt(geom, wr);
@@ -14233,7 +14260,7 @@ static void write_geom_linestring_wkb(const struct tg_geom *geom,
     struct writer *wr)
 {
     write_wkb_type(wr, &geom->head);
-    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY) {
+    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY || !geom->line) {
         write_uint32le(wr, 0);
         return;
     }
@@ -14256,7 +14283,7 @@ static void write_geom_polygon_wkb(const struct tg_geom *geom,
     struct writer *wr)
 {
     write_wkb_type(wr, &geom->head);
-    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY) {
+    if ((geom->head.flags&IS_EMPTY) == IS_EMPTY || !geom->poly) {
         write_uint32le(wr, 0);
         return;
     }
@@ -14334,6 +14361,10 @@ static void write_geom_multilinestring_wkb(const struct tg_geom *geom,
         const struct tg_line *line = tg_geom_line(geom->multi->geoms[i]);
         const struct tg_ring *ring = (struct tg_ring*)line;
         write_wkb_type(wr, &head);
+        if (!line) {
+            write_uint32le(wr, 0);
+            continue;
+        }
         switch (dims) {
         case 3:
             n = write_ring_points_wkb_3(wr, ring, pcoords, ncoords);
@@ -14374,6 +14405,10 @@ static void write_geom_multipolygon_wkb(const struct tg_geom *geom,
     for (int i = 0; i < geom->multi->ngeoms; i++) {
         const struct tg_poly *poly = tg_geom_poly(geom->multi->geoms[i]);
         write_wkb_type(wr, &head);
+        if (!poly) {
+            write_uint32le(wr, 0);
+            continue;
+        }
         switch (dims) {
         case 3:
             n = write_poly_points_wkb_3(wr, poly, pcoords, ncoords);
@@ -14437,6 +14472,13 @@ static void write_base_geom_wkb(const struct tg_geom *geom, struct writer *wr) {
 }
 
 static void write_geom_wkb(const struct tg_geom *geom, struct writer *wr) {
+    if (!geom) {
+        // A missing child of a collection, write an empty point.
+        struct head head = { .type = TG_POINT };
+        write_wkb_type(wr, &head);
+        write_posn_wkb(wr, (struct tg_point){ NAN, NAN });
+        return;
+    }
     switch (geom->head.base) {
     case BASE_GEOM:
         write_base_geom_wkb(geom, wr);
@@ -15248,7 +15290,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
                 for (int i = 0; i < geom->multi->ngeoms; i++) {
                     const struct tg_geom *child = geom->multi->geoms[i];
                     geom2->multi->geoms[i] = tg_geom_copy(child);
-                    if (!geom2->multi->geoms[i]) {
+                    if (child && !geom2->multi->geoms[i]) {
                         goto fail;
                     }
                 }
@@ -15753,6 +15795,11 @@ static void write_poly_geobin(struct tg_poly *poly, struct writer *wr) {
 }
 
 static void write_geom_geobin(const struct tg_geom *geom, struct writer *wr) {
+    if (!geom) {
+        // A missing child of a collection, write an empty point.
+        write_geom_wkb(geom, wr);
+        return;
+    }
     if ((geom->head.flags&IS_FEATURE) == IS_FEATURE) {
         goto base_geom;
     }
-- 
2.43.0


From a03e3b7edb1a60996e2e05bc7eec8405c78822bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 12/15] fix: tg_poly_memsize counts a ring for every hole
 pointer

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index eeaa901..f0ae2a6 100644
--- a/tg.c
+++ b/tg.c
@@ -4288,7 +4288,7 @@ size_t tg_poly_memsize(const struct tg_poly *poly) {
     if (poly->exterior) {
         size += tg_ring_memsize(poly->exterior);
     }
-    size += poly->nholes*sizeof(struct tg_ring);
+    size += poly->nholes*sizeof(struct tg_ring*);
     for (int i = 0; i < poly->nholes; i++) {
         size += tg_ring_memsize(poly->holes[i]);
     }
-- 
2.43.0


From 577c735bfe77cff73eb307ecbddf4b48e6e6c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 13/15] fix: size of WKB ring points overflows an int

---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index f0ae2a6..37b2eae 100644
--- a/tg.c
+++ b/tg.c
@@ -14096,7 +14096,7 @@ static void write_posn_wkb_4(struct writer *wr, struct tg_point posn,
 static int write_ring_points_wkb(struct writer *wr, const struct tg_ring *ring)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*16;
+    size_t needed = (size_t)ring->npoints*16;
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
     if (wr->count+needed <= wr->n) {
         memcpy(wr->dst+wr->count, ring->points, needed);
@@ -14118,7 +14118,7 @@ static int write_ring_points_wkb_3(struct writer *wr,
     const struct tg_ring *ring, const double *coords, int ncoords)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*24;
+    size_t needed = (size_t)ring->npoints*24;
     if (wr->count >= wr->n) {
         wr->count += needed;
     } else {
@@ -14136,7 +14136,7 @@ static int write_ring_points_wkb_4(struct writer *wr,
     const struct tg_ring *ring, const double *coords, int ncoords)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*32;
+    size_t needed = (size_t)ring->npoints*32;
     if (wr->count >= wr->n) {
         wr->count += needed;
     } else {
-- 
2.43.0


From f6abaa5aff041791f650c0862d61cfd0c226f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 14/15] fix: WKT depth limit counts every group instead of the
 nesting

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 37b2eae..e430437 100644
--- a/tg.c
+++ b/tg.c
@@ -12088,7 +12088,7 @@ static long wkt_balance_coords(const char *wkt, long len, long i) {
     for (; i < len; i++) {
         if (wkt[i] == '(') {
             depth++;
-            maxdepth++;
+            if (depth > maxdepth) maxdepth = depth;
         } else if (wkt[i] == ')') {
             depth--;
             if (depth == 0) {
-- 
2.43.0


From e4bddd640bf7bd2a6228afa02cd85b5cec3e604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 15/15] fix: ystripes of a copied ring pointed into the
 original's memory

---
 tg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tg.c b/tg.c
index e430437..5788d20 100644
--- a/tg.c
+++ b/tg.c
@@ -15177,6 +15177,13 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
             return NULL;
         }
         memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz);
+        for (int i = 0; i < ring->ystripes->nstripes; i++) {
+            // The stripe indexes of the copy are in the new memory too.
+            size_t np = (char*)ring->ystripes->stripes[i].indexes - 
+                (char*)ring->ystripes;
+            ring2->ystripes->stripes[i].indexes = 
+                (void*)&(((char*)ring2->ystripes)[np]);
+        }
     }
     return ring2;
 }
-- 
2.43.0

