From 6e523bbc53b3f1a5042be936da1d00952f74b3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 01/21] fix: refuse an empty index range in gridnodes_subgrid()

---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index a80c6c5..7b9d659 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -463,6 +463,9 @@ gridnodes* gridnodes_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jm
     if (jmax >= gn->ny)
         jmax = gn->ny - 1;
 
+    if (imin > imax || jmin > jmax)
+        gu_quit("gridnodes_subgrid(): empty index range [%d:%d][%d:%d]", imin, imax, jmin, jmax);
+
     if (imin == 0 && imax == gn->nx - 1 && jmin == 0 && jmax == gn->ny - 1)
         return gridnodes_copy(gn);
 
-- 
2.43.0


From fd7cee3ad2707ad47aa2f0c9b345429d24189e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 02/21] fix: refuse matrix sizes in gu_alloc2d() that overflow
 size_t

---
 gridutils/gucommon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 928675e..f3612a7 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -18,6 +18,7 @@
 #include <string.h>
 #include <stdarg.h>
 #include <limits.h>
+#include <stdint.h>
 #include <assert.h>
 #include <errno.h>
 #include "version.h"
@@ -82,11 +83,14 @@ void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize)
     size_t size;
     void* p;
     void** pp;
-    int i;
+    size_t i;
 
     if (ni <= 0 || nj <= 0)
         gu_quit("gu_alloc2d(): invalid size (nj = %d, ni = %d)", nj, ni);
 
+    if (nj > SIZE_MAX / 2 / sizeof(void*) || (unitsize > 0 && ni > (SIZE_MAX / 2 / nj - sizeof(void*)) / unitsize))
+        gu_quit("gu_alloc2d(): matrix is too big (nj = %zu, ni = %zu)", nj, ni);
+
     size = nj * sizeof(void*) + nj * ni * unitsize;
     if ((p = malloc(size)) == NULL) {
         int errno_saved = errno;
-- 
2.43.0


From 398fcc90bd5ebf1747d1d1a339289e027dc5a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 03/21] fix: fail on NaN indices in gridmap_fij2xy()

(int) NaN was used as an index into the node arrays.
---
 gridutils/gridmap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 02796eb..104aeb1 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -158,6 +158,12 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
         nce2 = gridkmap_getnce2(gm->map);
     }
 
+    if (isnan(fi) || isnan(fj)) {
+        *x = NaN;
+        *y = NaN;
+        return 0;               /* failed */
+    }
+
     /*
      * Trim I to range 0 to nce1 
      */
-- 
2.43.0


From a695aef77463859d6be18f3166e0ba1d0bf4b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 04/21] fix: do not trim to a negative index in
 gridmap_fij2xy()

For a grid one node wide an index beyond the end was trimmed to -EPS, and
the node next to the only one was read.
---
 gridutils/gridmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 104aeb1..9d1bad1 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -173,7 +173,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     }
 
     if (fi > nce1) {
-        fi = nce1 - EPS;
+        fi = (nce1 > 0) ? nce1 - EPS : 0.0;
         status = 0;
     }
 
@@ -186,7 +186,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     }
 
     if (fj > nce2) {
-        fj = nce2 - EPS;
+        fj = (nce2 > 0) ? nce2 - EPS : 0.0;
         status = 0;
     }
 
-- 
2.43.0


From b36e7bdcc2dfe1a2c6742bd18bdf180064425b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 05/21] fix: poly_addpointat() shifted X coordinates into the Y
 array

Inserting a point replaced the Y coordinates of all points behind it by
their X coordinates.
---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 91cbfc4..77dae85 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -141,7 +141,7 @@ void poly_addpointat(poly* pl, int index, double x, double y)
     }
 
     memmove(&pl->x[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
-    memmove(&pl->y[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
+    memmove(&pl->y[index + 1], &pl->y[index], (pl->n - index) * sizeof(double));
     pl->x[index] = x;
     pl->y[index] = y;
     pl->n++;
-- 
2.43.0


From 4bd118e6a0e4d0077ae248cba2a91f88a9de7db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 06/21] fix: poly_append() did not append

The storage was grown only when it already was large enough (so that the
copying overran it), and neither the number of points nor the extent were
updated.
---
 gridutils/poly.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 77dae85..2295687 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -157,7 +157,7 @@ void poly_append(poly* pl1, poly* pl2)
     int n = pl1->n + pl2->n;
     int sizechanged = 0;
 
-    while (n < pl1->nallocated) {
+    while (n > pl1->nallocated) {
         pl1->nallocated *= 2;
         sizechanged = 1;
     }
@@ -169,6 +169,8 @@ void poly_append(poly* pl1, poly* pl2)
 
     memcpy(&pl1->x[pl1->n], pl2->x, pl2->n * sizeof(double));
     memcpy(&pl1->y[pl1->n], pl2->y, pl2->n * sizeof(double));
+    pl1->n = n;
+    poly_recalcextent(pl1);
 }
 
 /** Computes the area of a polygon. 
-- 
2.43.0


From a9662e66a52956924923284274513a80a83bf0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 07/21] fix: poly_close() of an empty polyline added an
 uninitialised point

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 2295687..14e3f1e 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -234,7 +234,7 @@ poly* poly_copy(poly* pl)
  */
 void poly_close(poly* pl)
 {
-    if (!poly_isclosed(pl, 0.0))
+    if (pl->n > 0 && !poly_isclosed(pl, 0.0))
         poly_addpoint(pl, pl->x[0], pl->y[0]);
 }
 
-- 
2.43.0


From 1446dcc6011ba067fba145439c14325b9f5f6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 08/21] fix: poly_compact() left a stale extent and possibly no
 storage

The extent was not recalculated after points had been removed; when no
point was left the storage was freed with nallocated = 0, so that it could
never grow again.
---
 gridutils/poly.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 14e3f1e..9b91239 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -698,10 +698,11 @@ void poly_compact(poly* pl, double eps)
             y[i] = y[ids[i]];
         }
         pl->n = nnew;
+        poly_recalcextent(pl);
     }
 
     free(ids);
-    pl->x = realloc(pl->x, sizeof(double) * pl->n);
-    pl->y = realloc(pl->y, sizeof(double) * pl->n);
-    pl->nallocated = pl->n;
+    pl->nallocated = (pl->n > 0) ? pl->n : 1;
+    pl->x = realloc(pl->x, sizeof(double) * pl->nallocated);
+    pl->y = realloc(pl->y, sizeof(double) * pl->nallocated);
 }
-- 
2.43.0


From 4706eeefe837d69c8ac5fe305e37ba6f802c5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 09/21] fix: kd_insertnode() lost the tree when its storage
 grew to NALLOCSTART nodes

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 37c1906..db33ecc 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -135,7 +135,7 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
             tree->nallocated = NALLOCSTART;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == NALLOCSTART)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
-- 
2.43.0


From 14e671f18950cd9684a51ba8978f963b64462952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 10/21] fix: kd_findnodeswithinrange() could miss nodes at
 exactly the range

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index db33ecc..f3a79fa 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -299,7 +299,7 @@ static int _kd_findnodeswithinrange(const kdtree* tree, int id, const double* co
 
     dx = coords[node->dir] - nodecoords[node->dir];
     ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->left : node->right, coords, range, set, ordered);
-    if (fabs(dx) < range) {
+    if (fabs(dx) <= range) {
         added_res += ret;
         ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->right : node->left, coords, range, set, ordered);
     }
-- 
2.43.0


From ba11c4fb4a1bbbe9048268c0788dd7fe2c02d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 11/21] fix: kd_findnodeswithinrange() read nodes of an empty
 tree

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index f3a79fa..4bb3a6b 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -319,7 +319,7 @@ kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double
     rset->root = NULL;
     rset->size = 0;
 
-    ret = _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered);
+    ret = (tree->nnodes > 0) ? _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered) : 0;
     rset->size = ret;
 
     return rset;
-- 
2.43.0


From 46bc921f08fae3f8a34cfcea3c13c98003abbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 12/21] fix: insertgrid read one node past the end of each row
 of the inserted grid

---
 gridutils/insertgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index ac13a82..585768a 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -209,13 +209,13 @@ int main(int argc, char* argv[])
     if (!merge) {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
 
                 if (ok2) {
                     gx3[j3][i3] = gx2[j2][i2];
                     gy3[j3][i3] = gy2[j2][i2];
                 } else {
-                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                     if (ok1) {
                         gx3[j3][i3] = gx1[j1][i1];
@@ -230,8 +230,8 @@ int main(int argc, char* argv[])
     } else {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
-                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
+                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                 if (!ok2 && !ok1) {
                     gx3[j3][i3] = NaN;
-- 
2.43.0


From ceed81d67b96107790cc7e5ab0e27622142e936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 13/21] fix: insertgrid cut off the master grid when placing
 the other one at negative indices

---
 gridutils/insertgrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index 585768a..8c93faf 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -188,6 +188,10 @@ int main(int argc, char* argv[])
 
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
+    if (i0 < 0)
+        nx3 -= i0;
+    if (j0 < 0)
+        ny3 -= j0;
     grid3 = gridnodes_create(nx3, ny3, type);
     gx3 = gridnodes_getx(grid3);
     gy3 = gridnodes_gety(grid3);
-- 
2.43.0


From 6cf96826d21a66a4a35f30be2f361fa025a1c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 14/21] fix: insertgrid could pass a double density grid of
 even size to validation, which then read outside the node arrays

---
 gridutils/insertgrid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index 8c93faf..b0d8c3d 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -192,6 +192,8 @@ int main(int argc, char* argv[])
         nx3 -= i0;
     if (j0 < 0)
         ny3 -= j0;
+    if (type == NT_DD && (nx3 % 2 == 0 || ny3 % 2 == 0))
+        gu_quit("size of the combined grid (%d x %d) must be odd in both directions for double density grid nodes", nx3, ny3);
     grid3 = gridnodes_create(nx3, ny3, type);
     gx3 = gridnodes_getx(grid3);
     gy3 = gridnodes_gety(grid3);
-- 
2.43.0


From 25e15be16aeec1f017381a34c8e222997cf6782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:22 +0000
Subject: [PATCH 15/21] fix: gu_readmask() cut off the last character of a line
 without newline and wrote before the buffer on an empty one

---
 gridutils/gucommon.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index f3612a7..b6fd3ad 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -122,6 +122,7 @@ int** gu_readmask(char* fname, int nx, int ny)
     int** v = NULL;
     FILE* f = NULL;
     char buf[BUFSIZE];
+    size_t len;
     int count;
     int i, j;
 
@@ -136,7 +137,9 @@ int** gu_readmask(char* fname, int nx, int ny)
         for (i = 0; i < nx; ++i) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th mask value (%d x %d values expected)", fname, j * nx + i + 1, nx, ny);
-            buf[strlen(buf) - 1] = 0;
+            len = strlen(buf);
+            if (len > 0 && buf[len - 1] == '\n')
+                buf[len - 1] = 0;
             if (strcmp(buf, "0") == 0)
                 v[j][i] = 0;
             else if (strcmp(buf, "1") == 0) {
-- 
2.43.0


From 9eefdd44f83330c6d508f342466510b311f2d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 16/21] fix: setbathy dropped the header line it read from its
 output

---
 gridutils/setbathy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 0a3a6ed..7a5a4ce 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -163,6 +163,7 @@ int main(int argc, char* argv[])
 
         if (sscanf(buf, "## %d x %d", &nx, &ny) != 2)
             gu_quit("%s: could not read grid size: expected header in \"## %%d x %%d\" format\n or \"-d\" option", fname);
+        fprintf(stdout, "%s", buf);
     }
 
     if (gu_verbose)
-- 
2.43.0


From 338f9a34f68ce1f35b19016cff98c6aae678f0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 17/21] fix: deviation from orthogonality was calculated from
 half the cosine of the angle

---
 gridutils/gridnodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 7b9d659..c1522d8 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -933,7 +933,7 @@ static void gridstats_init(gridstats* gs)
  */
 static double dtheta(double x1, double y1, double x2, double y2)
 {
-    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2) / 2.0;
+    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2);
     double th = acos(cos_th) * 180.0 / M_PI;
     double dth = fabs(90.0 - th);
 
-- 
2.43.0


From 3c72fd1099a8dff9e8770a8575b02ff15f5ca68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 18/21] fix: grid statistics left the position of the maximum
 aspect ratio uninitialised

---
 gridutils/gridnodes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index c1522d8..7fa2fba 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -924,6 +924,8 @@ static void gridstats_init(gridstats* gs)
     gs->jmdo = -1;
     gs->ado = NaN;
     gs->mar = NaN;
+    gs->imar = -1;
+    gs->jmar = -1;
     gs->aar = NaN;
     gs->adx = NaN;
     gs->ady = NaN;
-- 
2.43.0


From 11cce41e14d44f308f97818b92956f786991116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 19/21] fix: insertgrid took an offset of -1 for a missing one

---
 gridutils/insertgrid.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index b0d8c3d..d3d6634 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -85,8 +85,8 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
 
     *fname1 = NULL;
     *fname2 = NULL;
-    *i0 = -1;
-    *j0 = -1;
+    *i0 = INT_MIN;
+    *j0 = INT_MIN;
     *type = NT_NONE;
 
     for (i = 1; i < argc; ++i) {
@@ -95,9 +95,9 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
                 *fname1 = argv[i];
             else if (*fname2 == NULL)
                 *fname2 = argv[i];
-            else if (*i0 == -1)
+            else if (*i0 == INT_MIN)
                 *i0 = atoi(argv[i]);
-            else if (*j0 == -1)
+            else if (*j0 == INT_MIN)
                 *j0 = atoi(argv[i]);
             else
                 usage();
@@ -143,7 +143,7 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
     if (gu_verbose && argc == 2)
         version();
 
-    if (*fname1 == NULL || *fname2 == NULL || *i0 == -1 || *j0 == -1)
+    if (*fname1 == NULL || *fname2 == NULL || *i0 == INT_MIN || *j0 == INT_MIN)
         usage();
 }
 
-- 
2.43.0


From 878a0380fa6981b7ae4c3e940b02d20e2e6e47b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 20/21] fix: converting centre nodes without a complete cell
 searched an empty tree

---
 gridutils/gridnodes.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 7fa2fba..76d2ba7 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -687,6 +687,12 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     double* pos1;
                     size_t nearest;
 
+                    if (kd_getsize(kt) == 0) {  /* no complete cells */
+                        gn1->gx[j][i] = NaN;
+                        gn1->gy[j][i] = NaN;
+                        continue;
+                    }
+
                     pos[0] = (double) i - 0.5;
                     pos[1] = (double) j - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
@@ -755,6 +761,12 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     double* pos1;
                     size_t nearest;
 
+                    if (kd_getsize(kt) == 0) {  /* no complete cells */
+                        gn1->gx[j][i] = NaN;
+                        gn1->gy[j][i] = NaN;
+                        continue;
+                    }
+
                     pos[0] = (double) i / 2.0 - 0.5;
                     pos[1] = (double) j / 2.0 - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-- 
2.43.0


From 5cb5fa8f9dc8aa41988143a2ba42004332bad246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:44 +0000
Subject: [PATCH 21/21] fix: gridmap_xy2fij() could report success with NaN
 indices

---
 gridutils/gridmap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 9d1bad1..dc5e10b 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -276,6 +276,9 @@ static int calc_branch(gridmap* gm, double x, double y)
         B = e * x - a * y + a * h - d * e + c * f - b * g;
         C = g * x - c * y + c * h - d * g;
 
+        if (B * B - 4.0 * A * C < 0.0)
+            return 0;           /* failed */
+
         for (k = 0; k < 2; ++k) {
             double u = (-B + sign * sqrt(B * B - 4.0 * A * C)) / (2.0 * A);
             double v_denom = a * u + c;
@@ -366,6 +369,8 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
         d1 = a * u + c;
         d2 = e * u + g;
         v = (fabs(d2) > fabs(d1)) ? (y - f * u - h) / d2 : (x - b * u - d) / d1;
+        if (isnan(u) || isnan(v))
+            return 0;           /* failed */
 
         if (u < 0.0)
             u = 0.0;
-- 
2.43.0

