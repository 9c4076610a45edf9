From fa98d9ce6248a31d91e925eeb629a7946203e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 01/31] fix: refuse double density grids of even size in
 gridnodes_validate()

---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index a80c6c5..6533765 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -270,6 +270,9 @@ static void gridnodes_validate_dd(gridnodes* gn)
     int count;
     int i, j;
 
+    if (nx % 2 == 0 || ny % 2 == 0)
+        gu_quit("gridnodes_validate(): %d x %d: dimensions must be odd for double density grid nodes", nx, ny);
+
     count = 0;                  /* the valid nodes marked as bad */
     /*
      * corner nodes:
-- 
2.43.0


From 0f849b9eb70ca6cb965d3b348aed82f7e25d8935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 02/31] fix: poly_addpointat(): move the y coordinates, ignore
 negative index, refuse NaN

---
 gridutils/poly.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 91cbfc4..bc64c53 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -129,6 +129,11 @@ void poly_addpoint(poly* pl, double x, double y)
  */
 void poly_addpointat(poly* pl, int index, double x, double y)
 {
+    if (index < 0)
+        return;
+    if (isnan(x) || isnan(y))
+        gu_quit("poly_addpointat(): NaN detected");
+
     if (index > pl->n - 1) {
         poly_addpoint(pl, x, y);
         return;
@@ -141,7 +146,7 @@ void poly_addpointat(poly* pl, int index, double x, double y)
     }
 
     memmove(&pl->x[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
-    memmove(&pl->y[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
+    memmove(&pl->y[index + 1], &pl->y[index], (pl->n - index) * sizeof(double));
     pl->x[index] = x;
     pl->y[index] = y;
     pl->n++;
-- 
2.43.0


From 41fb17b429e9be049acc1b9cb2043d672fd10457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:36 +0000
Subject: [PATCH 03/31] fix: poly_append(): grow the storage when needed,
 update the size and the extent

---
 gridutils/poly.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index bc64c53..8b55059 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -159,10 +159,12 @@ void poly_addpointat(poly* pl, int index, double x, double y)
  */
 void poly_append(poly* pl1, poly* pl2)
 {
-    int n = pl1->n + pl2->n;
+    int n2 = pl2->n;
+    int n = pl1->n + n2;
     int sizechanged = 0;
+    int i;
 
-    while (n < pl1->nallocated) {
+    while (n > pl1->nallocated) {
         pl1->nallocated *= 2;
         sizechanged = 1;
     }
@@ -172,8 +174,11 @@ void poly_append(poly* pl1, poly* pl2)
         pl1->y = realloc(pl1->y, pl1->nallocated * sizeof(double));
     }
 
-    memcpy(&pl1->x[pl1->n], pl2->x, pl2->n * sizeof(double));
-    memcpy(&pl1->y[pl1->n], pl2->y, pl2->n * sizeof(double));
+    memcpy(&pl1->x[pl1->n], pl2->x, n2 * sizeof(double));
+    memcpy(&pl1->y[pl1->n], pl2->y, n2 * sizeof(double));
+    for (i = pl1->n; i < n; ++i)
+        extent_update(&pl1->e, pl1->x[i], pl1->y[i]);
+    pl1->n = n;
 }
 
 /** Computes the area of a polygon. 
-- 
2.43.0


From d2369cb061d75e673ffba5ee85285ddbf7c8af2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 04/31] fix: poly_area(): make the area positive for
 counterclockwise polygons

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 8b55059..5a3c434 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -197,7 +197,7 @@ double poly_area(poly* pl)
     for (i = 0; i < n; ++i) {
         int i1 = (i + 1) % n;
 
-        area += (x[i1] - x[i]) * (y[i1] + y[i]);
+        area += (x[i] - x[i1]) * (y[i1] + y[i]);
     }
 
     return area / 2.0;
-- 
2.43.0


From fff94f6db6d41eca2d7eaac1cbc4c23ced364f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 05/31] fix: poly_close(): do not read the first point of an
 empty polyline

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 5a3c434..701bf1a 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -242,7 +242,7 @@ poly* poly_copy(poly* pl)
  */
 void poly_close(poly* pl)
 {
-    if (!poly_isclosed(pl, 0.0))
+    if (pl->n > 0 && !poly_isclosed(pl, 0.0))
         poly_addpoint(pl, pl->x[0], pl->y[0]);
 }
 
-- 
2.43.0


From 15bfea13edb4220195bc6945b05f2e0235dc2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 06/31] fix: poly_compact(): keep the extent exact and the
 storage non-empty

---
 gridutils/poly.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 701bf1a..0ea380e 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -706,10 +706,11 @@ void poly_compact(poly* pl, double eps)
             y[i] = y[ids[i]];
         }
         pl->n = nnew;
+        poly_recalcextent(pl);
     }
 
     free(ids);
-    pl->x = realloc(pl->x, sizeof(double) * pl->n);
-    pl->y = realloc(pl->y, sizeof(double) * pl->n);
-    pl->nallocated = pl->n;
+    pl->nallocated = (pl->n > 0) ? pl->n : 1;
+    pl->x = realloc(pl->x, sizeof(double) * pl->nallocated);
+    pl->y = realloc(pl->y, sizeof(double) * pl->nallocated);
 }
-- 
2.43.0


From 1bc61a198f2fcdff3e78e43ebc7d95d4dcc3c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 07/31] fix: boundary polygon: follow only the edges of valid
 cells

---
 gridutils/poly.c | 49 ++++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 0ea380e..8757274 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -377,6 +377,29 @@ int poly_findindex(poly* pl, double x, double y)
     return -1;
 }
 
+/** Tests whether a step from a grid node goes along an edge that has a valid
+ * cell on its right hand side (on the same side as in poly_formbound()).
+ * @param nce1 Number of cells in X direction
+ * @param nce2 Number of cells in Y direction
+ * @param x X coordinates of grid nodes
+ * @param i I index of the node
+ * @param j J index of the node
+ * @param direction Direction: 0 - down, 1 - right, 2 - up, 3 - left
+ * @return 1 for yes, 0 for no
+ */
+static int isboundstep(int nce1, int nce2, double** x, int i, int j, int direction)
+{
+    if (direction == 2 || direction == 3)
+        i--;
+    if (direction == 1 || direction == 2)
+        j--;
+
+    if (i < 0 || j < 0 || i >= nce1 || j >= nce2)
+        return 0;
+
+    return !isnan(x[j][i]) && !isnan(x[j][i + 1]) && !isnan(x[j + 1][i]) && !isnan(x[j + 1][i + 1]);
+}
+
 /** Forms polyline boundary around a grid.
  * Note: supposed to handle a grid of corner nodes only.
  * @param nce1 Number of cells in X direction
@@ -408,23 +431,16 @@ poly* poly_formbound(int nce1, int nce2, double** x, double** y)
 
     do {
         int direction_stop = (direction + 2) % 4;
-        int inext, jnext;
 
         direction = (direction + 3) % 4;
-        inext = i + iinc[direction];
-        jnext = j + jinc[direction];
-
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while (direction != direction_stop && !isboundstep(nce1, nce2, x, i, j, direction))
             direction = (direction + 1) % 4;
-            inext = i + iinc[direction];
-            jnext = j + jinc[direction];
-        }
 
         if (direction == direction_stop)
             break;
 
-        i = inext;
-        j = jnext;
+        i += iinc[direction];
+        j += jinc[direction];
 
         poly_addpoint(pl, x[j][i], y[j][i]);
 
@@ -464,23 +480,16 @@ poly* poly_formboundij(int nce1, int nce2, double** x)
 
     do {
         int direction_stop = (direction + 2) % 4;
-        int inext, jnext;
 
         direction = (direction + 3) % 4;
-        inext = i + iinc[direction];
-        jnext = j + jinc[direction];
-
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while (direction != direction_stop && !isboundstep(nce1, nce2, x, i, j, direction))
             direction = (direction + 1) % 4;
-            inext = i + iinc[direction];
-            jnext = j + jinc[direction];
-        }
 
         if (direction == direction_stop)
             break;
 
-        i = inext;
-        j = jnext;
+        i += iinc[direction];
+        j += jinc[direction];
 
         poly_addpoint(pl, i, j);
 
-- 
2.43.0


From f39a47f367c4571605037a8154103d98c9aa2150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 08/31] fix: k-d tree range search: visit the subtree on the
 other side when exactly at the range

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 37c1906..6afd918 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -299,7 +299,7 @@ static int _kd_findnodeswithinrange(const kdtree* tree, int id, const double* co
 
     dx = coords[node->dir] - nodecoords[node->dir];
     ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->left : node->right, coords, range, set, ordered);
-    if (fabs(dx) < range) {
+    if (dx * dx <= range * range) {
         added_res += ret;
         ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->right : node->left, coords, range, set, ordered);
     }
-- 
2.43.0


From cf76d9316d445971c6132e355e9a6fe7f298bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:29 +0000
Subject: [PATCH 09/31] fix: k-d tree: do not read the root node of an empty
 tree

---
 gridutils/kdtree.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 6afd918..8141f1e 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -319,7 +319,7 @@ kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double
     rset->root = NULL;
     rset->size = 0;
 
-    ret = _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered);
+    ret = (tree->nnodes > 0) ? _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered) : 0;
     rset->size = ret;
 
     return rset;
@@ -409,11 +409,15 @@ static void _kd_findnearestnode(const kdtree* tree, const size_t nodeid, const d
 size_t kd_findnearestnode(const kdtree* tree, const double* coords)
 {
     int ndim = tree->ndim;
-    double* minmax = malloc(ndim * 2 * sizeof(double));
+    double* minmax = NULL;
     size_t result;
     double dist;
     int i;
 
+    if (tree->nnodes == 0)
+        return SIZE_MAX;
+
+    minmax = malloc(ndim * 2 * sizeof(double));
     for (i = 0; i < ndim * 2; ++i)
         minmax[i] = tree->min[i];
 
-- 
2.43.0


From c67cd6bc754233f598202c9d6aa72308119202e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:30 +0000
Subject: [PATCH 10/31] fix: k-d tree: do not drop the root node when the
 storage grows to the initial size

---
 gridutils/kdtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 8141f1e..56bcbf4 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -135,7 +135,7 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
             tree->nallocated = NALLOCSTART;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == NALLOCSTART)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
@@ -182,7 +182,7 @@ void kd_insertnodes(kdtree* tree, size_t n, double** src, int randomise)
         tree->nallocated += n;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == n)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
-- 
2.43.0


From 7ee3885bea24dec2f0b6b152c46c1c1063285cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 11/31] fix: kd_getnodeorigid(): do not truncate the identifier

---
 gridutils/kdtree.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 56bcbf4..3e8a733 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -506,8 +506,7 @@ double* kd_getnodecoords(const kdtree* tree, size_t id)
  */
 size_t kd_getnodeorigid(const kdtree* tree, size_t id)
 {
-
-    return (int) tree->nodes[id].id_orig;
+    return tree->nodes[id].id_orig;
 }
 
 /* get boundary rectangle
-- 
2.43.0


From 9cf7815a1b840d61852979d8845ddb1c133edaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 12/31] fix: gridnodes_read(): a node with NaN for either
 coordinate is invalid

---
 gridutils/gridnodes.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 6533765..50c54e0 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -131,13 +131,12 @@ gridnodes* gridnodes_read(char* fname, NODETYPE type)
         for (i = 0; i < gn->nx; ++i, ++xx, ++yy) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th point (%d x %d points expected)", fname, j * gn->nx + i + 1, gn->nx, gn->ny);
-            if (sscanf(buf, "%lf %lf", xx, yy) != 2) {
+            if (sscanf(buf, "%lf %lf", xx, yy) != 2 || isnan(*xx) || isnan(*yy)) {
                 *xx = NaN;
                 *yy = NaN;
                 continue;
             }
-            if (!isnan(*xx))
-                count++;
+            count++;
         }
     }
 
-- 
2.43.0


From 4ca62a16d399e5ef4f112274639bac7c9ea75a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 13/31] fix: gridnodes_transform(): refuse nodes of unspecified
 type

---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 50c54e0..2a9dd52 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -571,6 +571,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
     if (gn->type == type || type == NT_NONE)
         return gridnodes_copy(gn);
 
+    if (gn->type == NT_NONE)
+        gu_quit("gridnodes_transform(): nodes type not specified");
+
     gn1 = calloc(1, sizeof(gridnodes));
     gn1->type = type;
     gn1->maptype = gn->maptype;
-- 
2.43.0


From 1deec02bad755eec0920ffcef01c1eaaa6cc5f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 14/31] fix: gridnodes_transform(): handle centre grids with no
 valid block of centres

---
 gridutils/gridnodes.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 2a9dd52..f924fa8 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -21,6 +21,7 @@
 #include <stdarg.h>
 #include <limits.h>
 #include <math.h>
+#include <stdint.h>
 #include <assert.h>
 #include "nan.h"
 #include "gridnodes.h"
@@ -692,9 +693,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     pos[0] = (double) i - 0.5;
                     pos[1] = (double) j - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    pos1 = (nearest != SIZE_MAX) ? kd_getnodecoords(kt, nearest) : NULL;
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
@@ -760,9 +761,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     pos[0] = (double) i / 2.0 - 0.5;
                     pos[1] = (double) j / 2.0 - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    pos1 = (nearest != SIZE_MAX) ? kd_getnodecoords(kt, nearest) : NULL;
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
-- 
2.43.0


From 4cba15d4228dfa9e22eeae4bd65e3f5d85a8bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 15/31] fix: gridnodes_calcstats(): do not halve the cosine of
 the angle between the cell sides

---
 gridutils/gridnodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index f924fa8..3d05050 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -936,8 +936,8 @@ static void gridstats_init(gridstats* gs)
  */
 static double dtheta(double x1, double y1, double x2, double y2)
 {
-    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2) / 2.0;
-    double th = acos(cos_th) * 180.0 / M_PI;
+    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2);
+    double th = acos((cos_th > 1.0) ? 1.0 : (cos_th < -1.0) ? -1.0 : cos_th) * 180.0 / M_PI;
     double dth = fabs(90.0 - th);
 
     return dth;
-- 
2.43.0


From e80f3a2571364f70f32a97edbbf55f7199c136bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:13 +0000
Subject: [PATCH 16/31] fix: gridnodes_subgrid(): refuse an empty window

---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 3d05050..2dd375a 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -469,6 +469,9 @@ gridnodes* gridnodes_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jm
     if (imin == 0 && imax == gn->nx - 1 && jmin == 0 && jmax == gn->ny - 1)
         return gridnodes_copy(gn);
 
+    if (imin > imax || jmin > jmax)
+        gu_quit("gridnodes_subgrid(): no nodes in the window");
+
     new = calloc(1, sizeof(gridnodes));
 
     new->nx = imax - imin + 1;
-- 
2.43.0


From d7cc469199a8128707de2852f6cbbef2a8eaf8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 17/31] fix: gridmap_fij2xy(): return NaN for NaN indices

---
 gridutils/gridmap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 02796eb..ef6fe00 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -158,6 +158,12 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
         nce2 = gridkmap_getnce2(gm->map);
     }
 
+    if (isnan(fi) || isnan(fj)) {
+        *x = NaN;
+        *y = NaN;
+        return 0;
+    }
+
     /*
      * Trim I to range 0 to nce1 
      */
-- 
2.43.0


From 24f54f31a1c3168f9184fed0a1c57a5657c3370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 18/31] fix: gridmap_fij2xy(): clamp indices to the very end of
 the range

---
 gridutils/gridmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index ef6fe00..b1ecb31 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -173,7 +173,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     }
 
     if (fi > nce1) {
-        fi = nce1 - EPS;
+        fi = nce1;
         status = 0;
     }
 
@@ -186,7 +186,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     }
 
     if (fj > nce2) {
-        fj = nce2 - EPS;
+        fj = nce2;
         status = 0;
     }
 
-- 
2.43.0


From 2965bc46f245122fffd446ce89d1fa959157b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:17 +0000
Subject: [PATCH 19/31] fix: gridbmap_build(): do not divide an empty grid

---
 gridutils/gridbmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 2ab20ec..487196a 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -332,7 +332,7 @@ static void subgrid_divide(subgrid* sg, subgrid** sg1, subgrid** sg2)
     gridbmap* gm = sg->gmap;
     int index;
 
-    if ((sg->maxi <= sg->mini + 1) && (sg->maxj <= sg->minj + 1)) {
+    if (sg->bound->n == 0 || ((sg->maxi <= sg->mini + 1) && (sg->maxj <= sg->minj + 1))) {
         *sg1 = *sg2 = NULL;
         return;
     }
-- 
2.43.0


From 63f05f2c22b91b35064588c6dd73fbd90d8e0bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 20/31] fix: gridbmap_build(): compact the boundaries exactly,
 whatever the physical scale

---
 gridutils/gridbmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 487196a..f341c70 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -37,7 +37,7 @@
 #include "gridbmap.h"
 #include "gucommon.h"
 
-#define EPS_COMPACT 1.0e-10
+#define EPS_COMPACT 0.0
 
 typedef struct subgrid {
     gridbmap* gmap;              /* gridf map this subgrid belongs to */
-- 
2.43.0


From 400f49bf2df02f06e705f71db857e882783b9cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:44 +0000
Subject: [PATCH 21/31] fix: gridmap_xy2fij(): make the tests for small values
 relative, to handle grids of any physical scale

---
 gridutils/gridmap.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index b1ecb31..37073eb 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -267,19 +267,20 @@ static int calc_branch(gridmap* gm, double x, double y)
         double B, C;
         int k;
 
+        B = e * x - a * y + a * h - d * e + c * f - b * g;
+        C = g * x - c * y + c * h - d * g;
+
         /*
          * normally one checks A before calling calc_branch() 
          */
-        if (fabs(A) < EPS_ZERO)
+        if (fabs(A) <= EPS_ZERO * fabs(B))
             return 0;           /* failed */
 
-        B = e * x - a * y + a * h - d * e + c * f - b * g;
-        C = g * x - c * y + c * h - d * g;
-
         for (k = 0; k < 2; ++k) {
             double u = (-B + sign * sqrt(B * B - 4.0 * A * C)) / (2.0 * A);
-            double v_denom = a * u + c;
-            double v = (fabs(v_denom) < EPS_ZERO) ? (y - f * u - h) / (e * u + g) : (x - b * u - d) / v_denom;
+            double d1 = a * u + c;
+            double d2 = e * u + g;
+            double v = (fabs(d2) > fabs(d1)) ? (y - f * u - h) / d2 : (x - b * u - d) / d1;
 
             error[k] = 0.0;
 
@@ -353,7 +354,7 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
 
         double u, v, d1, d2;
 
-        if (fabs(A) < EPS_ZERO)
+        if (fabs(A) <= EPS_ZERO * fabs(B))
             u = -C / B * (1.0 + A * C / B / B);
         else {
             if (gm->sign == 0) {
-- 
2.43.0


From 92454a33fd263dac9e3f5d6917fe2baa9a7cb21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:45 +0000
Subject: [PATCH 22/31] fix: gu_readmask(): accept the last line without
 newline, do not write before the buffer

---
 gridutils/gucommon.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 928675e..4afbe5e 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -118,6 +118,7 @@ int** gu_readmask(char* fname, int nx, int ny)
     int** v = NULL;
     FILE* f = NULL;
     char buf[BUFSIZE];
+    size_t len;
     int count;
     int i, j;
 
@@ -132,7 +133,9 @@ int** gu_readmask(char* fname, int nx, int ny)
         for (i = 0; i < nx; ++i) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th mask value (%d x %d values expected)", fname, j * nx + i + 1, nx, ny);
-            buf[strlen(buf) - 1] = 0;
+            len = strlen(buf);
+            if (len > 0 && buf[len - 1] == '\n')
+                buf[len - 1] = 0;
             if (strcmp(buf, "0") == 0)
                 v[j][i] = 0;
             else if (strcmp(buf, "1") == 0) {
-- 
2.43.0


From 2cc9c9476e38f0bb6e0aa48633ecbbd3943fc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:46 +0000
Subject: [PATCH 23/31] fix: gu_alloc2d(): refuse sizes that overflow

---
 gridutils/gucommon.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 4afbe5e..7923407 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -18,6 +18,7 @@
 #include <string.h>
 #include <stdarg.h>
 #include <limits.h>
+#include <stdint.h>
 #include <assert.h>
 #include <errno.h>
 #include "version.h"
@@ -82,10 +83,12 @@ void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize)
     size_t size;
     void* p;
     void** pp;
-    int i;
+    size_t i;
 
-    if (ni <= 0 || nj <= 0)
-        gu_quit("gu_alloc2d(): invalid size (nj = %d, ni = %d)", nj, ni);
+    if (ni <= 0 || nj <= 0 || unitsize <= 0)
+        gu_quit("gu_alloc2d(): invalid size (nj = %zu, ni = %zu, unitsize = %zu)", nj, ni, unitsize);
+    if (nj > SIZE_MAX / sizeof(void*) || ni > SIZE_MAX / unitsize || nj > (SIZE_MAX - nj * sizeof(void*)) / (ni * unitsize))
+        gu_quit("gu_alloc2d(): invalid size (nj = %zu, ni = %zu, unitsize = %zu)", nj, ni, unitsize);
 
     size = nj * sizeof(void*) + nj * ni * unitsize;
     if ((p = malloc(size)) == NULL) {
-- 
2.43.0


From 0d79822bfeec71c75e5ecfe7d5935bf538e11d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:50 +0000
Subject: [PATCH 24/31] fix: insertgrid: do not read past the end of grid rows

---
 gridutils/insertgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index ac13a82..585768a 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -209,13 +209,13 @@ int main(int argc, char* argv[])
     if (!merge) {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
 
                 if (ok2) {
                     gx3[j3][i3] = gx2[j2][i2];
                     gy3[j3][i3] = gy2[j2][i2];
                 } else {
-                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                     if (ok1) {
                         gx3[j3][i3] = gx1[j1][i1];
@@ -230,8 +230,8 @@ int main(int argc, char* argv[])
     } else {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
-                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
+                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                 if (!ok2 && !ok1) {
                     gx3[j3][i3] = NaN;
-- 
2.43.0


From 2e3edf343d4cf04cd1eb4f76d7cf9467b922e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:47 +0000
Subject: [PATCH 25/31] fix: setbathy: refuse to run without the value to set

---
 gridutils/setbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 0a3a6ed..7d3ae44 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -117,6 +117,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* imin, i
 
     if (*fname == NULL)
         usage();
+    if (*z == NULL)
+        gu_quit("no value specified: use option \"-z\"");
 }
 
 /**
-- 
2.43.0


From 269c799667455c2301d5d1bb4ba99bef1569f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 26/31] fix: gridbathy: make the numbers of Natural Neighbours
 rules match the help

---
 gridutils/gridbathy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 7a832ba..0351a2f 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -47,7 +47,7 @@
 #define ZMIN_DEF (-DBL_MAX)
 #define ZMAX_DEF DBL_MAX
 
-enum { CSA = 0, NN_SIBSON = 1, NN_NONSIBSONIAN = 2, LINEAR = 3, AVERAGE = 4 } rule = CSA;
+enum { CSA = 0, NN_NONSIBSONIAN = 1, NN_SIBSON = 2, LINEAR = 3, AVERAGE = 4 } rule = CSA;
 
 int linear = 0;
 int indexspace = 0;
-- 
2.43.0


From 5b13893fda9ea5f59a3bc726565a15132e128f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:25 +0000
Subject: [PATCH 27/31] fix: gridbathy: do not look up points converted to
 index space when averaging

---
 gridutils/gridbathy.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 0351a2f..20d7713 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -334,6 +334,11 @@ int main(int argc, char* argv[])
         gu_quit("min depth = %.3g > max depth = %.3g", zmin, zmax);
     if (nt != NT_DD && nt != NT_COR)
         gu_quit("unsupported node type");
+    /*
+     * averaging is conducted over grid cells; it does not depend on the space
+     */
+    if (rule == AVERAGE)
+        indexspace = 0;
 
     /*
      * read bathymetry 
-- 
2.43.0


From 3ac9c39504a4f553918f4e70dbe263a592e3df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 28/31] fix: gridbathy: refuse a cell outside the grid

---
 gridutils/gridbathy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 20d7713..33ade5a 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -317,7 +317,7 @@ int main(int argc, char* argv[])
     void (*interpolate_point) (void*, point *) = NULL;
     void* interpolator = NULL;
 
-    int i = -1, j = -1;
+    int i = INT_MIN, j = INT_MIN;
 
     parse_commandline(argc, argv, &bathyfname, &gridfname, &maskfname, &nt, &ppe, &zmin, &zmax, &i, &j);
 
@@ -373,6 +373,8 @@ int main(int argc, char* argv[])
         gridnodes_destroy(gn);
         gn = newgn;
     }
+    if (i != INT_MIN && (i < 0 || i >= gridnodes_getnce1(gn) || j < 0 || j >= gridnodes_getnce2(gn)))
+        gu_quit("cell (%d,%d) is outside the grid", i, j);
     /*
      * build the grid map for physical <-> index space conversions
      */
@@ -451,7 +453,7 @@ int main(int argc, char* argv[])
         double** gx = gridnodes_getx(gn);
         int jmin, jmax, imin, imax;
 
-        if (i < 0) {
+        if (i == INT_MIN) {
             imin = 0;
             imax = gridnodes_getnce1(gn) - 1;
             jmin = 0;
-- 
2.43.0


From 2506ccd8102d2f6444beb4dbb9b00a97da1823b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:31 +0000
Subject: [PATCH 29/31] fix: insertgrid: refuse a location that overflows the
 grid size

---
 gridutils/insertgrid.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index 585768a..9e83156 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -186,6 +186,8 @@ int main(int argc, char* argv[])
     gx2 = gridnodes_getx(grid2);
     gy2 = gridnodes_gety(grid2);
 
+    if (i0 > INT_MAX - nx2 || j0 > INT_MAX - ny2)
+        gu_quit("insertgrid: location (%d, %d) is too far", i0, j0);
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
     grid3 = gridnodes_create(nx3, ny3, type);
-- 
2.43.0


From 8eae09f17e17bfaa174f35aac4f16e480f168e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 30/31] fix: gridbmap_build(): do not cut a region along an
 edge outside of it

---
 gridutils/gridbmap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index f341c70..dd46dba 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -204,6 +204,11 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
              * not the next boundary node. 
              */
             tmp = poly_findindex(pl, gx[index][i + 1], gy[index][i + 1]);
+            if (tmp >= 0 && !poly_containspoint(pl, (gx[index][i] + gx[index][i + 1]) / 2.0, (gy[index][i] + gy[index][i + 1]) / 2.0))
+                /*
+                 * the edge is outside the polygon
+                 */
+                continue;
             if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
                 break;
         }
@@ -274,6 +279,8 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
             if (ii1 < 0)
                 continue;
             tmp = poly_findindex(pl, gx[i + 1][index], gy[i + 1][index]);
+            if (tmp >= 0 && !poly_containspoint(pl, (gx[i][index] + gx[i + 1][index]) / 2.0, (gy[i][index] + gy[i + 1][index]) / 2.0))
+                continue;
             if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
                 break;
         }
-- 
2.43.0


From 62446ef3bba5d0a3817026e9469079081560ee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 31/31] fix: gridbathy must not take an argument that does not
 start with '-' for an option (reads past the end of an empty one)

---
 gridutils/gridbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 33ade5a..f62fe18 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -194,6 +194,8 @@ static void parse_commandline(int argc, char* argv[], char** bathyfname, char**
 
     i = 1;
     while (i < argc) {
+        if (argv[i][0] != '-')
+            usage();
         switch (argv[i][1]) {
         case 'a':
             i++;
-- 
2.43.0

