From 3d3d486c22e3404663ddc003f6086a9b0ed4174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 01/40] fix: pluto_matrix_interchange_cols truncated entries to
 32 bits

---
 lib/math_support.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index bb23abd..1386bda 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -204,7 +204,8 @@ void pluto_matrix_interchange_rows(PlutoMatrix *mat, int r1, int r2) {
 }
 
 void pluto_matrix_interchange_cols(PlutoMatrix *mat, int c1, int c2) {
-  int tmp, i;
+  int i;
+  int64_t tmp;
 
   for (i = 0; i < mat->nrows; i++) {
     tmp = mat->val[i][c1];
-- 
2.43.0


From 672dad63803c40d4ee06b036e06ce808ac4b03b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 02/40] fix: lcm gave wrong results when the product of its
 arguments overflows

---
 lib/math_support.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 1386bda..23e6fc6 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -390,9 +390,9 @@ void gaussian_eliminate(PlutoMatrix *mat, int start, int num_elim) {
 }
 
 int64_t lcm(int64_t a, int64_t b) {
-  if (a * b == 0)
+  if (a == 0 || b == 0)
     return 0;
-  return (a * b) / gcd(a, b);
+  return (a / gcd(a, b)) * b;
 }
 
 /* Assuming both args are not zero */
-- 
2.43.0


From 8fe75fc8333cadf8a63447d2397efdd65bddabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 03/40] fix: gcd took arguments whose product is a multiple of
 2^64 for zero

---
 lib/math_support.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 23e6fc6..a03d099 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -401,7 +401,7 @@ int64_t gcd(int64_t a, int64_t b) {
   b = llabs(b);
 
   /* If at least one of them is zero */
-  if (a * b == 0)
+  if (a == 0 || b == 0)
     return a + b;
 
   if (a == b)
-- 
2.43.0


From 4ac38bfeb716aad8e1e1a47193cfe49e52f63ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 04/40] fix: gaussian_eliminate_var truncated its factors to 32
 bits

---
 lib/math_support.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index a03d099..6aad930 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -353,7 +353,7 @@ void pluto_matrix_normalize_row(PlutoMatrix *mat, int pos) {
 /* pos: 0-indexed */
 void gaussian_eliminate_var(PlutoMatrix *mat, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   for (r = 0; r < mat->nrows; r++) {
     if (mat->val[r][pos] != 0) {
-- 
2.43.0


From 9cb81b92a025ffc95a01aab201f2739c438cf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 05/40] fix: row echelon form (and rank) ignored columns of
 wide matrices and truncated its factors

---
 lib/math_support.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 6aad930..1838bff 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -453,10 +453,11 @@ PlutoMatrix *pluto_matrix_product(const PlutoMatrix *mat1,
 
 /* Converts matrix to row-echelon form in-place */
 PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) {
-  int i, j, k, r, _lcm, factor1;
+  int i, j, k, r;
+  int64_t _lcm, factor1, factor2;
 
   r = 0;
-  for (i = 0; i < PLMIN(mat->ncols, mat->nrows); i++) {
+  for (i = 0; i < mat->ncols && r < mat->nrows; i++) {
     if (mat->val[r][i] == 0) {
       for (k = r + 1; k < mat->nrows; k++) {
         if (mat->val[k][i] != 0)
@@ -472,9 +473,9 @@ PlutoMatrix *pluto_matrix_to_row_echelon(PlutoMatrix *mat) {
           continue;
         _lcm = lcm(mat->val[k][i], mat->val[r][i]);
         factor1 = _lcm / mat->val[k][i];
+        factor2 = _lcm / mat->val[r][i];
         for (j = i; j < mat->ncols; j++) {
-          mat->val[k][j] = mat->val[k][j] * factor1 -
-                           mat->val[r][j] * (_lcm / mat->val[r][i]);
+          mat->val[k][j] = mat->val[k][j] * factor1 - mat->val[r][j] * factor2;
         }
       }
       r++;
-- 
2.43.0


From 943c0a2cf7c4d22b6371b5d8e4d0a56d7c7e0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 06/40] fix: pluto_matrix_get_rank lost rows whose entries add
 up to a multiple of 2^32

---
 lib/math_support.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 1838bff..e650b65 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -493,11 +493,12 @@ unsigned pluto_matrix_get_rank(const PlutoMatrix *mat) {
 
   unsigned null = 0;
   for (unsigned i = 0; i < re->nrows; i++) {
-    int sum = 0;
+    int nonzero = 0;
     for (unsigned j = 0; j < re->ncols; j++) {
-      sum += llabs(re->val[i][j]);
+      if (re->val[i][j] != 0)
+        nonzero = 1;
     }
-    if (sum == 0)
+    if (!nonzero)
       null++;
   }
   rank = re->nrows - null;
-- 
2.43.0


From d2e1b058163c3c9692cb8d35f7153c10f6af1a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 07/40] fix: pluto_vector_is_parallel truncated entries to 32
 bits

---
 lib/math_support.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index e650b65..1dec688 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -646,7 +646,8 @@ char *pluto_affine_function_sprint(int64_t *func, int ndims,
  */
 int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                              int r2) {
-  int num, den, j;
+  int64_t num, den;
+  int j;
 
   assert(mat1->ncols == mat2->ncols);
 
-- 
2.43.0


From 8303f93fedbf21d1a54f58a9fae6bc9edf9e88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:03 +0000
Subject: [PATCH 08/40] fix: pluto_vector_is_normal truncated the dot product
 to 32 bits

---
 lib/math_support.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/math_support.c b/lib/math_support.c
index 1dec688..2c84b37 100644
--- a/lib/math_support.c
+++ b/lib/math_support.c
@@ -678,7 +678,8 @@ int pluto_vector_is_parallel(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
 
 int pluto_vector_is_normal(PlutoMatrix *mat1, int r1, PlutoMatrix *mat2,
                            int r2) {
-  int j, dot;
+  int j;
+  int64_t dot;
 
   assert(mat1->ncols == mat2->ncols);
 
-- 
2.43.0


From 14e642096a74036ba7aecac9a20be64b8e0ca67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:53 +0000
Subject: [PATCH 09/40] fix: pluto_constraints_remove_dim kept a stale (freed)
 name when the next dimension is unnamed

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index bb8a334..d50aeef 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1545,7 +1545,7 @@ void pluto_constraints_remove_dim(PlutoConstraints *cst, int pos) {
   }
 
   for (int j = pos; j < (int)cst->ncols - 1; j++) {
-    if (cst->names && j < (int)cst->ncols - 2 && cst->names[j + 1]) {
+    if (cst->names && j < (int)cst->ncols - 2) {
       cst->names[j] = cst->names[j + 1];
     }
   }
-- 
2.43.0


From 8ddc1f02a08537a372392d28435eb049279f9959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:54 +0000
Subject: [PATCH 10/40] fix: pluto_constraints_copy_single wrote names outside
 the array of a narrower destination

---
 lib/constraints.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index d50aeef..3c30652 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -615,8 +615,10 @@ PlutoConstraints *pluto_constraints_copy_single(PlutoConstraints *dest,
   if (dest->names) {
     for (int i = 0; i < (int)dest->ncols - 1; i++) {
       free(dest->names[i]);
-      dest->names[i] = NULL;
     }
+    /* The array may be too short for src's dimensions. */
+    free(dest->names);
+    dest->names = NULL;
   }
 
   dest->nrows = src->nrows;
-- 
2.43.0


From 63793b8f887f28c5109e379b32990e4c4a230e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:55 +0000
Subject: [PATCH 11/40] fix: pluto_constraints_add_to_each resized the other
 elements of the list too

---
 lib/constraints.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 3c30652..7471158 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -313,7 +313,8 @@ PlutoConstraints *pluto_constraints_add_to_each(PlutoConstraints *cst1,
   assert(cst1->ncols == cst2->ncols);
 
   if (cst1->nrows + cst2->nrows > cst1->alloc_nrows) {
-    pluto_constraints_resize(cst1, cst1->nrows + cst2->nrows, cst1->ncols);
+    pluto_constraints_resize_single(cst1, cst1->nrows + cst2->nrows,
+                                    cst1->ncols);
   } else {
     cst1->nrows = cst1->nrows + cst2->nrows;
   }
-- 
2.43.0


From 024ff122930ae60f5165f168e2ad1b8250c82fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:56 +0000
Subject: [PATCH 12/40] fix: pluto_constraints_negate_constraint did not negate
 the constant

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 7471158..1e672eb 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1738,7 +1738,7 @@ void pluto_constraints_negate_constraint(PlutoConstraints *cst, int pos) {
 
   assert(cst->next == NULL);
 
-  for (j = 0; j < cst->ncols - 1; j++) {
+  for (j = 0; j < cst->ncols; j++) {
     cst->val[pos][j] = -cst->val[pos][j];
   }
   cst->val[pos][cst->ncols - 1]--;
-- 
2.43.0


From 6c90684ee54d0cee0dc12ced87b729b6f8444603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:10 +0000
Subject: [PATCH 13/40] fix: pluto_constraints_add_dim wrote past the names of
 a system without dimensions

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 1e672eb..3fc110e 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1621,7 +1621,7 @@ void pluto_constraints_add_dim(PlutoConstraints *cst, int pos,
     for (i = 0; i < cst->nrows; i++) {
       cst->val[i][j + 1] = cst->val[i][j];
     }
-    if (cst->names && j <= cst->ncols - 3) {
+    if (cst->names && j <= (int)cst->ncols - 3) {
       cst->names[j + 1] = cst->names[j];
     }
   }
-- 
2.43.0


From b4dc3f10f151779914c930bad1529b497df771ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:10 +0000
Subject: [PATCH 14/40] fix: keep 64-bit factors in
 pluto_constraints_gaussian_eliminate

---
 lib/constraints.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 3fc110e..6c1317e 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -2567,7 +2567,7 @@ void fourier_motzkin_eliminate_smart(PlutoConstraints *cst, unsigned pos) {
 
 void pluto_constraints_gaussian_eliminate(PlutoConstraints *cst, int pos) {
   int r, r2, c;
-  int factor1, factor2;
+  int64_t factor1, factor2;
 
   assert(pos >= 0);
   assert(pos <= cst->ncols - 2);
-- 
2.43.0


From b469e7bee0511f0686eadfb342774a63e9c2b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:15 +0000
Subject: [PATCH 15/40] fix: transitive closure iterates over intermediate
 vertices outermost

---
 lib/ddg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/ddg.c b/lib/ddg.c
index ad49d2f..259eb88 100644
--- a/lib/ddg.c
+++ b/lib/ddg.c
@@ -102,9 +102,9 @@ Graph *get_undirected_graph(const Graph *g) {
 /// Compute the transitive closure of the graph using Floyd-Warshall algorithm.
 void compute_transitive_closure(Graph *g) {
   int i, j, k;
-  for (i = 0; i < g->nVertices; i++) {
-    for (j = 0; j < g->nVertices; j++) {
-      for (k = 0; k < g->nVertices; k++) {
+  for (k = 0; k < g->nVertices; k++) {
+    for (i = 0; i < g->nVertices; i++) {
+      for (j = 0; j < g->nVertices; j++) {
         g->adj->val[i][j] =
             ((g->adj->val[i][j]) || (g->adj->val[i][k] && g->adj->val[k][j]));
       }
-- 
2.43.0


From 13dd5ac104b8645f526ef55f67cf9962dd47edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:16 +0000
Subject: [PATCH 16/40] fix: ddg_compute_cc keeps the component found by the
 search

---
 lib/pluto.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 7ccd33f..806d393 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2003,7 +2003,6 @@ void ddg_compute_cc(PlutoProg *prog) {
       dfs_vertex(gU, &gU->vertices[i], &time);
       gU->vertices[i].cc_id = cc_id;
     }
-    gU->vertices[i].cc_id = cc_id;
     g->vertices[i].cc_id = gU->vertices[i].cc_id;
     stmt_id = g->vertices[i].id;
     assert(stmt_id == i);
-- 
2.43.0


From b04d57c1f6f82f1e2c4bede07ca178d5c8a9938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:16 +0000
Subject: [PATCH 17/40] fix: pluto_stmt_remove_dim: also remove the dimension
 from bounding_poly

---
 lib/program.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index 391f1f6..99983a3 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -1124,10 +1124,13 @@ void pluto_stmt_remove_dim(Stmt *stmt, unsigned pos, PlutoProg *prog) {
   for (int i = 0; i < prog->ndeps; i++) {
     if (prog->deps[i]->src == stmt->id) {
       pluto_constraints_remove_dim(prog->deps[i]->dpolytope, pos);
+      pluto_constraints_remove_dim(prog->deps[i]->bounding_poly, pos);
     }
     if (prog->deps[i]->dest == stmt->id) {
       pluto_constraints_remove_dim(prog->deps[i]->dpolytope,
                                    prog->stmts[prog->deps[i]->src]->dim + pos);
+      pluto_constraints_remove_dim(prog->deps[i]->bounding_poly,
+                                   prog->stmts[prog->deps[i]->src]->dim + pos);
     }
   }
 
@@ -1135,11 +1138,15 @@ void pluto_stmt_remove_dim(Stmt *stmt, unsigned pos, PlutoProg *prog) {
     assert(prog->transdeps[i] != NULL);
     if (prog->transdeps[i]->src == stmt->id) {
       pluto_constraints_remove_dim(prog->transdeps[i]->dpolytope, pos);
+      pluto_constraints_remove_dim(prog->transdeps[i]->bounding_poly, pos);
     }
     if (prog->transdeps[i]->dest == stmt->id) {
       pluto_constraints_remove_dim(prog->transdeps[i]->dpolytope,
                                    prog->stmts[prog->transdeps[i]->src]->dim +
                                        pos);
+      pluto_constraints_remove_dim(prog->transdeps[i]->bounding_poly,
+                                   prog->stmts[prog->transdeps[i]->src]->dim +
+                                       pos);
     }
   }
 }
-- 
2.43.0


From 145b3a1b529640bab004c5b4b2ddc638e8a56a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:39 +0000
Subject: [PATCH 18/40] fix: pluto_stmt_loop_interchange: the types move along
 with the schedule rows

---
 lib/transforms.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/transforms.c b/lib/transforms.c
index afaecbf..5a845cf 100644
--- a/lib/transforms.c
+++ b/lib/transforms.c
@@ -63,6 +63,9 @@ void pluto_stmt_loop_interchange(Stmt *stmt, int level1, int level2) {
     stmt->trans->val[level1][j] = stmt->trans->val[level2][j];
     stmt->trans->val[level2][j] = tmp;
   }
+  PlutoHypType tmp_type = stmt->hyp_types[level1];
+  stmt->hyp_types[level1] = stmt->hyp_types[level2];
+  stmt->hyp_types[level2] = tmp_type;
 }
 
 void pluto_interchange(PlutoProg *prog, int level1, int level2) {
-- 
2.43.0


From f32e5b8c15f7a00311a2972511dcb1bbefa332fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:41 +0000
Subject: [PATCH 19/40] fix: pluto_stmt_dup: copy the types of the schedule
 rows

---
 lib/program.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index 99983a3..a6e5f7e 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -2207,6 +2207,10 @@ Stmt *pluto_stmt_dup(const Stmt *stmt) {
   nstmt->dim_orig = stmt->dim_orig;
   nstmt->type = stmt->type;
 
+  for (unsigned i = 0; i < stmt->trans->nrows; i++) {
+    nstmt->hyp_types[i] = stmt->hyp_types[i];
+  }
+
   for (unsigned i = 0; i < stmt->dim; i++) {
     nstmt->iterators[i] = strdup(stmt->iterators[i]);
     nstmt->is_orig_loop[i] = stmt->is_orig_loop[i];
-- 
2.43.0


From c7677cf921298a5250e0eb3d704e5e8ef7e0e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:42 +0000
Subject: [PATCH 20/40] fix: pluto_prog_add_param: also add the parameter to
 bounding_poly

---
 lib/program.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/program.cpp b/lib/program.cpp
index a6e5f7e..991924f 100644
--- a/lib/program.cpp
+++ b/lib/program.cpp
@@ -970,6 +970,11 @@ void pluto_prog_add_param(PlutoProg *prog, const char *param, int pos) {
     pluto_constraints_add_dim(
         prog->deps[i]->dpolytope,
         prog->deps[i]->dpolytope->ncols - 1 - prog->npar + pos, NULL);
+    if (prog->deps[i]->bounding_poly) {
+      pluto_constraints_add_dim(
+          prog->deps[i]->bounding_poly,
+          prog->deps[i]->bounding_poly->ncols - 1 - prog->npar + pos, NULL);
+    }
   }
   pluto_constraints_add_dim(prog->param_context,
                             prog->param_context->ncols - 1 - prog->npar + pos,
-- 
2.43.0


From a3556f06a183cc62b650dedb353e83d99487c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:18 +0000
Subject: [PATCH 21/40] fix: pluto_get_permutable_band: only skip dependences
 satisfied at an earlier scalar level

---
 lib/polyloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index bdb8da7..00dce97 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -791,7 +791,8 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
         continue;
       /* Dependences satisfied in previous scalar dimensions in the band
        * don't count as well (i.e., they can have negative components) */
-      if (pluto_is_depth_scalar(loop, dep->satisfaction_level))
+      if (dep->satisfaction_level < depth &&
+          pluto_is_depth_scalar(loop, dep->satisfaction_level))
         continue;
       /* Rest of the dependences need to have non-negative components */
       if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, loop->stmts,
-- 
2.43.0


From 9e3c5bced475df4e178d3b4f61ae828dfb7cf1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 22/40] fix: pluto_get_permutable_band: no band when a
 dependence is not forward at the loop itself

---
 lib/polyloop.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/polyloop.c b/lib/polyloop.c
index 00dce97..007b756 100644
--- a/lib/polyloop.c
+++ b/lib/polyloop.c
@@ -809,16 +809,12 @@ Band *pluto_get_permutable_band(Ploop *loop, const PlutoProg *prog) {
   } while (depth < prog->num_hyperplanes);
 
   /* Peel off scalar dimensions from the end */
-  while (pluto_is_depth_scalar(loop, depth - 1))
+  while (depth > loop->depth && pluto_is_depth_scalar(loop, depth - 1))
     depth--;
 
-  /* depth will always be at least loop->depth + 1 at this stage */
-
   int width = depth - loop->depth;
 
-  assert(width >= 1);
-
-  if (width == 1) {
+  if (width <= 1) {
     /* Trivial (single loop in band) */
     return NULL;
   } else {
-- 
2.43.0


From 0cb8e6e3a0e03cc0b3df7bdd99ae21261f208109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:45 +0000
Subject: [PATCH 23/40] fix: pluto_stripmine: keep the constant and stay within
 the row when bounding the strip

---
 lib/transforms.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/transforms.c b/lib/transforms.c
index 5a845cf..3d8cfa8 100644
--- a/lib/transforms.c
+++ b/lib/transforms.c
@@ -43,17 +43,17 @@ void pluto_stripmine(Stmt *stmt, int dim, int factor, char *supernode,
   pluto_constraints_add_inequality(domain);
   domain->val[domain->nrows - 1][0] = -factor;
   assert(stmt->trans->ncols == domain->ncols);
-  for (int i = 1; i < (int)stmt->trans->ncols - 1; i++) {
+  for (int i = 1; i < (int)stmt->trans->ncols; i++) {
     domain->val[domain->nrows - 1][i] = stmt->trans->val[dim + 1][i];
   }
 
   pluto_constraints_add_inequality(domain);
   domain->val[domain->nrows - 1][0] = factor;
   assert(stmt->trans->ncols == domain->ncols);
-  for (int i = 1; i < (int)stmt->trans->ncols - 1; i++) {
+  for (int i = 1; i < (int)stmt->trans->ncols; i++) {
     domain->val[domain->nrows - 1][i] = -stmt->trans->val[dim + 1][i];
   }
-  domain->val[domain->nrows - 1][stmt->trans->ncols] += factor;
+  domain->val[domain->nrows - 1][stmt->trans->ncols - 1] += factor - 1;
 }
 
 /// Interchange loops for a stmt.
-- 
2.43.0


From d7e4b663a1e2c49515f232b02eafaf7f020893f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:47 +0000
Subject: [PATCH 24/40] fix: get_feautrier_schedule_constraints: do not read
 the freed per-dependence constraints

---
 lib/framework.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index 29467df..5734122 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -645,11 +645,11 @@ get_feautrier_schedule_constraints(PlutoProg *prog,
 
     pluto_constraints_add(fcst, fcst_d);
     assert(fcst->nrows >= fcst_d->nrows);
+    unsigned prev_nrows = fcst->nrows - fcst_d->nrows;
     pluto_constraints_free(fcst_d);
 
     if (fcst->nrows >= CONSTRAINTS_SIMPLIFY_THRESHOLD + (1000 * inc) &&
-        fcst->nrows - fcst_d->nrows <
-            CONSTRAINTS_SIMPLIFY_THRESHOLD + (1000 * inc)) {
+        prev_nrows < CONSTRAINTS_SIMPLIFY_THRESHOLD + (1000 * inc)) {
       pluto_constraints_simplify(fcst);
       IF_DEBUG(fprintf(stdout,
                        "\tAfter dep %d; num_constraints_simplified: %d\n",
-- 
2.43.0


From 5fe237b302c1f357ed1cb1e6443667ccf7e60194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:48 +0000
Subject: [PATCH 25/40] fix: get_per_cc_obj_sum_constraints: sum the bounds of
 the right columns

---
 lib/pluto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pluto.c b/lib/pluto.c
index 806d393..76f9aa3 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -752,7 +752,7 @@ PlutoConstraints *get_per_cc_obj_sum_constraints(PlutoProg *prog) {
   for (int i = 0; i < npar + 1; i++) {
     obj_sum_cst->val[i][i] = 1;
     for (int j = 1; j <= num_ccs; j++) {
-      obj_sum_cst->val[i][j + i] = -1;
+      obj_sum_cst->val[i][(npar + 1) * j + i] = -1;
     }
   }
   return obj_sum_cst;
-- 
2.43.0


From dab1b2dc1b528e195a633401771c0cdc85557518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:55 +0000
Subject: [PATCH 26/40] fix: isl_basic_map_from_pluto_constraints: do not
 truncate coefficients to 32 bits

---
 lib/constraints_isl.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index 85b40c2..b210487 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -225,7 +225,15 @@ isl_basic_map_from_pluto_constraints(isl_ctx *ctx, const PlutoConstraints *cst,
     }
 
     for (unsigned j = 0; j < cst->ncols; ++j) {
-      *m = isl_mat_set_element_si(*m, row, j, cst->val[i][j]);
+      mpz_t tmp, one;
+      mpz_init(tmp);
+      mpz_init(one);
+      mpz_set_ui(one, 1);
+      mpz_set_sll(tmp, cst->val[i][j]);
+      isl_val *v = isl_val_from_gmp(ctx, tmp, one);
+      *m = isl_mat_set_element_val(*m, row, j, v);
+      mpz_clear(tmp);
+      mpz_clear(one);
     }
   }
 
-- 
2.43.0


From 80613780dc983e371c224c8c0efd1d6be8d368fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:07 +0000
Subject: [PATCH 27/40] fix: isl_val_get_num_ll: saturate too small values to
 the smallest number

---
 lib/isl_support.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/isl_support.c b/lib/isl_support.c
index a37e731..17469de 100644
--- a/lib/isl_support.c
+++ b/lib/isl_support.c
@@ -147,7 +147,7 @@ long long isl_val_get_num_ll(__isl_keep isl_val *v) {
 
     /* 2^63-1 is the largest positive signed number for 64-bit */
     /* -2^63 is the largest negative signed number for 64-bit */
-    return sign ? (long long)((1ULL << 63) - 1) : (long long)((1ULL << 63));
+    return sign > 0 ? (long long)((1ULL << 63) - 1) : (long long)((1ULL << 63));
   }
 
   /* tmp = (lower 64 bits of r) */
-- 
2.43.0


From 4a801cb872cf7b31dd825f636ddeebb327c9a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:22 +0000
Subject: [PATCH 28/40] fix: pluto_constraints_union_isl: use an isl context

---
 lib/constraints_isl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index b210487..2df4761 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -412,13 +412,15 @@ int64_t *pluto_constraints_lexmin_isl(const PlutoConstraints *cst, int negvar) {
 
 PlutoConstraints *pluto_constraints_union_isl(const PlutoConstraints *cst1,
                                               const PlutoConstraints *cst2) {
-  isl_set *set1 = isl_set_from_pluto_constraints(cst1, NULL);
-  isl_set *set2 = isl_set_from_pluto_constraints(cst2, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set1 = isl_set_from_pluto_constraints(cst1, ctx);
+  isl_set *set2 = isl_set_from_pluto_constraints(cst2, ctx);
   isl_set *set3 = isl_set_union(set1, set2);
 
   PlutoConstraints *ucst = isl_set_to_pluto_constraints(set3, cst1->context);
 
   isl_set_free(set3);
+  isl_ctx_free(ctx);
 
   return ucst;
 }
-- 
2.43.0


From ab1237530ff4fb091139097cceed1eecd031080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:38 +0000
Subject: [PATCH 29/40] fix: pluto_constraints_project_out_isl: return the
 projection in the system passed in

---
 lib/constraints_isl.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/constraints_isl.c b/lib/constraints_isl.c
index 2df4761..acc80c4 100644
--- a/lib/constraints_isl.c
+++ b/lib/constraints_isl.c
@@ -41,12 +41,15 @@ void pluto_constraints_project_out_isl(PlutoConstraints *cst, int start,
   int end = start + num - 1;
   assert(start >= 0 && end <= (int)cst->ncols - 2);
 
-  PlutoContext *context = cst->context;
-  isl_set *set = isl_set_from_pluto_constraints(cst, NULL);
+  isl_ctx *ctx = isl_ctx_alloc();
+  isl_set *set = isl_set_from_pluto_constraints(cst, ctx);
   set = isl_set_project_out(set, isl_dim_set, start, num);
-  pluto_constraints_free(cst);
-  cst = isl_set_to_pluto_constraints(set, context);
+  PlutoConstraints *projected =
+      isl_set_to_pluto_constraints(set, cst->context);
+  pluto_constraints_copy(cst, projected);
+  pluto_constraints_free(projected);
   isl_set_free(set);
+  isl_ctx_free(ctx);
 }
 
 /* start: 0-indexed */
-- 
2.43.0


From 1637fb52f5607964d2a2be2a7f50b1ac95df3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:30 +0000
Subject: [PATCH 30/40] fix: pluto_update_deps_after_iss: do not keep the freed
 dependences when none remains

---
 lib/iss.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/iss.c b/lib/iss.c
index 475b786..4585928 100644
--- a/lib/iss.c
+++ b/lib/iss.c
@@ -377,12 +377,10 @@ void pluto_update_deps_after_iss(PlutoProg *prog, PlutoConstraints **cuts,
     pluto_dep_free(dep);
   }
 
-  if (num_iss_deps >= 1) {
-    free(prog->deps);
+  free(prog->deps);
 
-    prog->deps = iss_deps;
-    prog->ndeps = num_iss_deps;
-  }
+  prog->deps = iss_deps;
+  prog->ndeps = num_iss_deps;
 }
 
 /*
-- 
2.43.0


From c5c5e75240ebca4eedceced5508582f8f1d27182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:52 +0000
Subject: [PATCH 31/40] fix: pluto_constraints_get_const_lb/ub: use the sign
 and size of the coefficient

---
 lib/constraints.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/lib/constraints.c b/lib/constraints.c
index 6c1317e..d35dfb3 100644
--- a/lib/constraints.c
+++ b/lib/constraints.c
@@ -1952,16 +1952,21 @@ int pluto_constraints_get_const_lb(const PlutoConstraints *cnst, int pos,
   pluto_constraints_project_out_single(cst, 1, cst->ncols - 2);
 
   retval = 0;
-  *lb = INT_MIN;
+  *lb = LLONG_MIN;
   for (i = 0; i < cst->nrows; i++) {
-    if (cst->is_eq[i]) {
-      *lb = cst->val[i][cst->ncols - 1];
+    int64_t coeff = cst->val[i][0], cnst_term = cst->val[i][cst->ncols - 1];
+    if (cst->is_eq[i] && coeff != 0) {
+      *lb = -cnst_term / coeff;
       retval = 1;
       break;
     }
-    if (!cst->is_eq[i] && cst->val[i][0] >= 1) {
+    if (!cst->is_eq[i] && coeff >= 1) {
       retval = 1;
-      *lb = PLMAX(*lb, -cst->val[i][cst->ncols - 1]);
+      /* ceil(-cnst_term / coeff) */
+      int64_t bound = -cnst_term / coeff;
+      if (cnst_term < 0 && cnst_term % coeff != 0)
+        bound++;
+      *lb = PLMAX(*lb, bound);
     }
   }
   pluto_constraints_free(cst);
@@ -1990,13 +1995,18 @@ int pluto_constraints_get_const_ub(const PlutoConstraints *cnst, int pos,
   retval = 0;
   *ub = LLONG_MAX;
   for (i = 0; i < cst->nrows; i++) {
-    if (cst->is_eq[i]) {
-      *ub = cst->val[i][cst->ncols - 1];
+    int64_t coeff = cst->val[i][0], cnst_term = cst->val[i][cst->ncols - 1];
+    if (cst->is_eq[i] && coeff != 0) {
+      *ub = -cnst_term / coeff;
       retval = 1;
       break;
     }
-    if (!cst->is_eq[i] && cst->val[i][0] <= -1) {
-      *ub = PLMIN(*ub, cst->val[i][cst->ncols - 1]);
+    if (!cst->is_eq[i] && coeff <= -1) {
+      /* floor(cnst_term / -coeff) */
+      int64_t bound = cnst_term / -coeff;
+      if (cnst_term < 0 && cnst_term % coeff != 0)
+        bound--;
+      *ub = PLMIN(*ub, bound);
       retval = 1;
     }
   }
-- 
2.43.0


From 8e2fdf1ee27a851efcc9ecb013836f4f3881d485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:47 +0000
Subject: [PATCH 32/40] fix: pluto_schedule_str frees its isl objects twice and
 crashes

---
 lib/plutolib.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/plutolib.c b/lib/plutolib.c
index db5221c..9986641 100644
--- a/lib/plutolib.c
+++ b/lib/plutolib.c
@@ -513,6 +513,7 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   if (pluto_schedule_prog(prog)) {
     /* Failure */
     pluto_prog_free(prog);
+    isl_space_free(space);
 
     if (!context->options->silent) {
       printf("[libpluto] failure, returning NULL schedules\n");
@@ -526,7 +527,6 @@ __isl_give isl_union_map *pluto_parallel_schedule_with_remapping(
   isl_union_map *schedules = pluto_schedules_to_isl(prog, space, ctx);
 
   pluto_prog_free(prog);
-  isl_space_free(space);
 
   return schedules;
 }
@@ -589,8 +589,6 @@ void pluto_schedule_str(const char *domains_str, const char *dependences_str,
                                               " string");
 
   isl_printer_free(printer);
-  isl_union_set_free(domains);
-  isl_union_map_free(dependences);
   isl_union_map_free(schedule);
 
   isl_ctx_free(ctx);
-- 
2.43.0


From 400dd1dd1a845fce46a7d580846297aec7c0aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 33/40] fix: grow the permutability constraint system when the
 number of connected components grows (per_cc_obj)

---
 lib/framework.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/framework.cpp b/lib/framework.cpp
index 5734122..6bff90d 100644
--- a/lib/framework.cpp
+++ b/lib/framework.cpp
@@ -405,8 +405,13 @@ PlutoConstraints *get_permutability_constraints(PlutoProg *prog) {
 
   globcst = prog->globcst;
 
-  globcst->ncols = ncols;
   globcst->nrows = 0;
+  if (globcst->alloc_ncols < (unsigned)ncols) {
+    /* With per_cc_obj, the number of connected components (and thus that of
+     * columns) may have grown since globcst was allocated */
+    pluto_constraints_resize_single(globcst, 0, ncols);
+  }
+  globcst->ncols = ncols;
 
   /* Add constraints to globcst */
   int i;
-- 
2.43.0


From 404a795b3368b7a568a02bbe1eecf4c1eea178ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 34/40] fix: do not replace a hyperplane by a linearly
 dependent one for concurrent start

---
 lib/pluto.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index 76f9aa3..fe67102 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2147,6 +2147,26 @@ bool pluto_are_stmts_fused(Stmt **stmts, int nstmts, const PlutoProg *prog) {
   return (num == 1);
 }
 
+/// Returns true if replacing the hyperplane at `pos' of each of the band's
+/// statements by the corresponding one in `hyps' doesn't reduce the number of
+/// linearly independent hyperplanes of any of them.
+static bool replacement_keeps_ind_hyps(Band *band, int pos,
+                                       PlutoMatrix **hyps) {
+  for (unsigned i = 0; i < band->loop->nstmts; i++) {
+    Stmt *stmt = band->loop->stmts[i];
+    PlutoMatrix *trans = stmt->trans;
+    unsigned num_ind_hyps = pluto_stmt_get_num_ind_hyps(stmt);
+    stmt->trans = pluto_matrix_dup(trans);
+    copy_hyperplane(stmt->trans->val[pos], hyps[i]->val[0], trans->ncols);
+    unsigned new_num_ind_hyps = pluto_stmt_get_num_ind_hyps(stmt);
+    pluto_matrix_free(stmt->trans);
+    stmt->trans = trans;
+    if (new_num_ind_hyps < num_ind_hyps)
+      return false;
+  }
+  return true;
+}
+
 /// Diamond tiling. Returns true if diamond tiling transformation was applied.
 bool pluto_diamond_tile(PlutoProg *prog) {
   PlutoContext *context = prog->context;
@@ -2254,6 +2274,13 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         cone_complement_hyps);
     pluto_matrix_free(conc_start_faces);
 
+    /* If the face with concurrent start is in the span of the hyperplanes that
+     * stay, the cone complement is too, and the transformation would no longer
+     * be one-to-one. */
+    if (conc_start_enabled_band &&
+        !replacement_keeps_ind_hyps(band, evict_pos, cone_complement_hyps))
+      conc_start_enabled_band = 0;
+
     /* Re-arrange the transformation matrix if concurrent start
      * was found, store the replaced hyperplane so that it can be
      * put back for the right intra-tile order */
-- 
2.43.0


From b62ab78cb412c9414acefd35f187301d7c3fee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:37 +0000
Subject: [PATCH 35/40] fix: use a single set of objective variables for
 diamond tiling with per_cc_obj

---
 lib/pluto.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index fe67102..c63b31e 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2175,6 +2175,11 @@ bool pluto_diamond_tile(PlutoProg *prog) {
 
   bool conc_start_enabled = false;
 
+  /* The constraints for concurrent start have a single set of objective
+   * variables. */
+  int per_cc_obj = context->options->per_cc_obj;
+  context->options->per_cc_obj = 0;
+
   /* Get the permutability constraints since a call to
    * detect_transformation_properties with update dep satisfaction levels
    * and we won't get the constraints we want */
@@ -2312,6 +2317,8 @@ bool pluto_diamond_tile(PlutoProg *prog) {
 
   pluto_bands_free(bands, nbands);
 
+  context->options->per_cc_obj = per_cc_obj;
+
   if (conc_start_enabled) {
     pluto_dep_satisfaction_reset(prog);
     PLUTO_MESSAGE(printf("[pluto] Concurrent start hyperplanes found\n"););
-- 
2.43.0


From 7968ff60831f12ba9154e529a8d2cc62bbfd7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:08 +0000
Subject: [PATCH 36/40] fix: no diamond tiling if only the cone complement
 satisfies a dependence

---
 lib/pluto.c | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/lib/pluto.c b/lib/pluto.c
index c63b31e..8a01975 100644
--- a/lib/pluto.c
+++ b/lib/pluto.c
@@ -2167,6 +2167,45 @@ static bool replacement_keeps_ind_hyps(Band *band, int pos,
   return true;
 }
 
+/// Swaps the hyperplane at `pos' of each of the band's statements with the
+/// corresponding one in `hyps'.
+static void swap_hyperplanes(Band *band, int pos, PlutoMatrix **hyps) {
+  for (unsigned i = 0; i < band->loop->nstmts; i++) {
+    int64_t *row = band->loop->stmts[i]->trans->val[pos];
+    for (unsigned j = 0; j < hyps[i]->ncols; j++) {
+      int64_t tmp = row[j];
+      row[j] = hyps[i]->val[0][j];
+      hyps[i]->val[0][j] = tmp;
+    }
+  }
+}
+
+/// Returns true if each dependence that would be satisfied with the hyperplane
+/// at `pos' of the band's statements replaced by the corresponding one in `hyps'
+/// is also satisfied by the current transformation.
+static bool replacement_satisfies_no_more_deps(PlutoProg *prog, Band *band,
+                                               int pos, PlutoMatrix **hyps) {
+  bool *satisfied = (bool *)malloc(prog->ndeps * sizeof(bool));
+  pluto_compute_dep_satisfaction_precise(prog);
+  for (int i = 0; i < prog->ndeps; i++) {
+    satisfied[i] = dep_is_satisfied(prog->deps[i]);
+  }
+
+  swap_hyperplanes(band, pos, hyps);
+  pluto_compute_dep_satisfaction_precise(prog);
+  bool no_more = true;
+  for (int i = 0; i < prog->ndeps; i++) {
+    if (!IS_RAR(prog->deps[i]->type) && !satisfied[i] &&
+        dep_is_satisfied(prog->deps[i]))
+      no_more = false;
+  }
+  swap_hyperplanes(band, pos, hyps);
+  pluto_compute_dep_satisfaction(prog);
+  free(satisfied);
+
+  return no_more;
+}
+
 /// Diamond tiling. Returns true if diamond tiling transformation was applied.
 bool pluto_diamond_tile(PlutoProg *prog) {
   PlutoContext *context = prog->context;
@@ -2286,6 +2325,13 @@ bool pluto_diamond_tile(PlutoProg *prog) {
         !replacement_keeps_ind_hyps(band, evict_pos, cone_complement_hyps))
       conc_start_enabled_band = 0;
 
+    /* The evicted hyperplane is put back inside tiles: it should satisfy any
+     * dependence that is satisfied thanks to the cone complement. */
+    if (conc_start_enabled_band &&
+        !replacement_satisfies_no_more_deps(prog, band, evict_pos,
+                                            cone_complement_hyps))
+      conc_start_enabled_band = 0;
+
     /* Re-arrange the transformation matrix if concurrent start
      * was found, store the replaced hyperplane so that it can be
      * put back for the right intra-tile order */
-- 
2.43.0


From 924afa3b25174ca76f346c5b623b4e8f4a3900ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:54 +0000
Subject: [PATCH 37/40] fix: leave loops on which a dependence goes backwards
 out of the wavefront

---
 lib/tile.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/tile.c b/lib/tile.c
index 9939b8a..9bdf8dd 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -379,6 +379,30 @@ void pluto_tile_scattering_dims(PlutoProg *prog, Band **bands, int nbands,
   pluto_detect_hyperplane_types_stmtwise(prog);
 }
 
+/// Returns true if no dependence between statements of the band that isn't
+/// satisfied outside of the band has a negative component at depth `depth'. The
+/// loops of a band that are inner to one of its scalar dimensions could have
+/// such a component: for dependences satisfied at that scalar dimension.
+static bool is_loop_forward(const PlutoProg *prog, const Band *band,
+                            unsigned depth) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    const Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (dep->satisfaction_level >= 0 &&
+        dep->satisfaction_level < (int)band->loop->depth)
+      continue;
+    if (!pluto_stmt_is_member_of(prog->stmts[dep->src]->id, band->loop->stmts,
+                                 band->loop->nstmts) ||
+        !pluto_stmt_is_member_of(prog->stmts[dep->dest]->id, band->loop->stmts,
+                                 band->loop->nstmts))
+      continue;
+    if (dep->dirvec[depth] == DEP_MINUS || dep->dirvec[depth] == DEP_STAR)
+      return false;
+  }
+  return true;
+}
+
 /// Transform a band of dimensions to get a wavefront (a wavefront of tiles
 /// typically). Returns true if something was done, false otherwise.
 bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
@@ -401,7 +425,7 @@ bool pluto_create_tile_schedule_band(PlutoProg *prog, Band *band) {
       if (pluto_is_hyperplane_scalar(band->loop->stmts[j], depth))
         break;
     }
-    if (j == band->loop->nstmts) {
+    if (j == band->loop->nstmts && is_loop_forward(prog, band, depth)) {
       /* All of them are loops */
       loop_depths[nloops++] = depth;
     }
-- 
2.43.0


From b0959c9cc6b85a9adcd4567f21138522056cb92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:00 +0000
Subject: [PATCH 38/40] fix: put the evicted hyperplane back at its level when
 tiling added scalar levels too

---
 lib/tile.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/tile.c b/lib/tile.c
index 9bdf8dd..eb6aaef 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -87,15 +87,18 @@ int pluto_diamond_tile_reschedule(PlutoProg *prog) {
 
   for (int i = 0; i < prog->nstmts; i++) {
     if (prog->stmts[i]->evicted_hyp) {
-      int evicted_hyp_pos = prog->stmts[i]->evicted_hyp_pos;
+      /* Tiling adds a level for each level of the band, including scalar ones
+       * (that don't have a domain supernode). */
+      int evicted_hyp_pos =
+          prog->stmts[i]->num_tiled_loops + prog->stmts[i]->evicted_hyp_pos;
       int fl = prog->stmts[i]->dim - prog->stmts[i]->dim_orig;
       PlutoMatrix *evicted_hyp = prog->stmts[i]->evicted_hyp;
       assert(fl + evicted_hyp->ncols == prog->stmts[i]->trans->ncols);
       for (unsigned j = 0; j < evicted_hyp->ncols; j++) {
         int64_t tmp = evicted_hyp->val[0][j];
         evicted_hyp->val[0][j] =
-            prog->stmts[i]->trans->val[fl + evicted_hyp_pos][fl + j];
-        prog->stmts[i]->trans->val[fl + evicted_hyp_pos][fl + j] = tmp;
+            prog->stmts[i]->trans->val[evicted_hyp_pos][fl + j];
+        prog->stmts[i]->trans->val[evicted_hyp_pos][fl + j] = tmp;
       }
       retval = 1;
     }
-- 
2.43.0


From 24eb2d559e16d54ec5251331c4b1b4a811e18fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:00 +0000
Subject: [PATCH 39/40] fix: divide a constant by the tile size where other
 statements have tiles

---
 lib/tile.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/tile.c b/lib/tile.c
index eb6aaef..9b2f74b 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -121,6 +121,16 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
     num_domain_supernodes[s] = 0;
   }
 
+  /* Levels that are loops for at least one statement */
+  bool is_loop[band->width];
+  for (unsigned depth = firstD; depth <= lastD; depth++) {
+    is_loop[depth - firstD] = false;
+    for (unsigned s = 0; s < band->loop->nstmts; s++) {
+      if (band->loop->stmts[s]->hyp_types[depth] != H_SCALAR)
+        is_loop[depth - firstD] = true;
+    }
+  }
+
   for (unsigned depth = firstD; depth <= lastD; depth++) {
     for (unsigned s = 0; s < band->loop->nstmts; s++) {
       Stmt *stmt = band->loop->stmts[s];
@@ -201,6 +211,13 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
               stmt->trans
                   ->val[firstD + (depth - firstD) + 1 + (depth - firstD)][j];
         }
+        /* This is a constant in the same tile space dimension as the tiles of
+         * other statements */
+        if (is_loop[depth - firstD]) {
+          int64_t *c = &stmt->trans->val[depth][stmt->dim + npar];
+          int size = tile_sizes[depth - firstD];
+          *c = (*c - ((*c % size) + size) % size) / size;
+        }
       }
       stmt->num_tiled_loops++;
       stmt->first_tile_dim = firstD;
-- 
2.43.0


From e5761c54412faedeabd09f3ed06f2d41986c4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:00 +0000
Subject: [PATCH 40/40] fix: do not tile a band that statements outside of it
 are interleaved with

---
 lib/pluto.h |  1 +
 lib/tile.c  | 30 ++++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/lib/pluto.h b/lib/pluto.h
index ea37d2d..15c193d 100644
--- a/lib/pluto.h
+++ b/lib/pluto.h
@@ -666,6 +666,7 @@ int pluto_loop_is_parallel_for_stmt(const PlutoProg *prog, const Ploop *loop,
                                     const Stmt *stmt);
 int pluto_loop_has_satisfied_dep_with_component(const PlutoProg *prog,
                                                 const Ploop *loop);
+void pluto_band_free(Band *band);
 void pluto_bands_free(Band **bands, unsigned nbands);
 int pluto_is_hyperplane_loop(const Stmt *stmt, int level);
 void pluto_detect_hyperplane_types(PlutoProg *prog);
diff --git a/lib/tile.c b/lib/tile.c
index 9b2f74b..8cffd77 100644
--- a/lib/tile.c
+++ b/lib/tile.c
@@ -226,6 +226,27 @@ void pluto_tile_band(PlutoProg *prog, Band *band, int *tile_sizes) {
   }   /* all scats to be tiled */
 }
 
+/// Returns true if each dependence between a statement of the band and one
+/// outside of it is satisfied before the band: tiling the band adds levels to
+/// the former only, and the order of the two at the levels of the band and at
+/// inner ones isn't preserved.
+static bool is_band_separate(const PlutoProg *prog, const Band *band) {
+  for (int i = 0; i < prog->ndeps; i++) {
+    const Dep *dep = prog->deps[i];
+    if (IS_RAR(dep->type))
+      continue;
+    if (dep->satisfaction_level >= 0 &&
+        dep->satisfaction_level < (int)band->loop->depth)
+      continue;
+    if (pluto_stmt_is_member_of(prog->stmts[dep->src]->id, band->loop->stmts,
+                                band->loop->nstmts) !=
+        pluto_stmt_is_member_of(prog->stmts[dep->dest]->id, band->loop->stmts,
+                                band->loop->nstmts))
+      return false;
+  }
+  return true;
+}
+
 /*
  * Updates statement domains and transformations to represent the new
  * tiled code. A schedule of tiles is created for parallel execution if
@@ -267,6 +288,15 @@ void pluto_tile(PlutoProg *prog) {
   }
   pluto_loops_free(loops, nloops);
 
+  /* Leave out bands that other statements are interleaved with */
+  for (i = 0, j = 0; i < nbands; i++) {
+    if (is_band_separate(prog, bands[i]))
+      bands[j++] = bands[i];
+    else
+      pluto_band_free(bands[i]);
+  }
+  nbands = j;
+
   /* Now, we are ready to tile */
   if (options->lt >= 0 && options->ft >= 0) {
     /* User option specified tiling */
-- 
2.43.0

