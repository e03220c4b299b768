From a51b061cfbe14f1fa08385bca958a529d9067bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:07 +0000
Subject: [PATCH 01/31] fix: keep the divisibility guard of an equality with
 -otl 0

---
 source/clast.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/clast.c b/source/clast.c
index 7283aa7..f491903 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1579,7 +1579,10 @@ static int insert_equation(CloogDomain *domain, CloogConstraint *upper,
   struct clast_expr *e;
   struct clast_assignment *ass;
 
-  if (!infos->options->otl)
+  /* The bounds of a loop derived from a pair of inequalities are exact,
+   * but an equality only has an integer solution if the modulo guard holds.
+   */
+  if (!infos->options->otl && cloog_constraint_is_valid(lower))
     return insert_equation_as_loop(domain, upper, lower, level, next, infos);
 
   if (!insert_modulo_guard(upper, lower, level, next, infos)) {
@@ -1589,6 +1592,9 @@ static int insert_equation(CloogDomain *domain, CloogConstraint *upper,
     return 0;
   }
 
+  if (!infos->options->otl)
+    return insert_equation_as_loop(domain, upper, lower, level, next, infos);
+
   if (cloog_constraint_is_valid(lower) ||
       !clast_equal_add(infos->equal, NULL, level, upper, infos))
   { /* Finally, the equality. */
-- 
2.43.0


From e54d8fcbd29c581c7034f4b97007f8621ea6e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:25 +0000
Subject: [PATCH 02/31] fix: separate the stride of a Fortran DO loop from its
 upper bound

---
 source/pprint.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/pprint.c b/source/pprint.c
index 6d85a5d..4784b03 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -615,8 +615,10 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 	cloog_die("unbounded loops not allowed in FORTRAN.\n");
 
     if (options->language == CLOOG_LANGUAGE_FORTRAN) {
-	if (cloog_int_gt_si(f->stride, 1))
+	if (cloog_int_gt_si(f->stride, 1)) {
+	    fprintf(dst,", ");
 	    cloog_int_print(dst, f->stride);
+	}
 	fprintf(dst,"\n");
     }
     else {
-- 
2.43.0


From f5c76306b83ca826a44bd1801853d36e84a9d12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:48 +0000
Subject: [PATCH 03/31] fix: do not consume the argument of cloog_domain_convex

isl_set_coalesce takes its argument, so the set still owned by the caller
was released (use after free with -f 2 on test/guide.cloog).
---
 source/isl/domain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b928ff9..63e9272 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -135,8 +135,8 @@ CloogDomain * cloog_domain_copy(CloogDomain * domain)
 CloogDomain *cloog_domain_convex(CloogDomain *domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-  set = isl_set_coalesce(set);
-	set = isl_set_from_basic_set(isl_set_convex_hull(isl_set_copy(set)));
+	set = isl_set_coalesce(isl_set_copy(set));
+	set = isl_set_from_basic_set(isl_set_convex_hull(set));
 	return cloog_domain_from_isl_set(set);
 }
 
-- 
2.43.0


From 4da8ab31aa3423ecdf447b6527ea7e95068c512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:48 +0000
Subject: [PATCH 04/31] fix: do not bound an unseparated innermost loop by its
 own iterator

cloog -f 2 test/isl/mod.cloog printed for (i=max(0,3*floord(i+1,3));...
---
 source/loop.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index a019ffa..03c62e6 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -731,10 +731,10 @@ CloogLoop * cloog_loop_project(CloogLoop * loop, int level)
   copy = cloog_loop_alloc(loop->state, loop->domain, loop->otl, loop->stride,
 			  loop->block, loop->inner, NULL);
 
-  if (cloog_domain_dimension(loop->domain) == level)
-  new_domain = cloog_domain_copy(loop->domain) ;  
-  else
-    new_domain = cloog_domain_project(loop->domain, level);
+  /* Also at the innermost level: the projection drops the integer divisions
+   * of the iterator of this level, which its own bounds may not use.
+   */
+  new_domain = cloog_domain_project(loop->domain, level);
 
   new_loop = cloog_loop_alloc(loop->state, new_domain, 0, NULL,
 			      NULL, copy, NULL);
-- 
2.43.0


From 5f9871457519d9fead6348fb21bf02fa7d1a86a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:51 +0000
Subject: [PATCH 05/31] fix: reject an input that ends before a naming option
 instead of looping forever

---
 source/loop.c  | 8 ++++----
 source/names.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index 03c62e6..024c2bd 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -368,10 +368,10 @@ CloogLoop *cloog_loop_read(CloogState *state,
   domain = cloog_domain_union_read(state, foo, nb_parameters);
     
   /* To read that stupid "0 0 0" line. */
-  while (fgets(s,MAX_STRING,foo) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3))
-    if (fgets(s, MAX_STRING, foo))
-      continue;
+  do {
+    if (!fgets(s, MAX_STRING, foo))
+      cloog_die("Input error.\n");
+  } while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3));
 
   return cloog_loop_from_domain(state, domain, number);
 }
diff --git a/source/names.c b/source/names.c
index 914c736..fbe6363 100644
--- a/source/names.c
+++ b/source/names.c
@@ -269,10 +269,10 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
   char s[MAX_STRING], str[MAX_STRING], * c, **names = NULL;
 
   /* We first read name option. */
-  while (fgets(s,MAX_STRING,file) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1))
-    if (fgets(s, MAX_STRING, file))
-      continue;
+  do {
+    if (!fgets(s, MAX_STRING, file))
+      cloog_die("Input error.\n");
+  } while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1));
   
   /* If there is no item to read, then return NULL. */
   if (nb_items == 0)
-- 
2.43.0


From d29f51a261a56f8e55e3a2da03f58c2b92262260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:51 +0000
Subject: [PATCH 06/31] fix: do not overflow the name buffer on names of 50
 characters and more

---
 source/names.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/source/names.c b/source/names.c
index fbe6363..38b07ab 100644
--- a/source/names.c
+++ b/source/names.c
@@ -286,11 +286,6 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
     names = (char **)malloc(nb_items*sizeof(char *)) ;
     if (names == NULL) 
       cloog_die("memory overflow.\n");
-    for (i=0;i<nb_items;i++)
-    { names[i] = (char *)malloc(MAX_NAME*sizeof(char)) ;
-      if (names[i] == NULL) 
-	cloog_die("memory overflow.\n");
-    }
     
     do  /* Skip the comments, spaces and empty lines... */
     { c = fgets(s,MAX_STRING,file) ;
@@ -310,7 +305,9 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
       /* n is strlen(str). */
       if (sscanf(c,"%s%n",str,&n) == 0) 
         cloog_die("no names in input file.\n");
-      sscanf(str,"%s",names[i]) ;
+      names[i] = strdup(str) ;
+      if (names[i] == NULL) 
+	cloog_die("memory overflow.\n");
       c += n ;
     }
   }
-- 
2.43.0


From e032af1d69cbaa9dd1f0b2bf695d085e1e03cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:51 +0000
Subject: [PATCH 07/31] fix: reject a matrix row with missing entries

---
 source/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/matrix.c b/source/matrix.c
index 0823e3c..ad75b11 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -202,7 +202,7 @@ CloogMatrix *cloog_matrix_read_of_size(FILE *input,
 			cloog_die("Input error.\n");
 		for (j = 0; j < n_col; ++j) {
 			n = sscanf(p, "%s%n", val, &offset);
-			if (!n)
+			if (n != 1)
 				cloog_die("Input error.\n");
 			cloog_int_read(M->p[i][j], val);
 			p += offset;
-- 
2.43.0


From 8d6dc43225665336e0264134323eee6281da7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:51 +0000
Subject: [PATCH 08/31] fix: reject option values that are not integers

---
 source/options.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/options.c b/source/options.c
index 2dccd2f..da26962 100644
--- a/source/options.c
+++ b/source/options.c
@@ -303,14 +303,13 @@ void cloog_options_version()
  * - June 29th 2003: (debug) lack of argument now detected.
  */
 void cloog_options_set(int * option, int argv, char ** argc, int * number)
-{ char ** endptr ;
+{ char * endptr ;
   
   if (*number+1 >= argv)
     cloog_die("an option lacks of argument.\n");
 
-  endptr = NULL ;
-  *option = strtol(argc[*number+1],endptr,10) ;
-  if (endptr != NULL)
+  *option = strtol(argc[*number+1],&endptr,10) ;
+  if (endptr == argc[*number+1] || *endptr != '\0')
     cloog_die("value '%s' for option '%s' is not valid.\n",
 	      argc[*number+1], argc[*number]);
   *number = *number + 1 ;
-- 
2.43.0


From 4c77d500ba2fafec8480cbf72606748d173d0c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:30 +0000
Subject: [PATCH 09/31] fix: print the numerators of an integer division over
 its denominator

isl returns the coefficients of an isl_aff as normalized fractions, so the
numerator of 2/4 was printed as 1 in floord(...,4).
---
 source/isl/constraints.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/isl/constraints.c b/source/isl/constraints.c
index acd6312..53cb27a 100644
--- a/source/isl/constraints.c
+++ b/source/isl/constraints.c
@@ -584,8 +584,11 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 		v = cloog_constraint_variable_expr(constraint, 1 + i, names);
 
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		/* The coefficient is a (normalized) fraction: we want its
+		 * numerator over the denominator of the division.
+		 */
+		c = isl_val_mul(c, isl_aff_get_denominator_val(div));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, v)->expr;
 
 		isl_val_free(c);
@@ -593,8 +596,8 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 	c = isl_aff_get_constant_val(div);
 	if (!isl_val_is_zero(c)) {
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		c = isl_val_mul(c, isl_aff_get_denominator_val(div));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, NULL)->expr;
 	}
 	isl_val_free(c);
-- 
2.43.0


From 7d5caac02a7af6611ede62d4fc00b5927904e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:23 +0000
Subject: [PATCH 10/31] fix: order domains with integer divisions by their
 integer points

isl_basic_set_compare_at relaxes integer divisions, so cloog_domain_sort could
place a loop before one that precedes it.
---
 source/isl/domain.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 63e9272..92e7990 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -222,6 +222,36 @@ CloogDomain *cloog_domain_difference(CloogDomain *domain, CloogDomain *minus)
 }
 
 
+/**
+ * Compare two basic sets at position "pos" as isl_basic_set_compare_at does.
+ * That comparison ignores the integrality of integer divisions, so it may
+ * consider both orders to be possible.  In that case, check whether "bset_i"
+ * really has an element that follows an element of "bset_j".
+ */
+static int compare_at(isl_basic_set *bset_i, isl_basic_set *bset_j,
+	unsigned pos)
+{
+	unsigned k;
+	int cmp, empty;
+	isl_map *gt;
+
+	cmp = isl_basic_set_compare_at(bset_i, bset_j, pos);
+	if (cmp <= 0 || isl_basic_set_compare_at(bset_j, bset_i, pos) <= 0)
+		return cmp;
+
+	gt = isl_map_from_domain_and_range(
+			isl_set_from_basic_set(isl_basic_set_copy(bset_i)),
+			isl_set_from_basic_set(isl_basic_set_copy(bset_j)));
+	for (k = 0; k < pos; ++k)
+		gt = isl_map_equate(gt, isl_dim_in, k, isl_dim_out, k);
+	gt = isl_map_order_gt(gt, isl_dim_in, pos, isl_dim_out, pos);
+	empty = isl_map_is_empty(gt);
+	isl_map_free(gt);
+
+	return empty == 1 ? -1 : cmp;
+}
+
+
 /**
  * cloog_domain_sort function:
  * This function topologically sorts (nb_doms) domains. Here (doms) is an
@@ -272,7 +302,7 @@ void cloog_domain_sort(CloogDomain **doms, unsigned nb_doms, unsigned level,
 			bset_j = isl_basic_set_list_get_basic_set(list_j, 0);
 			isl_basic_set_list_free(list_i);
 			isl_basic_set_list_free(list_j);
-			cmp = isl_basic_set_compare_at(bset_i, bset_j, level-1);
+			cmp = compare_at(bset_i, bset_j, level-1);
 			isl_basic_set_free(bset_i);
 			isl_basic_set_free(bset_j);
 			if (!cmp)
-- 
2.43.0


From e8bf8957ad57282859697e6fea8a1f77ed9b7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:09 +0000
Subject: [PATCH 11/31] fix: only derive a stride when its offset can be
 computed

If the coefficient of the iterator is not invertible modulo the stride, the
offset factor*e is wrong and points were skipped (-strides 1).
---
 source/isl/domain.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 92e7990..845d364 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1868,10 +1868,15 @@ static CloogStride *construct_stride(isl_constraint *c, int level)
 		if (sign > 0)
 			cloog_int_neg(c_factor, c_factor);
 
-		c = isl_constraint_copy(c);
-		s = cloog_stride_alloc_from_constraint(c_stride,
+		/* No such factor exists if the coefficient and the stride
+		 * still have a common factor.
+		 */
+		if (cloog_int_is_one(c_gcd)) {
+			c = isl_constraint_copy(c);
+			s = cloog_stride_alloc_from_constraint(c_stride,
 					cloog_constraint_from_isl_constraint(c), c_factor);
-
+		} else
+			s = NULL;
 
 		cloog_int_clear(c_m);
 		cloog_int_clear(c_stride);
-- 
2.43.0


From fb50a8c3dbb84e65502041397afc9bc5297447f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:03 +0000
Subject: [PATCH 12/31] fix: keep the lattice of a loop that has no stride

---
 source/clast.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/source/clast.c b/source/clast.c
index f491903..2435f09 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1033,6 +1033,41 @@ static CloogConstraintSet *insert_extra_modulo_guards(
     return constraints;
 }
 
+/**
+ * Insert the modulo guards that involve the iterator at "level" itself.
+ * insert_extra_modulo_guards has to leave them out because they can only
+ * be evaluated once the iterator has a value.
+ */
+static void insert_level_modulo_guards(CloogConstraintSet *constraints,
+	int level, struct clast_stmt ***next, CloogInfos *infos)
+{
+    int i;
+    int nb_iter;
+    int total_dim;
+    CloogConstraint *upper, *lower;
+
+    total_dim = cloog_constraint_set_total_dimension(constraints);
+    nb_iter = cloog_constraint_set_n_iterators(constraints,
+						infos->names->nb_parameters);
+    if (nb_iter < level)
+	return;
+
+    for (i = total_dim - infos->names->nb_parameters; i >= nb_iter + 1; i--) {
+	lower = cloog_constraint_invalid();
+	upper = cloog_constraint_set_defining_equality(constraints, i);
+	if (!cloog_constraint_is_valid(upper))
+	    upper = cloog_constraint_set_defining_inequalities(constraints,
+			      i, &lower, infos->names->nb_parameters);
+	if (!cloog_constraint_is_valid(upper))
+	    continue;
+	if (cloog_constraint_involves(upper, level-1))
+	    insert_modulo_guard(upper, lower, i, next, infos);
+	cloog_constraint_release(upper);
+	cloog_constraint_release(lower);
+    }
+}
+
+
 
 /* Temporary structure for communication between insert_guard and
  * its cloog_constraint_set_foreach_constraint callback function.
@@ -1889,6 +1924,9 @@ static void insert_loop(CloogLoop * loop, int level,
 	} else
 	    empty_loop = !insert_for(loop->unsimplified, constraints, level,
                                      loop->otl, next, infos);
+
+	if (!empty_loop)
+	    insert_level_modulo_guards(constraints, level, next, infos);
     }
 
     if (!empty_loop) {
-- 
2.43.0


From 66ffda6a118f75debebbaffad691e1138872d501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:45 +0000
Subject: [PATCH 13/31] fix: keep the simple hull of a bounded domain bounded

---
 source/isl/domain.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 845d364..d906a40 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -157,6 +157,10 @@ CloogDomain *cloog_domain_simple_convex(CloogDomain *domain)
 		return cloog_domain_copy(domain);
 
 	hull = isl_set_simple_hull(isl_set_copy(set));
+	if (!isl_basic_set_is_bounded(hull) && isl_set_is_bounded(set)) {
+		isl_basic_set_free(hull);
+		hull = isl_set_bounded_simple_hull(isl_set_copy(set));
+	}
 	return cloog_domain_from_isl_set(isl_set_from_basic_set(hull));
 }
 
-- 
2.43.0


From d94a5ee626c7837eb15a8af15a45c4a3400cc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:27 +0000
Subject: [PATCH 14/31] fix: generate the loops of statements that follow a
 statement without them

Statements with the same constant dates were put in one list when the first
one had no dimension left, and the others were then printed without their
loops' iterators (or dropped).
---
 source/loop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/loop.c b/source/loop.c
index 024c2bd..3ffc65c 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2057,6 +2057,7 @@ CloogLoop *cloog_loop_generate_scalar(CloogLoop *loop,
     ref = temp ;
     
     while((end->next != NULL) &&
+	 cloog_loop_more(temp, level, scalar_new, nb_scattdims) &&
 	 cloog_loop_more(end->next, level, scalar_new, nb_scattdims) &&
          cloog_loop_scalar_eq(ref,end->next,level,scaldims,nb_scattdims,scalar))
     end = end->next ;
-- 
2.43.0


From d490d485839ef56683653fe7f38f089f55fcacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:46 +0000
Subject: [PATCH 15/31] fix: do not block statements whose unscheduled
 iterators still vary

Two statements with different constant dates and equal domains were put in
one block although a loop on an original iterator was still to come, so
that their instances were interleaved.
---
 source/loop.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/source/loop.c b/source/loop.c
index 3ffc65c..31fd9ed 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2115,7 +2115,8 @@ static int cloog_loop_next_scal_cmp(CloogLoop *loop)
 
 /* Check whether the globally constant dimensions of a and b
  * have the same value for all globally constant dimensions
- * that are situated before any (locally) non-constant dimension.
+ * that are situated before any (locally) non-constant dimension
+ * (the original iterators included).
  */
 static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 				    int *scaldims, int nb_scattdims)
@@ -2123,6 +2124,7 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
     int i;
     int cst = 0;
     int dim = 0;
+    int differ;
 
     for (i = 0; i < nb_scattdims; ++i) {
 	if (!scaldims[i]) {
@@ -2133,6 +2135,7 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 	    break;
 	cst++;
     }
+    differ = i < nb_scattdims;
     for (i = i + 1; i < nb_scattdims; ++i) {
 	if (scaldims[i])
 	    continue;
@@ -2144,6 +2147,18 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 	 */
 	dim++;
     }
+    /* The original iterators come after the scattering dimensions:
+     * if any of them still varies, then all iterations of a have to
+     * be executed before those of b.
+     */
+    for (dim++; differ && dim <= cloog_domain_dimension(a->domain); ++dim) {
+	CloogDomain *domain = cloog_domain_project(a->domain, dim);
+	int otl = cloog_domain_is_otl(domain, dim);
+
+	cloog_domain_free(domain);
+	if (!otl)
+	    return 0;
+    }
     return 1;
 }
 
-- 
2.43.0


From 2509b0d589ad03606f7de81db009db0e5dac9536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:03 +0000
Subject: [PATCH 16/31] fix: print no braces around a block in Fortran

---
 source/pprint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/pprint.c b/source/pprint.c
index 4784b03..62bf4ce 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -657,6 +657,13 @@ void pprint_stmt_list(struct cloogoptions *options, FILE *dst, int indent,
                 fprintf(dst, "%*sS0\n", indent, "");
 	    continue;
         }
+	if (CLAST_STMT_IS_A(s, stmt_block) &&
+	    options->language == CLOOG_LANGUAGE_FORTRAN) {
+	    /* There are no blocks in Fortran. */
+	    pprint_stmt_list(options, dst, indent,
+				((struct clast_block *)s)->body);
+	    continue;
+	}
 	fprintf(dst, "%*s", indent, "");
 	if (CLAST_STMT_IS_A(s, stmt_ass)) {
 	    pprint_assignment(options, dst, (struct clast_assignment *) s);
-- 
2.43.0


From 112274beb6fae455291e0e3c4d3e5c75b0329558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:25 +0000
Subject: [PATCH 17/31] fix: clast_filter follows assignments and enters blocks

The traversal stopped at an assignment and did not look into blocks, so
loops and statements below them were missing from the result.
---
 source/clast.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/source/clast.c b/source/clast.c
index 2435f09..bced752 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -2148,6 +2148,27 @@ void clast_filter(struct clast_stmt *node,
         free(stmts_next);
     }
 
+    if (CLAST_STMT_IS_A(node, stmt_block)) {
+        struct clast_block *block = (struct clast_block *) node;
+        clast_filter(block->body, filter, &loops_next,
+                &num_next_loops, &stmts_next, &num_next_stmts);
+        *nstmts = concat_if_new((void **)stmts, *nstmts, stmts_next, num_next_stmts, sizeof(int));
+        *nloops = concat_if_new((void **)loops, *nloops, loops_next, num_next_loops,
+                sizeof(struct clast_stmt *));
+        free(loops_next);
+        free(stmts_next);
+    }
+
+    if (CLAST_STMT_IS_A(node, stmt_ass) || CLAST_STMT_IS_A(node, stmt_block)) {
+        clast_filter(node->next, filter, &loops_next,
+                &num_next_loops, &stmts_next, &num_next_stmts);
+        *nstmts = concat_if_new((void **)stmts, *nstmts, stmts_next, num_next_stmts, sizeof(int));
+        *nloops = concat_if_new((void **)loops, *nloops, loops_next, num_next_loops,
+                sizeof(struct clast_stmt *));
+        free(loops_next);
+        free(stmts_next);
+    }
+
     if (CLAST_STMT_IS_A(node, stmt_user)) {
         struct clast_user_stmt *user_stmt = (struct clast_user_stmt *) node;
         // printf("user stmt: S%d\n", user_stmt->statement->number);
-- 
2.43.0


From 0f6f2dd81179b6168220cc16eec0bef180900469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:22 +0000
Subject: [PATCH 18/31] fix: refuse option values that do not fit in an int

The value was silently truncated: -l 4294967297 was read as -l 1.
---
 source/options.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/options.c b/source/options.c
index da26962..fe7877a 100644
--- a/source/options.c
+++ b/source/options.c
@@ -304,12 +304,14 @@ void cloog_options_version()
  */
 void cloog_options_set(int * option, int argv, char ** argc, int * number)
 { char * endptr ;
+  long value;
   
   if (*number+1 >= argv)
     cloog_die("an option lacks of argument.\n");
 
-  *option = strtol(argc[*number+1],&endptr,10) ;
-  if (endptr == argc[*number+1] || *endptr != '\0')
+  value = strtol(argc[*number+1],&endptr,10) ;
+  *option = value;
+  if (endptr == argc[*number+1] || *endptr != '\0' || *option != value)
     cloog_die("value '%s' for option '%s' is not valid.\n",
 	      argc[*number+1], argc[*number]);
   *number = *number + 1 ;
-- 
2.43.0


From 06e06f432e16bca59b1ba26dc6b697564b2417c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:11 +0000
Subject: [PATCH 19/31] fix: refuse domains and scattering functions that
 cannot be read

A constraint system that isl could not parse, or with too few columns for
the parameters, was carried on as a null set and code was generated for
whatever was left of the problem, with a success status.
---
 source/isl/domain.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index d906a40..f13bd87 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -474,6 +474,8 @@ CloogDomain *cloog_domain_read_context(CloogState *state, FILE *input)
 	set = isl_set_read_from_file(ctx, input);
 	set = isl_set_move_dims(set, isl_dim_param, 0,
 				isl_dim_set, 0, isl_set_dim(set, isl_dim_set));
+	if (!set)
+		cloog_die("Input error.\n");
 
 	return cloog_domain_from_isl_set(set);
 }
@@ -511,6 +513,8 @@ CloogDomain *cloog_domain_union_read(CloogState *state,
 		set = isl_set_move_dims(set, isl_dim_param, 0,
 			    isl_dim_set, dim - nb_parameters, nb_parameters);
 	}
+	if (!set)
+		cloog_die("Input error.\n");
 	return cloog_domain_from_isl_set(set);
 }
 
@@ -548,6 +552,8 @@ CloogScattering *cloog_domain_read_scattering(CloogDomain *domain, FILE *input)
 		scat = isl_map_move_dims(scat, isl_dim_in, 0,
 					isl_dim_out, n_scat, dim);
 	}
+	if (!scat)
+		cloog_die("Input error.\n");
 	return cloog_scattering_from_isl_map(scat);
 }
 
-- 
2.43.0


From 149ca62f8419dfa3a2608fe14d84690f8b5b0015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:11 +0000
Subject: [PATCH 20/31] fix: skip blanks before the language letter

An input starting with a blank before 'f' was read as C.
---
 source/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/input.c b/source/input.c
index 49106cc..4f94a6c 100644
--- a/source/input.c
+++ b/source/input.c
@@ -80,7 +80,7 @@ CloogInput *cloog_input_read(FILE *file, CloogOptions *options)
 	/* First of all, we read the language to use. */
 	if (!next_line(file, line, sizeof(line)))
 		cloog_die("Input error.\n");
-	if (sscanf(line, "%c", &language) != 1)
+	if (sscanf(line, " %c", &language) != 1)
 		cloog_die("Input error.\n");
    
 	if (language == 'f')
-- 
2.43.0


From 5454589baf846cd2d1f6e435a0df210d54af05ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:22 +0000
Subject: [PATCH 21/31] fix: refuse domains and scattering functions of the
 wrong dimensions

A relation whose header announces another number of parameters or input
dimensions than the context and the domain was accepted; isl then failed
and the code printed for the problem was empty, with a success status.
---
 source/isl/domain.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index f13bd87..15b2f89 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -513,7 +513,7 @@ CloogDomain *cloog_domain_union_read(CloogState *state,
 		set = isl_set_move_dims(set, isl_dim_param, 0,
 			    isl_dim_set, dim - nb_parameters, nb_parameters);
 	}
-	if (!set)
+	if (!set || isl_set_dim(set, isl_dim_param) != nb_parameters)
 		cloog_die("Input error.\n");
 	return cloog_domain_from_isl_set(set);
 }
@@ -552,7 +552,8 @@ CloogScattering *cloog_domain_read_scattering(CloogDomain *domain, FILE *input)
 		scat = isl_map_move_dims(scat, isl_dim_in, 0,
 					isl_dim_out, n_scat, dim);
 	}
-	if (!scat)
+	if (!scat || isl_map_dim(scat, isl_dim_param) != nparam ||
+	    isl_map_dim(scat, isl_dim_in) != dim)
 		cloog_die("Input error.\n");
 	return cloog_scattering_from_isl_map(scat);
 }
-- 
2.43.0


From f848e2ed37008f98a8a95d044a79b2abff8c36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:10 +0000
Subject: [PATCH 22/31] fix: read the scattering columns of a scattering matrix

---
 source/isl/domain.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 15b2f89..48f9fd4 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -565,6 +565,7 @@ CloogScattering *cloog_domain_read_scattering(CloogDomain *domain, FILE *input)
 /**
  * isl_constraint_read_from_matrix:
  * Convert a single line of a matrix to a isl_constraint.
+ * The first columns are those of the input dimensions, if any.
  * Returns a pointer to the constraint if successful; NULL otherwise.
  */
 static struct isl_constraint *isl_constraint_read_from_matrix(
@@ -572,7 +573,8 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 {
 	struct isl_constraint *constraint;
 	int j;
-	int nvariables = isl_space_dim(dim, isl_dim_set);
+	int nin = isl_space_is_set(dim) ? 0 : isl_space_dim(dim, isl_dim_in);
+	int nvariables = isl_space_dim(dim, isl_dim_out);
 	int nparam = isl_space_dim(dim, isl_dim_param);
 	isl_local_space *ls = isl_local_space_from_space(dim);
 
@@ -581,6 +583,12 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 	else
 		constraint = isl_inequality_alloc(ls);
 
+	for (j = 0; j < nin; ++j) {
+		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
+		isl_constraint_set_coefficient_val(constraint, isl_dim_in, j, val);
+	}
+	row += nin;
+
 	for (j = 0; j < nvariables; ++j) {
 		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
 		isl_constraint_set_coefficient_val(constraint, isl_dim_out, j, val);
-- 
2.43.0


From 2ff8d5d446c5786c47aeefd77032923e47af8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:10 +0000
Subject: [PATCH 23/31] fix: keep the order of domains acyclic so that sorting
 them ends

---
 source/isl/domain.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 48f9fd4..d2916fc 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -256,6 +256,25 @@ static int compare_at(isl_basic_set *bset_i, isl_basic_set *bset_j,
 }
 
 
+/**
+ * Record that "a" follows "b" among the first "n" elements and keep "follows"
+ * transitively closed, such that no cycle can ever be introduced.
+ */
+static void set_follows(unsigned char **follows, unsigned n,
+	unsigned a, unsigned b)
+{
+	unsigned k, l;
+
+	for (l = 0; l < n; ++l) {
+		if (l != a && !follows[l][a])
+			continue;
+		for (k = 0; k < n; ++k)
+			if (k == b || follows[b][k])
+				follows[l][k] = 1;
+	}
+}
+
+
 /**
  * cloog_domain_sort function:
  * This function topologically sorts (nb_doms) domains. Here (doms) is an
@@ -311,15 +330,10 @@ void cloog_domain_sort(CloogDomain **doms, unsigned nb_doms, unsigned level,
 			isl_basic_set_free(bset_j);
 			if (!cmp)
 				continue;
-			if (cmp > 0) {
-				follows[i][j] = 1;
-				for (k = 0; k < i; ++k)
-					follows[i][k] |= follows[j][k];
-			} else {
-				follows[j][i] = 1;
-				for (k = 0; k < i; ++k)
-					follows[k][i] |= follows[k][j];
-			}
+			if (cmp > 0)
+				set_follows(follows, i + 1, i, j);
+			else
+				set_follows(follows, i + 1, j, i);
 		}
 	}
 
-- 
2.43.0


From 45f44c9280a15324d2f974c843fad331b6e5d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:10 +0000
Subject: [PATCH 24/31] fix: do not unroll a union when its first part has no
 usable bound

---
 source/isl/domain.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index d2916fc..2f58713 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2104,6 +2104,8 @@ static int basic_set_can_unroll(__isl_take isl_basic_set *bset, void *user)
 		bset = isl_basic_set_remove_redundancies(bset);
 		r = isl_basic_set_foreach_constraint(bset,
 						&constraint_can_unroll, ccu);
+		if (!ccu->c)
+			ccu->can_unroll = 0;
 	}
 	isl_basic_set_free(bset);
 	return r;
-- 
2.43.0


From 326cf18a5c39cb9c927e09050be941ae974fe679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:10 +0000
Subject: [PATCH 25/31] fix: release the trip count of a loop that cannot be
 unrolled

---
 source/isl/domain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 2f58713..d5ef7cf 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2135,6 +2135,7 @@ int cloog_domain_can_unroll(CloogDomain *domain, int level, cloog_int_t *n,
 		ccu.can_unroll = 0;
 	if (!ccu.can_unroll) {
 		isl_constraint_free(ccu.c);
+		isl_val_free(ccu.n);
 		return 0;
 	}
 
-- 
2.43.0


From 64eb0e2659e17a7c160f02cb97dba2261280b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:10 +0000
Subject: [PATCH 26/31] fix: only order domains that have integer points to
 order

---
 source/isl/domain.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index d5ef7cf..20eb388 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -227,22 +227,16 @@ CloogDomain *cloog_domain_difference(CloogDomain *domain, CloogDomain *minus)
 
 
 /**
- * Compare two basic sets at position "pos" as isl_basic_set_compare_at does.
- * That comparison ignores the integrality of integer divisions, so it may
- * consider both orders to be possible.  In that case, check whether "bset_i"
- * really has an element that follows an element of "bset_j".
+ * Check whether "bset_i" has an element that follows an element of "bset_j"
+ * at position "pos", for equal values of the previous positions.
  */
-static int compare_at(isl_basic_set *bset_i, isl_basic_set *bset_j,
+static int follows_at(isl_basic_set *bset_i, isl_basic_set *bset_j,
 	unsigned pos)
 {
 	unsigned k;
-	int cmp, empty;
+	int empty;
 	isl_map *gt;
 
-	cmp = isl_basic_set_compare_at(bset_i, bset_j, pos);
-	if (cmp <= 0 || isl_basic_set_compare_at(bset_j, bset_i, pos) <= 0)
-		return cmp;
-
 	gt = isl_map_from_domain_and_range(
 			isl_set_from_basic_set(isl_basic_set_copy(bset_i)),
 			isl_set_from_basic_set(isl_basic_set_copy(bset_j)));
@@ -252,7 +246,24 @@ static int compare_at(isl_basic_set *bset_i, isl_basic_set *bset_j,
 	empty = isl_map_is_empty(gt);
 	isl_map_free(gt);
 
-	return empty == 1 ? -1 : cmp;
+	return empty != 1;
+}
+
+
+/**
+ * Compare two basic sets at position "pos" as isl_basic_set_compare_at does.
+ * That comparison ignores the integrality of the elements and it also tells
+ * apart sets that only have equal elements at that position.  Only trust it
+ * if one of the sets really has an element that follows one of the other.
+ */
+static int compare_at(isl_basic_set *bset_i, isl_basic_set *bset_j,
+	unsigned pos)
+{
+	if (!isl_basic_set_compare_at(bset_i, bset_j, pos))
+		return 0;
+	if (follows_at(bset_i, bset_j, pos))
+		return 1;
+	return follows_at(bset_j, bset_i, pos) ? -1 : 0;
 }
 
 
-- 
2.43.0


From e63aed0cd0102966c84f815fc8663e149dd62b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:47 +0000
Subject: [PATCH 27/31] fix: dump an empty relation in a form that can be read
 back

---
 source/isl/domain.c | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 20eb388..ce718a8 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -70,6 +70,35 @@ CloogConstraintSet *cloog_domain_constraints(CloogDomain *domain)
 }
 
 
+/* The extended PolyLib format printed by isl for an empty union is a bare 0,
+ * which cannot be read back: print a union of one contradictory part instead.
+ */
+static isl_printer *print_empty_relation(isl_printer *p,
+					__isl_take isl_space *space)
+{
+	int n_out = isl_space_dim(space, isl_dim_out);
+	int n_in = isl_space_is_set(space) ? 0 :
+					isl_space_dim(space, isl_dim_in);
+	int n_param = isl_space_dim(space, isl_dim_param);
+	int i, n = n_out + n_in + n_param;
+
+	isl_space_free(space);
+
+	p = isl_printer_print_str(p, "1\n1 ");
+	p = isl_printer_print_int(p, n + 2);
+	p = isl_printer_print_str(p, " ");
+	p = isl_printer_print_int(p, n_out);
+	p = isl_printer_print_str(p, " ");
+	p = isl_printer_print_int(p, n_in);
+	p = isl_printer_print_str(p, " 0 ");
+	p = isl_printer_print_int(p, n_param);
+	p = isl_printer_print_str(p, "\n0");
+	for (i = 0; i < n; ++i)
+		p = isl_printer_print_str(p, " 0");
+	return isl_printer_print_str(p, " 1\n");
+}
+
+
 void cloog_domain_print_constraints(FILE *foo, CloogDomain *domain,
 					int print_number)
 {
@@ -79,7 +108,9 @@ void cloog_domain_print_constraints(FILE *foo, CloogDomain *domain,
 	isl_basic_set_list *list;
 
 	p = isl_printer_to_file(isl_set_get_ctx(set), foo);
-	if (print_number) {
+	if (print_number && isl_set_n_basic_set(set) == 0) {
+		p = print_empty_relation(p, isl_set_get_space(set));
+	} else if (print_number) {
 		p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
 		p = isl_printer_print_set(p, set);
 	} else {
@@ -101,8 +132,12 @@ void cloog_scattering_print_constraints(FILE *foo, CloogScattering *scattering)
 	isl_printer *p;
 
 	p = isl_printer_to_file(isl_map_get_ctx(map), foo);
-	p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
-	p = isl_printer_print_map(p, map);
+	if (isl_map_n_basic_map(map) == 0) {
+		p = print_empty_relation(p, isl_map_get_space(map));
+	} else {
+		p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
+		p = isl_printer_print_map(p, map);
+	}
 	isl_printer_free(p);
 }
 
-- 
2.43.0


From a6b298a5dd49b1235a2ab084b963cc6152aae203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:47 +0000
Subject: [PATCH 28/31] fix: dump the context of a program with its parts and
 local dimensions

---
 source/program.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/program.c b/source/program.c
index 40709b8..9efe447 100644
--- a/source/program.c
+++ b/source/program.c
@@ -192,7 +192,7 @@ void cloog_program_dump_cloog(FILE * foo, CloogProgram * program,
 
   /* Context. */
   fprintf(foo, "# Context (%d parameter(s)):\n", program->names->nb_parameters);
-  cloog_domain_print_constraints(foo, program->context, 0);
+  cloog_domain_print_constraints(foo, program->context, 1);
   fprintf(foo,"1 # Parameter name(s)\n") ;
   for (i=0;i<program->names->nb_parameters;i++)
   fprintf(foo,"%s ",program->names->parameters[i]) ;
-- 
2.43.0


From ecd1091a43c993a8c3f74c97268cf70cb53d5a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:48 +0000
Subject: [PATCH 29/31] fix: do not combine loops that have different strides

---
 source/loop.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/loop.c b/source/loop.c
index 31fd9ed..e542714 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -802,6 +802,9 @@ CloogLoop *cloog_loop_combine(CloogLoop *loop)
 	while (first->next) {
 	    if (!cloog_domain_lazy_equal(first->domain, first->next->domain))
 		break;
+	    /* A single loop cannot have two different strides. */
+	    if (first->stride || first->next->stride)
+		break;
 	    second = first->next;
 	    first->inner = cloog_loop_concat(first->inner, second->inner);
 	    first->next = second->next;
-- 
2.43.0


From 2eac5b98bf070a8a233de63670cf80fe8b998344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:37 +0000
Subject: [PATCH 30/31] fix: allocate room for the terms that stride
 constraints add to a modulo guard

---
 source/clast.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/clast.c b/source/clast.c
index bced752..fffcd83 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1427,7 +1427,8 @@ static int insert_modulo_guard_constraint(CloogConstraint *c, void *user)
 	struct clast_reduction *r;
 	const char *name;
 
-	r = new_clast_reduction(clast_red_sum, nb_elts + 1);
+	/* The stride constraints below may introduce further terms. */
+	r = new_clast_reduction(clast_red_sum, len - 1);
 	nb_elts = 0;
 
 	/* First, the modulo guard : the iterators... */
-- 
2.43.0


From 1d8031a18f59dc07d2cea4b09b3ee6fe5f7db5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:51 +0000
Subject: [PATCH 31/31] fix: initialise the reference count of generated names

cloog_names_generate left it unset, so that cloog_names_free read an
undefined count and, most often, released nothing.
---
 source/names.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/names.c b/source/names.c
index 38b07ab..cfd1801 100644
--- a/source/names.c
+++ b/source/names.c
@@ -450,6 +450,7 @@ CloogNames * cloog_names_generate(
   if (names == NULL) 
     cloog_die("memory overflow.\n");
   
+  names->references    = 1;
   names->nb_scalars    = nb_scalars ;
   names->nb_scattering = nb_scattering ;
   names->nb_parameters = nb_parameters ;
-- 
2.43.0

