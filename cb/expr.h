/* Expression trees of a given (concrete) shape with symbolic content: coefficients, names,
 * kinds of divisions and reductions.  Shapes are written in prefix notation:
 * n name, c constant, t<e> coefficient times e, b<e> division of e, 1<e>, 2<e><e> and 3<e><e><e> reductions. */
#include <cloog/cloog.h>
#ifndef CR
#define CR 2
#endif
#ifdef CLOOG_INT_GMP
#define V(x) ((int) mpz_get_si(x))
#else
#define V(x) ((int) (x))
#endif
static const char name_i[] = "i", name_j[] = "i2", name_N[] = "j2", name_i2[] = "i2";
static int namesame(const char *a, const char *b)
{
	int k = 0;
	while (a[k] == b[k] && a[k]) k++;
	return a[k] == b[k];
}
static const char *symname(void)
{
	int k = nd(0, 3);
	return k == 0 ? name_i : k == 1 ? name_j : k == 2 ? name_N : name_i2;
}
static const char *pos;
static cloog_int_t tmpv;
static int redmask = 7;		/* allowed kinds of reductions */
static struct clast_expr *mk(void)
{
	char k = *pos++;
	struct clast_expr *a, *b;
	if (k == 'n') return &new_clast_name(symname())->expr;
	int v = nd(-CR, CR);
	if (k == 'c') { cloog_int_set_si(tmpv, v); return &new_clast_term(tmpv, NULL)->expr; }
	a = mk();
	if (k == 't') { cloog_int_set_si(tmpv, v); return &new_clast_term(tmpv, a)->expr; }
	if (k == 'b') {
		cloog_int_set_si(tmpv, v);
		ASSUME(v > 0);
		return &new_clast_binary((enum clast_bin_type) nd(0, 3), a, tmpv)->expr;
	}
	int ty = nd(0, 2);
	ASSUME((redmask >> ty) & 1);
	struct clast_reduction *r = new_clast_reduction((enum clast_red_type) ty, k - '0');
	r->elts[0] = a;
	if (k >= '2') { b = mk(); r->elts[1] = b; }
	if (k == '3') { b = mk(); r->elts[2] = b; }
	return &r->expr;
}
static struct clast_expr *mkshape(const char *s) { pos = s; return mk(); }
/* structural identity; a reduction with one element has no visible operator */
static int same(struct clast_expr *a, struct clast_expr *b)
{
	if (!a || !b) return !a && !b;
	if (a->type != b->type) return 0;
	switch (a->type) {
	case clast_expr_name:
		return namesame(((struct clast_name *) a)->name, ((struct clast_name *) b)->name);
	case clast_expr_term: {
		struct clast_term *s = (struct clast_term *) a, *t = (struct clast_term *) b;
		return V(s->val) == V(t->val) && same(s->var, t->var);
	}
	case clast_expr_bin: {
		struct clast_binary *s = (struct clast_binary *) a, *t = (struct clast_binary *) b;
		return s->type == t->type && V(s->RHS) == V(t->RHS) && same(s->LHS, t->LHS);
	}
	default: {
		struct clast_reduction *s = (struct clast_reduction *) a, *t = (struct clast_reduction *) b;
		if (s->n != t->n || (s->n > 1 && s->type != t->type)) return 0;
		if (!same(s->elts[0], t->elts[0])) return 0;
		return s->n == 1 || (same(s->elts[1], t->elts[1]) && (s->n == 2 || same(s->elts[2], t->elts[2])));
	}
	}
}
