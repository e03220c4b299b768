/* The bound that clast_bound_from_constraint builds for a constraint of DIM variables and a constant with symbolic coefficients.
 * SIGNS are the signs of the coefficients and the constant: they fix the shape of the result. */
#include "vh.h"
#include <cloog/cloog.h>
#ifndef R
#define R 7
#endif
#ifndef X
#define X 7
#endif
#ifdef CLOOG_INT_GMP
#define V(x) ((int) mpz_get_si(x))
#else
#define V(x) ((int) (x))
#endif
#if defined(VCBMC) && defined(STUB_GMP)
#define SETC(d, c, s) ((d)->v = c, (d)->h = 2 - (s))
#else
#define SETC(d, c, s) cloog_int_set_si(d, c)
#endif
static const int sgn[DIM + 1] = { SIGNS };	/* the signs of the coefficients are concrete: so is the shape of the result */
static int coef[DIM + 1], val[DIM], equality;
static const char NAMES[] = "abcdef";
/* the constraint interface, as documented in include/cloog/constraints.h */
int cloog_constraint_total_dimension(CloogConstraint *c) { return DIM; }
int cloog_constraint_is_equality(CloogConstraint *c) { return equality; }
void cloog_constraint_copy_coefficients(CloogConstraint *c, cloog_int_t *dst)
{
	for (int i = 0; i <= DIM; i++) SETC(dst[i], coef[i], sgn[i]);
}
struct clast_expr *cloog_constraint_variable_expr(CloogConstraint *c, int level, CloogNames *names)
{
	return &new_clast_name(&NAMES[level - 1])->expr;
}
static int eval(struct clast_expr *e)
{
	int i, s, v;
	switch (e->type) {
	case clast_expr_name:
		return val[((struct clast_name *) e)->name - NAMES];
	case clast_expr_term: {
		struct clast_term *t = (struct clast_term *) e;
		return t->var ? MUL(eval(t->var), V(t->val)) : V(t->val);
	}
	case clast_expr_bin: {
		struct clast_binary *b = (struct clast_binary *) e;
		v = eval(b->LHS);
		CHECK(V(b->RHS) > 0, "divisors are positive");
		switch (b->type) {
		case clast_bin_fdiv: return FDIV(v, V(b->RHS));
		case clast_bin_cdiv: return -FDIV(-v, V(b->RHS));
		case clast_bin_div: return FDIV(v, V(b->RHS));	/* exact by contract */
		default: return MOD(v, V(b->RHS));
		}
	}
	default: {
		struct clast_reduction *r = (struct clast_reduction *) e;
		s = eval(r->elts[0]);
		for (i = 1; i < r->n; i++) {
			v = eval(r->elts[i]);
			s = r->type == clast_red_sum ? s + v : r->type == clast_red_min ? (v < s ? v : s) : (v > s ? v : s);
		}
		return s;
	}
	}
}
void harness(void)
{
	int i, rest, x, b;
	for (i = 0; i <= DIM; i++)
		if (i != LEVEL - 1 && sgn[i])
			coef[i] = sgn[i] > 0 ? nd(1, R) : nd(-(R), -1);
	coef[LEVEL - 1] = A;	/* the coefficient of the bounded variable is concrete */
	for (i = 0; i < DIM; i++) val[i] = nd(-(X), X);
	equality = EQ;
	struct clast_expr *e = clast_bound_from_constraint((CloogConstraint *) 0, LEVEL, (CloogNames *) 0);
	CHECK(e != NULL, "a constraint that involves the variable has a bound");
	b = eval(e);
	rest = coef[DIM];
	for (i = 0; i < DIM; i++)
		if (i != LEVEL - 1 && sgn[i]) rest += MUL(val[i], coef[i]);
#if EQ
	x = nd(-(R) * (X) * (DIM), R * (X) * (DIM));
	CHECK(A * x + rest != 0 || x == b, "the value assigned is the solution of the equality");
#else
	/* the solutions form a ray: b is its first integer */
	CHECK(A * b + rest >= 0, "the bound is a solution of the inequality");
	CHECK(A * (A > 0 ? b - 1 : b + 1) + rest < 0, "no integer beyond the bound is a solution");
#endif
	free_clast_expr(e);
	WITNESS();
}
