/* Equality, order and copies of expressions. */
#include "vh.h"
#if OP > 0
#include "clast.c"
#endif
#include "expr.h"
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
#ifndef SC
#define SC "n"
#endif
void harness(void)
{
	cloog_int_init(tmpv);
#if OP == 2
	redmask = 1;	/* what the generator sorts: sums */
#endif
	struct clast_expr *a = mkshape(SA), *b = mkshape(SB);
#if OP == 0
	int e = clast_expr_equal(a, b);
	CHECK(!!e == same(a, b), "equal exactly when structurally identical");
	CHECK(clast_expr_equal(a, a), "an expression equals itself");
	CHECK(!clast_expr_equal(a, NULL) && !clast_expr_equal(NULL, a) && clast_expr_equal(NULL, NULL), "the absent expression equals only itself");
#elif OP == 1
	CHECK(sg(clast_expr_cmp(a, b)) == -sg(clast_expr_cmp(b, a)), "the order is antisymmetric");
	CHECK((clast_expr_cmp(a, b) == 0) == same(a, b), "equal exactly when structurally identical");
#elif OP == 2
	struct clast_expr *c = mkshape(SC);
	int ab = clast_expr_cmp(a, b), bc = clast_expr_cmp(b, c), ac = clast_expr_cmp(a, c);
	if (ab <= 0 && bc <= 0) {
		CHECK(ac <= 0, "the order is transitive");
		CHECK(ac != 0 || (ab == 0 && bc == 0), "the order is transitive");
	}
#elif OP == 3
	struct clast_expr *c = clast_expr_copy(a);
	CHECK(c != a, "a copy is another object");
	CHECK(same(a, c), "a copy is structurally identical");
	free_clast_expr(a);
	CHECK(clast_expr_equal(c, c), "a copy lives on when the original is released");
	CHECK(clast_expr_equal(b, c) == same(b, c), "a copy lives on when the original is released");
	free_clast_expr(c);
	free_clast_expr(b);
#endif
	WITNESS();
}
