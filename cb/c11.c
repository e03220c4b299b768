/* Integer vector helpers and scalar operations, all four integer kinds. */
#include "vh.h"
#include <cloog/cloog.h>
typedef int vint;
#ifndef LEN
#define LEN 4
#endif
#ifndef R
#define R 40
#endif
#ifdef CLOOG_INT_GMP
#define VAL(x) ((vint) mpz_get_si(x))
#else
#define VAL(x) ((vint) (x))
#endif
static cloog_int_t a[LEN + 1], b[LEN + 1], c[LEN + 1], m1, m2, g, t;
static vint va[LEN + 1], vb[LEN + 1], vc[LEN + 1];
static int n;

static void sym(cloog_int_t *p, vint *v)
{
	for (int i = 0; i <= LEN; i++) { v[i] = nd(-R, R); cloog_int_init(p[i]); cloog_int_set_si(p[i], v[i]); }
}
static void same(cloog_int_t *p, vint *v, int from)
{
	for (int i = from; i <= LEN; i++) CHECK(VAL(p[i]) == v[i], "entries that are not arguments keep their value");
}

void harness(void)
{
	sym(a, va);
	n = nd(0, LEN);
	cloog_int_init(g);
	cloog_int_init(t);
#if OP == 0		/* first non zero, copy, negation */
	int k = cloog_seq_first_non_zero(a, n);
	CHECK(k >= -1 && k < n, "index in range");
	for (int i = 0; i < LEN; i++)
		if (i < n && (k < 0 || i < k)) CHECK(va[i] == 0, "entries before the first non-zero one are zero");
	if (k >= 0) CHECK(va[k] != 0, "the entry found is not zero");
	sym(b, vb);
	sym(c, vc);
	cloog_seq_cpy(b, a, n);
	for (int i = 0; i < LEN; i++) if (i < n) CHECK(VAL(b[i]) == va[i], "copy");
	same(a, va, 0); same(b, vb, n);
	cloog_seq_neg(c, a, n);
	for (int i = 0; i < LEN; i++) if (i < n) CHECK(VAL(c[i]) == -va[i], "negation");
	same(a, va, 0); same(c, vc, n);
	cloog_seq_neg(a, a, n);
	for (int i = 0; i < LEN; i++) if (i < n) CHECK(VAL(a[i]) == -va[i], "negation in place");
	same(a, va, n);
	struct cloog_vec *v = cloog_vec_alloc(n);
	CHECK(v->size == (unsigned) n, "vector size");
	for (int i = 0; i < LEN; i++) if (i < n) CHECK(VAL(v->p[i]) == 0, "a new vector is zero");
	cloog_vec_free(v);
#elif OP == 1		/* combination */
	sym(b, vb);
	sym(c, vc);
	vint x = nd(-R, R), y = nd(-R, R);
	cloog_int_init(m1); cloog_int_init(m2);
	cloog_int_set_si(m1, x); cloog_int_set_si(m2, y);
	cloog_int_t *d = ALIAS == 0 ? c : ALIAS == 1 ? a : b;
	vint *vd = ALIAS == 0 ? vc : ALIAS == 1 ? va : vb;
	cloog_seq_combine(d, m1, a, m2, b, n);
	for (int i = 0; i < LEN; i++) if (i < n) CHECK(VAL(d[i]) == MUL(x, va[i]) + MUL(y, vb[i]), "combination");
	same(d, vd, n);
	if (ALIAS != 1) same(a, va, 0);
	if (ALIAS != 2) same(b, vb, 0);
	CHECK(VAL(m1) == x && VAL(m2) == y, "multipliers keep their value");
#elif OP == 2		/* gcd, normalisation */
	cloog_seq_gcd(a, n, &g);
	vint gg = VAL(g);
	int any = 0;
	same(a, va, 0);
	for (int i = 0; i < LEN; i++) if (i < n && va[i]) any = 1;
	CHECK(any ? gg > 0 : gg == 0, "gcd is positive unless all entries are zero");
	vint d = nd(1, R);
	int all = 1;
	for (int i = 0; i < LEN; i++)
		if (i < n) {
			if (gg) CHECK(MOD(va[i], gg) == 0, "gcd divides");
			if (MOD(va[i], d)) all = 0;
		}
	if (any && all) CHECK(d <= gg, "gcd is the greatest divisor");
	cloog_seq_normalize(a, n);
	for (int i = 0; i < LEN; i++) if (i < n) CHECK(MUL(VAL(a[i]), gg ? gg : 1) == va[i], "normalisation divides by the gcd");
	same(a, va, n);
#elif OP == 3		/* comparison with the opposite */
	sym(b, vb);
	int r = cloog_seq_is_neg(a, b, n), w = 1;
	for (int i = 0; i < LEN; i++) if (i < n && va[i] != -vb[i]) w = 0;
	CHECK(!!r == w, "is the negation");
	same(a, va, 0); same(b, vb, 0);
#elif OP == 4		/* scalar operations */
	sym(b, vb);
	vint x = va[0], y = vb[0], d = nd(1, R);
	cloog_int_init(m1);
	cloog_int_set_si(m1, d);
	cloog_int_set(t, a[0]); CHECK(VAL(t) == x, "set");
	cloog_int_add(t, a[0], b[0]); CHECK(VAL(t) == x + y, "add");
	cloog_int_sub(t, a[0], b[0]); CHECK(VAL(t) == x - y, "sub");
	cloog_int_add_ui(t, a[0], 3); CHECK(VAL(t) == x + 3, "add_ui");
	cloog_int_sub_ui(t, a[0], 3); CHECK(VAL(t) == x - 3, "sub_ui");
	cloog_int_mul(t, a[0], b[0]); CHECK(VAL(t) == MUL(x, y), "mul");
	cloog_int_set(t, a[1]); cloog_int_addmul(t, a[0], b[0]); CHECK(VAL(t) == va[1] + MUL(x, y), "addmul");
	cloog_int_neg(t, a[0]); CHECK(VAL(t) == -x, "neg");
	cloog_int_abs(t, a[0]); CHECK(VAL(t) == (x < 0 ? -x : x), "abs");
	cloog_int_set(t, a[0]); cloog_int_set(g, b[0]); cloog_int_swap(t, g);
	CHECK(VAL(t) == y && VAL(g) == x, "swap");
	cloog_int_fdiv_q(t, a[0], m1); vint q = VAL(t);
	CHECK(MUL(q, d) <= x && x < MUL(q + 1, d), "floor division");
	cloog_int_fdiv_r(t, a[0], m1); CHECK(VAL(t) == x - MUL(q, d), "remainder of the floor division");
	cloog_int_cdiv_q(t, a[0], m1); q = VAL(t);
	CHECK(MUL(q, d) >= x && x > MUL(q - 1, d), "ceiling division");
	cloog_int_tdiv_q(t, a[0], m1); q = VAL(t);
	CHECK(x >= 0 ? (MUL(q, d) <= x && x < MUL(q + 1, d)) : (MUL(q, d) >= x && x > MUL(q - 1, d)), "truncated division");
	cloog_int_mul(g, a[0], m1); cloog_int_divexact(t, g, m1); CHECK(VAL(t) == x, "exact division");
	CHECK(!!cloog_int_is_divisible_by(a[0], m1) == (MOD(x, d) == 0), "divisibility");
	CHECK((cloog_int_cmp(a[0], b[0]) > 0) == (x > y) && (cloog_int_cmp(a[0], b[0]) < 0) == (x < y), "comparison");
	CHECK((cloog_int_cmp_si(a[0], 2) > 0) == (x > 2) && (cloog_int_cmp_si(a[0], 2) < 0) == (x < 2), "comparison with a constant");
	CHECK((cloog_int_sgn(a[0]) > 0) == (x > 0) && (cloog_int_sgn(a[0]) < 0) == (x < 0), "sign");
	CHECK(!!cloog_int_eq(a[0], b[0]) == (x == y) && !!cloog_int_ne(a[0], b[0]) == (x != y), "equality");
	CHECK(!!cloog_int_gt(a[0], b[0]) == (x > y) && !!cloog_int_lt(a[0], b[0]) == (x < y) && !!cloog_int_le(a[0], b[0]) == (x <= y), "order");
	CHECK(!!cloog_int_is_pos(a[0]) == (x > 0) && !!cloog_int_is_neg(a[0]) == (x < 0) && !!cloog_int_is_zero(a[0]) == (x == 0), "sign tests");
	CHECK(!!cloog_int_is_one(a[0]) == (x == 1) && !!cloog_int_is_neg_one(a[0]) == (x == -1), "unit tests");
	CHECK(!!cloog_int_gt_si(a[0], 2) == (x > 2) && !!cloog_int_ne_si(a[0], 2) == (x != 2), "tests with a constant");
	vint ax = x < 0 ? -x : x, ay = y < 0 ? -y : y;
	CHECK(!!cloog_int_abs_lt(a[0], b[0]) == (ax < ay) && !!cloog_int_abs_ge(a[0], b[0]) == (ax >= ay) && !!cloog_int_abs_ne(a[0], b[0]) == (ax != ay),
	      "order of absolute values");
	cloog_int_gcd(t, a[0], b[0]); vint gg = VAL(t);
	CHECK(gg >= 0 && (gg || (!x && !y)), "gcd is not negative");
	if (gg) CHECK(MOD(x, gg) == 0 && MOD(y, gg) == 0, "gcd divides both");
	if (gg && MOD(x, d) == 0 && MOD(y, d) == 0) CHECK(d <= gg, "gcd is the greatest divisor");
#endif
	WITNESS();
}
