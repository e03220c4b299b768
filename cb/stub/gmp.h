/* Model of the part of GMP that CLooG uses, over machine integers of VINT_BITS
 * (every harness bounds its operands so that nothing overflows; CBMC checks it). */
#ifndef STUB_GMP_H
#define STUB_GMP_H
#include <stddef.h>
#ifndef VINT
#define VINT int
#endif
#ifdef VCBMC
#ifndef VK
#define VK 7	/* second factors and divisors are below 2^VK */
#endif
int nondet_int(void);
static inline int vmul(int a, int b)
{
	int r = 0;
	__CPROVER_assert(b >= -(1 << VK) && b < (1 << VK), "CHECK model range of a product");
	__CPROVER_assert(a > -(1 << 20) && a < (1 << 20), "CHECK model range of a product");
	for (int i = 0; i < VK; i++) r += (b >> i) & 1 ? (int) ((unsigned) a << i) : 0;
	if (b < 0) r -= (int) ((unsigned) a << VK);
	return (int) ((unsigned) r << 10) >> 10;
}
static inline int vfdiv(int a, int b)	/* floor(a/b) */
{
	if (b == 1) return a;
	if (b < 0) { a = -a; b = -b; }
	__CPROVER_assert(b > 0, "CHECK division by zero");
#ifndef VQ
#define VQ 12
#endif
	int q = (int) ((unsigned) nondet_int() << (32 - VQ)) >> (32 - VQ);
	__CPROVER_assert(a > -(1 << (VQ - 1)) && a < (1 << (VQ - 1)), "CHECK model range of a quotient");
	__CPROVER_assume(q <= (a < 0 ? -a : a) && q >= (a < 0 ? a : -a));
	int r = a - vmul(q, b);
	__CPROVER_assume(r >= 0 && r < b);
	return q;
}
#else
static inline int vmul(int a, int b) { return a * b; }
static inline int vfdiv(int a, int b) { int q = a / b; return a % b && ((a < 0) != (b < 0)) ? q - 1 : q; }
#endif
static inline int vcdiv(int a, int b) { return -vfdiv(-a, b); }
static inline int vtdiv(int a, int b) { return (a < 0) == (b < 0) ? vfdiv(a, b) : vcdiv(a, b); }
/* h: the sign when it is known while symbolically executing (0: unknown, 1: positive, 2: zero, 3: negative) */
typedef struct { VINT v; int h; void *own; } __mpz_struct;
typedef __mpz_struct mpz_t[1];
typedef __mpz_struct *mpz_ptr;
typedef const __mpz_struct *mpz_srcptr;
#ifdef STUB_OWN
#include <stdlib.h>
static inline void mpz_init(mpz_ptr r) { r->h = 0, r->v = 0; r->own = malloc(1); }
static inline void mpz_clear(mpz_ptr r) { free(r->own); r->own = 0; }
#else
static inline void mpz_init(mpz_ptr r) { r->h = 0, r->v = 0; }
static inline void mpz_clear(mpz_ptr r) { (void) r; }
#endif
static inline void mpz_set(mpz_ptr r, mpz_srcptr a) { r->v = a->v; r->h = a->h; }
static inline void mpz_init_set(mpz_ptr r, mpz_srcptr a) { mpz_init(r); r->v = a->v; r->h = a->h; }
static inline void mpz_set_si(mpz_ptr r, long a) { r->h = 0, r->v = (VINT) a; }
static inline void mpz_init_set_si(mpz_ptr r, long a) { mpz_init(r); r->h = 0, r->v = (VINT) a; }
static inline void mpz_set_ui(mpz_ptr r, unsigned long a) { r->h = 0, r->v = (VINT) a; }
static inline long mpz_get_si(mpz_srcptr a) { return a->v; }
static inline int mpz_fits_sint_p(mpz_srcptr a) { (void) a; return 1; }
static inline int mpz_fits_slong_p(mpz_srcptr a) { (void) a; return 1; }
static inline void mpz_abs(mpz_ptr r, mpz_srcptr a) { r->h = 0, r->v = a->v < 0 ? -a->v : a->v; }
static inline void mpz_neg(mpz_ptr r, mpz_srcptr a) { r->v = -a->v; r->h = a->h == 1 ? 3 : a->h == 3 ? 1 : a->h; }
static inline void mpz_swap(mpz_ptr a, mpz_ptr b) { __mpz_struct t = *a; *a = *b; *b = t; }
static inline void mpz_add(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = a->v + b->v; }
static inline void mpz_add_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->h = 0, r->v = a->v + (VINT) b; }
static inline void mpz_sub(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = a->v - b->v; }
static inline void mpz_sub_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->h = 0, r->v = a->v - (VINT) b; }
static inline void mpz_ui_sub(mpz_ptr r, unsigned long b, mpz_srcptr a) { r->h = 0, r->v = (VINT) b - a->v; }
static inline void mpz_mul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = vmul(a->v, b->v); }
static inline void mpz_mul_si(mpz_ptr r, mpz_srcptr a, long b) { r->h = 0, r->v = vmul(a->v, (VINT) b); }
static inline void mpz_mul_ui(mpz_ptr r, mpz_srcptr a, unsigned long b) { r->h = 0, r->v = vmul(a->v, (VINT) b); }
static inline void mpz_addmul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v += vmul(a->v, b->v); }
static inline void mpz_submul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v -= vmul(a->v, b->v); }
static inline void mpz_divexact(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = vtdiv(a->v, b->v); }
static inline void mpz_tdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = vtdiv(a->v, b->v); }
static inline void mpz_tdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = a->v - vmul(vtdiv(a->v, b->v), b->v); }
static inline void mpz_fdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = vfdiv(a->v, b->v); }
static inline void mpz_cdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = vcdiv(a->v, b->v); }
static inline void mpz_fdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = a->v - vmul(vfdiv(a->v, b->v), b->v); }
static inline void mpz_cdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = 0, r->v = a->v - vmul(vcdiv(a->v, b->v), b->v); }
static inline void mpz_mod(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { VINT m = b->v < 0 ? -b->v : b->v; r->h = 0, r->v = a->v - vmul(vfdiv(a->v, m), m); }
static inline void mpz_gcd(mpz_ptr r, mpz_srcptr a, mpz_srcptr b)
{
	VINT x = a->v < 0 ? -a->v : a->v, y = b->v < 0 ? -b->v : b->v;
#ifdef VCBMC	/* the common divisor that is a combination of both (unique) */
#define SXK(e) ((int) ((unsigned) (e) << (31 - VK)) >> (31 - VK))
	int g = SXK(nondet_int()), u = SXK(nondet_int()), v = SXK(nondet_int()), s = SXK(nondet_int()), t = SXK(nondet_int());
	__CPROVER_assert(x < (1 << VK) && y < (1 << VK), "CHECK model range of a gcd");
	__CPROVER_assume(g >= 0 && u >= 0 && v >= 0 && vmul(g, u) == x && vmul(g, v) == y && vmul(s, x) + vmul(t, y) == g);
	r->h = 0, r->v = g;
#else
	while (x) { VINT t = y % x; y = x; x = t; }
	r->h = 0, r->v = y;
#endif
}
static inline void mpz_lcm(mpz_ptr r, mpz_srcptr a, mpz_srcptr b)
{
	__mpz_struct g;
	g.v = 0;
	mpz_gcd(&g, a, b);
	VINT x = a->v < 0 ? -a->v : a->v, y = b->v < 0 ? -b->v : b->v;
	r->h = 0, r->v = g.v ? vmul(vfdiv(x, g.v), y) : 0;
}
static inline int mpz_sgn(mpz_srcptr a) { return a->h ? 2 - a->h : a->v > 0 ? 1 : a->v < 0 ? -1 : 0; }
static inline int mpz_cmp(mpz_srcptr a, mpz_srcptr b) { return a->v > b->v ? 1 : a->v < b->v ? -1 : 0; }
static inline int mpz_cmp_si(mpz_srcptr a, long b) { return a->v > b ? 1 : a->v < b ? -1 : 0; }
static inline int mpz_cmpabs(mpz_srcptr a, mpz_srcptr b)
{
	VINT x = a->v < 0 ? -a->v : a->v, y = b->v < 0 ? -b->v : b->v;
	return x > y ? 1 : x < y ? -1 : 0;
}
static inline int mpz_divisible_p(mpz_srcptr a, mpz_srcptr b) { return b->v ? a->v - vmul(vfdiv(a->v, b->v), b->v) == 0 : a->v == 0; }
int mpz_set_str(mpz_ptr r, const char *s, int base);
char *mpz_get_str(char *s, int base, mpz_srcptr a);
void mp_get_memory_functions(void *(**a)(size_t), void *(**b)(void *, size_t, size_t), void (**c)(void *, size_t));
#define mp_get_memory_functions mp_get_memory_functions
#endif
