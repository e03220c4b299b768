/* Ownership: isl objects are handles (numbers), each reference its own handle.  The bodies of the isl functions are generated from the
 * __isl_take/keep/give annotations of isl's headers (vlib/own.py); results of queries are symbolic. */
#include "vh.h"
#undef malloc
#undef free
#undef calloc
#undef realloc
#undef strdup
#undef strndup
#undef snprintf
#undef sprintf
#include <stdint.h>
#include <isl/ctx.h>
#include <isl/val.h>
#include <isl/space.h>
#include <isl/local_space.h>
#include <isl/aff.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/union_set.h>
#include <isl/union_map.h>
#include <isl/constraint.h>
#include <isl/printer.h>
#include <isl/lp.h>
#include <cloog/cloog.h>
#include <cloog/isl/cloog.h>
#include <cloog/isl/backend.h>
#ifndef MAXD
#define MAXD 2
#endif
static int nlive, nmal;
int DIMS[8], NBS, NC;
void vx_stop(void) { ASSUME(0); }
void cloog_die(const char *m, ...) { vx_stop(); }
void cloog_msg(CloogOptions *o, enum cloog_msg_type t, const char *m, ...) { }
void *vx_malloc(size_t n) { void *p = malloc(n); ASSUME(p != NULL); nmal++; return p; }
void *vx_calloc(size_t a, size_t b) { void *p = vx_malloc(a * b); memset(p, 0, a * b); return p; }
void vx_free(void *p) { if (p) nmal--; free(p); }
char *vx_strdup(const char *s) { int n = strlen(s) + 1; char *r = vx_malloc(n); memcpy(r, s, n); return r; }
void *isl_malloc_or_die(isl_ctx *ctx, size_t n) { return vx_malloc(n); }
void *vx_realloc(void *p, size_t n) { if (!p) nmal++; return realloc(p, n); }
char *vx_strndup(const char *s, size_t n) { char *r = vx_malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
int vx_snprintf(char *s, size_t n, const char *f, ...) { if (n > 1) { s[0] = 'x'; s[1] = 0; } else if (n) s[0] = 0; return 1; }
int vx_sprintf(char *s, const char *f, ...) { s[0] = 'x'; s[1] = 0; return 1; }
/* an object: whether it is live, and its value; what isl computes or answers is a function of the values of its arguments */
typedef uint64_t V;
struct ob { unsigned char st; V v; };
static V rot(V v, int k) { k &= 63; return k ? v << k | v >> (64 - k) : v; }
static V val(const void *p) { return p ? ((const struct ob *) p)->v : 0; }
static void *mkv(V v) { struct ob *o = malloc(sizeof(*o)); o->st = 1; o->v = v; nlive++; return o; }
static void *mk(void) { V a = nd(0, 0x7fffffff), b = nd(0, 0x7fffffff); return mkv(a | b << 31 | a << 62); }
static void use(const void *p) { if (p) CHECK(((const struct ob *) p)->st == 1, "only live objects are used"); }
static void kill_(void *p)
{
	if (!p) return;
	CHECK(((struct ob *) p)->st == 1, "an object is released once");
	((struct ob *) p)->st = 2; nlive--;
}
static isl_ctx *the_ctx(void) { return (isl_ctx *) (uintptr_t) 0xc0; }
static CloogState *the_state(void)
{
	static CloogState s; static CloogBackend b;
	b.ctx = the_ctx(); s.backend = &b;
	return &s;
}
#include VH_GEN
void harness(void)
{
	nlive = nmal = 0;
	DIMS[1] = nd(0, MAXD); DIMS[2] = nd(0, MAXD); DIMS[3] = nd(0, MAXD); DIMS[4] = nd(0, MAXD);
	NBS = nd(0, 2); NC = nd(0, 2);
	body();
	CHECK(nlive == 0, "every set or relation object is released");
	CHECK(nmal == 0, "every structure is released");
	WITNESS();
}
