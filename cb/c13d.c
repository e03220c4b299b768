/* cloog_domain_read_context, cloog_domain_union_read and cloog_domain_read_scattering: isl is abstracted to the dimensions of a
 * relation; reading may fail or yield any dimensions. */
#include "vh.h"
#include <cloog/cloog.h>
#include <cloog/isl/cloog.h>
#include <cloog/isl/backend.h>
#include <isl/set.h>
#include <isl/map.h>
static int expect_die;
#ifdef VCBMC
#define STOP() ASSUME(0)
#else
#define STOP() _Exit(0)
#endif
void cloog_die(const char *m, ...)
{
	CHECK(expect_die, "a relation of the right dimensions is accepted");
	STOP();
}
struct rel { int par, in, out; };
static struct rel R, DOM;
static int fails;
static int dimof(struct rel *r, enum isl_dim_type t)
{
	if (!r) return -1;
	switch (t) {
	case isl_dim_param: return r->par;
	case isl_dim_in: return r->in;
	case isl_dim_out: return r->out;	/* also isl_dim_set */
	default: return 0;
	}
}
static void setdim(struct rel *r, enum isl_dim_type t, int d)
{
	if (t == isl_dim_param) r->par += d;
	else if (t == isl_dim_in) r->in += d;
	else r->out += d;
}
static struct rel *move(struct rel *r, enum isl_dim_type dt, unsigned dp, enum isl_dim_type st, unsigned sp, unsigned n)
{
	if (!r) return NULL;
	if (n == 0) return r;
	if (n > 100 || sp > 100 || (int) (sp + n) > dimof(r, st) || (int) dp > dimof(r, dt)) return NULL;
	setdim(r, st, -(int) n);
	setdim(r, dt, n);
	return r;
}
isl_set *isl_set_read_from_file(isl_ctx *ctx, FILE *f) { return (isl_set *) (fails ? NULL : &R); }
isl_map *isl_map_read_from_file(isl_ctx *ctx, FILE *f) { return (isl_map *) (fails ? NULL : &R); }
isl_size isl_set_dim(isl_set *s, enum isl_dim_type t) { return dimof((struct rel *) s, t); }
isl_size isl_map_dim(isl_map *s, enum isl_dim_type t) { return dimof((struct rel *) s, t); }
isl_set *isl_set_move_dims(isl_set *s, enum isl_dim_type dt, unsigned dp, enum isl_dim_type st, unsigned sp, unsigned n) { return (isl_set *) move((struct rel *) s, dt, dp, st, sp, n); }
isl_map *isl_map_move_dims(isl_map *s, enum isl_dim_type dt, unsigned dp, enum isl_dim_type st, unsigned sp, unsigned n) { return (isl_map *) move((struct rel *) s, dt, dp, st, sp, n); }
isl_ctx *isl_set_get_ctx(isl_set *s) { return NULL; }
isl_ctx *isl_map_get_ctx(isl_map *s) { return NULL; }
isl_bool isl_set_is_params(isl_set *s) { return isl_bool_false; }
isl_set *isl_set_from_params(isl_set *s) { return s; }
isl_set *isl_set_detect_equalities(isl_set *s) { return s; }
isl_set *isl_set_compute_divs(isl_set *s) { return s; }
isl_set *isl_set_free(isl_set *s) { return NULL; }
isl_map *isl_map_free(isl_map *s) { return NULL; }
static struct { void *ctx; char pad[64]; } be;
static CloogState state;
void harness(void)
{
	int nb = nd(0, 3), d = nd(0, 3);
	fails = nd(0, 1);
	R.par = nd(0, 3);
	R.in = nd(0, 3);
	R.out = nd(0, 7);
	struct rel r0 = R, *r;
	state.backend = (CloogBackend *) &be;
#if OP == 0
	ASSUME(R.in == 0);
	expect_die = fails;
	r = (struct rel *) cloog_domain_read_context(&state, NULL);
	CHECK(r && !fails, "a context that cannot be read is refused");
	CHECK(r->par == r0.par + r0.out && r->out == 0, "every column of the context is a parameter");
#elif OP == 1
	ASSUME(R.in == 0);
	expect_die = fails || !(r0.par == nb || (r0.par == 0 && r0.out >= nb));
	r = (struct rel *) cloog_domain_union_read(&state, NULL, nb);
	CHECK(r && !fails, "a domain that cannot be read is refused");
	CHECK(!expect_die, "a domain with the wrong number of parameters is refused");
	CHECK(r->par == nb && r->out == (r0.par == nb ? r0.out : r0.out - nb), "the parameters are the last columns");
#else
	/* PolyLib format: everything is an output column */
	int ok = (r0.par == nb && r0.in == d) || (r0.par == nb && r0.in == 0 && r0.out >= d) || (r0.par == 0 && r0.in == d && r0.out >= nb)
		|| (r0.par == 0 && r0.in == 0 && r0.out >= nb + d);
	DOM.par = nb;
	DOM.out = d;
	expect_die = fails || !ok;
	r = (struct rel *) cloog_domain_read_scattering((CloogDomain *) &DOM, NULL);
	CHECK(r && !fails, "a scattering function that cannot be read is refused");
	CHECK(!expect_die, "a scattering function of the wrong dimensions is refused");
	CHECK(r->par == nb && r->in == d && r->out == r0.par + r0.in + r0.out - nb - d, "the columns are the scattering dimensions, the iterators and the parameters");
#endif
	WITNESS();
}
