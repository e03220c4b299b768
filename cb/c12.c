/* Matrix import and constraint access: isl is modelled as what it stores (spaces, rows of coefficients). */
#include "vh.h"
#include <cloog/cloog.h>
#include <cloog/isl/cloog.h>
#include <cloog/isl/backend.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/val.h>
#include <isl/space.h>
#include <isl/local_space.h>
#include <isl/constraint.h>
#define MX 4
#define MAXC 6
struct sp { int par, in, out, div; };
struct co { struct sp s; int eq, par[MX], in[MX], out[MX], div[MX], cst; };
struct bs { struct sp s; int n; struct co c[MAXC]; };
struct va { int v; };
static struct sp SPP[40];
static int nsp;
static struct co CO[12];
static int nco;
static struct bs BS[6];
static int nbs;
static struct va VA[80];
static int nva;
static struct sp *newsp(int p, int i, int o) { struct sp *s = &SPP[nsp++]; s->par = p; s->in = i; s->out = o; s->div = 0; return s; }
isl_space *isl_space_set_alloc(isl_ctx *c, unsigned p, unsigned d) { return (isl_space *) newsp(p, 0, d); }
isl_space *isl_space_alloc(isl_ctx *c, unsigned p, unsigned i, unsigned o) { return (isl_space *) newsp(p, i, o); }
isl_space *isl_space_copy(isl_space *s) { return s; }
isl_space *isl_space_free(isl_space *s) { return NULL; }
static int dimof(struct sp *s, enum isl_dim_type t) { return t == isl_dim_param ? s->par : t == isl_dim_in ? s->in : t == isl_dim_out ? s->out : t == isl_dim_div ? s->div : s->par + s->in + s->out + s->div; }
isl_size isl_space_dim(isl_space *s, enum isl_dim_type t) { return dimof((struct sp *) s, t); }
isl_bool isl_space_is_set(isl_space *s) { return ((struct sp *) s)->in == 0; }
isl_local_space *isl_local_space_from_space(isl_space *s) { return (isl_local_space *) s; }
static isl_constraint *newco(struct sp *s, int eq)
{
	struct co *c = &CO[nco++];
	memset(c, 0, sizeof(*c));
	c->s = *s;
	c->eq = eq;
	return (isl_constraint *) c;
}
isl_constraint *isl_equality_alloc(isl_local_space *l) { return newco((struct sp *) l, 1); }
isl_constraint *isl_inequality_alloc(isl_local_space *l) { return newco((struct sp *) l, 0); }
isl_constraint *isl_constraint_alloc_equality(isl_local_space *l) { return newco((struct sp *) l, 1); }
isl_constraint *isl_constraint_alloc_inequality(isl_local_space *l) { return newco((struct sp *) l, 0); }
isl_ctx *isl_constraint_get_ctx(isl_constraint *c) { return NULL; }
isl_val *isl_val_int_from_si(isl_ctx *c, long v) { VA[nva].v = v; return (isl_val *) &VA[nva++]; }
long isl_val_get_num_si(isl_val *v) { return ((struct va *) v)->v; }
isl_bool isl_val_is_int(isl_val *v) { return isl_bool_true; }
isl_val *isl_val_free(isl_val *v) { return NULL; }
#define VV(v) (((struct va *) (v))->v)
isl_val *isl_val_copy(isl_val *v) { return v; }
isl_bool isl_val_is_zero(isl_val *v) { return VV(v) == 0 ? isl_bool_true : isl_bool_false; }
isl_bool isl_val_is_one(isl_val *v) { return VV(v) == 1 ? isl_bool_true : isl_bool_false; }
isl_bool isl_val_is_negone(isl_val *v) { return VV(v) == -1 ? isl_bool_true : isl_bool_false; }
isl_bool isl_val_is_pos(isl_val *v) { return VV(v) > 0 ? isl_bool_true : isl_bool_false; }
isl_bool isl_val_is_neg(isl_val *v) { return VV(v) < 0 ? isl_bool_true : isl_bool_false; }
isl_bool isl_val_is_nonneg(isl_val *v) { return VV(v) >= 0 ? isl_bool_true : isl_bool_false; }
isl_bool isl_val_is_nonpos(isl_val *v) { return VV(v) <= 0 ? isl_bool_true : isl_bool_false; }
isl_bool isl_val_is_nan(isl_val *v) { return isl_bool_false; }
int isl_val_sgn(isl_val *v) { return VV(v) < 0 ? -1 : VV(v) > 0; }
isl_val *isl_val_neg(isl_val *v) { return isl_val_int_from_si(NULL, -VV(v)); }
static int *slot(struct co *c, enum isl_dim_type t, int pos)
{
	CHECK(pos >= 0 && pos < dimof(&c->s, t), "a coefficient is of an existing dimension");
	return t == isl_dim_param ? &c->par[pos] : t == isl_dim_in ? &c->in[pos] : t == isl_dim_out ? &c->out[pos] : &c->div[pos];
}
isl_constraint *isl_constraint_set_coefficient_val(isl_constraint *c, enum isl_dim_type t, int pos, isl_val *v) { *slot((struct co *) c, t, pos) = ((struct va *) v)->v; return c; }
isl_constraint *isl_constraint_set_constant_val(isl_constraint *c, isl_val *v) { ((struct co *) c)->cst = ((struct va *) v)->v; return c; }
isl_constraint *isl_constraint_set_coefficient_si(isl_constraint *c, enum isl_dim_type t, int pos, int v) { *slot((struct co *) c, t, pos) = v; return c; }
isl_constraint *isl_constraint_set_constant_si(isl_constraint *c, int v) { ((struct co *) c)->cst = v; return c; }
isl_val *isl_constraint_get_coefficient_val(isl_constraint *c, enum isl_dim_type t, int pos) { return isl_val_int_from_si(NULL, *slot((struct co *) c, t, pos)); }
isl_val *isl_constraint_get_constant_val(isl_constraint *c) { return isl_val_int_from_si(NULL, ((struct co *) c)->cst); }
isl_size isl_constraint_dim(isl_constraint *c, enum isl_dim_type t) { return dimof(&((struct co *) c)->s, t); }
isl_bool isl_constraint_is_equality(isl_constraint *c) { return ((struct co *) c)->eq; }
isl_bool isl_constraint_involves_dims(isl_constraint *c, enum isl_dim_type t, unsigned f, unsigned n) { int r = 0; for (unsigned i = f; i < f + n; i++) r |= *slot((struct co *) c, t, i) != 0; return r; }
isl_bool isl_constraint_is_lower_bound(isl_constraint *c, enum isl_dim_type t, unsigned p) { return *slot((struct co *) c, t, p) > 0; }
isl_bool isl_constraint_is_upper_bound(isl_constraint *c, enum isl_dim_type t, unsigned p) { return *slot((struct co *) c, t, p) < 0; }
static struct bs *newbs(struct sp *s) { struct bs *b = &BS[nbs++]; b->s = *s; b->n = 0; return b; }
isl_basic_set *isl_basic_set_universe(isl_space *s) { return (isl_basic_set *) newbs((struct sp *) s); }
isl_basic_map *isl_basic_map_universe(isl_space *s) { return (isl_basic_map *) newbs((struct sp *) s); }
static void add(struct bs *b, struct co *c)
{
	CHECK(b->s.par == c->s.par && b->s.in == c->s.in && b->s.out == c->s.out, "constraint and set have the same dimensions");
	CHECK(b->n < MAXC, "no more constraints than rows");
	b->c[b->n++] = *c;
}
isl_basic_set *isl_basic_set_add_constraint(isl_basic_set *b, isl_constraint *c) { add((struct bs *) b, (struct co *) c); return b; }
isl_basic_map *isl_basic_map_add_constraint(isl_basic_map *b, isl_constraint *c) { add((struct bs *) b, (struct co *) c); return b; }
isl_basic_map *isl_basic_map_reverse(isl_basic_map *m)
{
	struct bs *b = (struct bs *) m;
	int i, k, t;
	t = b->s.in; b->s.in = b->s.out; b->s.out = t;
	for (i = 0; i < b->n; i++)
		for (k = 0; k < MX; k++) { t = b->c[i].in[k]; b->c[i].in[k] = b->c[i].out[k]; b->c[i].out[k] = t; }
	return m;
}
isl_map *isl_map_from_basic_map(isl_basic_map *m) { return (isl_map *) m; }
isl_map *isl_map_reverse(isl_map *m) { return (isl_map *) isl_basic_map_reverse((isl_basic_map *) m); }
isl_set *isl_set_from_basic_set(isl_basic_set *m) { return (isl_set *) m; }
isl_bool isl_set_is_params(isl_set *s) { return ((struct bs *) s)->s.out == 0 && ((struct bs *) s)->s.par > 0 ? isl_bool_false : isl_bool_false; }
isl_set *isl_set_from_params(isl_set *s) { return s; }
isl_set *isl_set_detect_equalities(isl_set *s) { return s; }
isl_set *isl_set_compute_divs(isl_set *s) { return s; }
static struct { void *ctx; char pad[64]; } be;
static CloogState state;
#if OP < 2
#define COLS (SC + DIM + PAR + 2)
static cloog_int_t cell[ROWS ? ROWS : 1][COLS], *rowp[ROWS ? ROWS : 1];
static CloogMatrix M;
static int cc(int k) { return nd(-K, K); }
void harness(void)
{
	int i, j, x[COLS], in = 1, out = 1;
	struct bs *b;
	state.backend = (CloogBackend *) &be;
	M.NbRows = ROWS;
	M.NbColumns = COLS;
	M.p = rowp;
	M.p_Init = cell[0];
	for (i = 0; i < ROWS; i++) {
		rowp[i] = cell[i];
		cell[i][0] = nd(0, 1);
		for (j = 1; j < COLS; j++)
			cell[i][j] = nd(-K, K);
	}
	for (j = 0; j < COLS - 2; j++)
		x[j] = nd(-K, K);
#if OP == 0
	b = (struct bs *) cloog_domain_from_cloog_matrix(&state, &M, PAR);
	CHECK(b && b->s.par == PAR && b->s.in == 0 && b->s.out == DIM, "the domain has the dimensions of the matrix");
#else
	b = (struct bs *) cloog_scattering_from_cloog_matrix(&state, &M, SC, PAR);
	CHECK(b && b->s.par == PAR && b->s.in == DIM && b->s.out == SC, "the scattering has the dimensions of the matrix");
#endif
	/* the meaning of the matrix and of what isl was given, at any point */
	for (i = 0; i < ROWS; i++) {
		int v = cell[i][COLS - 1];
		for (j = 0; j < COLS - 2; j++)
			v += cell[i][1 + j] * x[j];
		in &= cell[i][0] == 0 ? v == 0 : v >= 0;
	}
	for (i = 0; i < MAXC; i++)
		if (i < b->n) {
			int v = b->c[i].cst;
#if OP == 0
			for (j = 0; j < DIM; j++)
				v += b->c[i].out[j] * x[j];
#else
			for (j = 0; j < SC; j++)
				v += b->c[i].out[j] * x[j];
			for (j = 0; j < DIM; j++)
				v += b->c[i].in[j] * x[SC + j];
#endif
			for (j = 0; j < PAR; j++)
				v += b->c[i].par[j] * x[SC + DIM + j];
			out &= b->c[i].eq ? v == 0 : v >= 0;
		}
	CHECK(in == out, "the set holds exactly the points of the matrix");
	WITNESS();
}
#else
/* access to the coefficients of a constraint over DIM dimensions, DIV divisions and PAR parameters */
#define T (DIM + DIV + PAR)
void harness(void)
{
	int i, v[T + 1];
	struct co c;
	cloog_int_t got, all[T + 2];
	memset(&c, 0, sizeof(c));
	c.s.out = DIM;
	c.s.div = DIV;
	c.s.par = PAR;
	for (i = 0; i <= T; i++)
		v[i] = nd(-1000, 1000);
	c.eq = nd(0, 1);
	for (i = 0; i < DIM; i++) c.out[i] = v[i];
	for (i = 0; i < DIV; i++) c.div[i] = v[DIM + i];
	for (i = 0; i < PAR; i++) c.par[i] = v[DIM + DIV + i];
	c.cst = v[T];
	CloogConstraint *k = (CloogConstraint *) &c;
	CHECK(cloog_constraint_total_dimension(k) == T, "every unknown is counted");
	CHECK(!!cloog_constraint_is_equality(k) == c.eq, "an equality is an equality");
	all[T + 1] = 77;
	cloog_constraint_copy_coefficients(k, all);
	CHECK(all[T + 1] == 77, "only the coefficients are written");
	for (i = 0; i < T; i++) {
		cloog_constraint_coefficient_get(k, i, &got);
		CHECK(got == v[i], "a coefficient is read as it is");
		CHECK(all[i] == v[i], "the copied coefficients are those of the constraint");
		CHECK(!!cloog_constraint_involves(k, i) == (v[i] != 0), "a constraint involves the unknowns with a coefficient");
		CHECK(!!cloog_constraint_is_lower_bound(k, i) == (v[i] > 0), "positive coefficients give lower bounds");
		CHECK(!!cloog_constraint_is_upper_bound(k, i) == (v[i] < 0), "negative coefficients give upper bounds");
	}
	cloog_constraint_constant_get(k, &got);
	CHECK(got == v[T] && all[T] == v[T], "the constant is read as it is");
	for (i = 0; i < T; i++) {
		cloog_int_t w = nd(-1000, 1000);
		int j;
		cloog_constraint_coefficient_set(k, i, w);
		v[i] = w;
		for (j = 0; j < T; j++) {
			cloog_constraint_coefficient_get(k, j, &got);
			CHECK(got == v[j], "a coefficient is read as it was set and the others are kept");
		}
	}
	WITNESS();
}
#endif
