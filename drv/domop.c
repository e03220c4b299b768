/* Runs the domain operations of the library on the domains read from a file
 * and prints every result as constraints; /verif/checks/c22.py, c15.py and
 * c12.py decide with a solver whether the results are right for all points.
 * Results are read with isl directly, not with the code under test. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <isl/aff.h>
#include <isl/mat.h>
#include <isl/constraint.h>
#include <isl/val.h>
#include <isl/space.h>
#include <isl/local_space.h>
#include <isl/set.h>
#include <isl/map.h>
#define CLOOG_INT_GMP 1
#include <cloog/isl/cloog.h>

static FILE *in;
static isl_ctx *ctx;
static CloogState *st;
static int npar, dim;

static long geti(void)
{
	long v;
	if (fscanf(in, "%ld", &v) != 1) {
		fprintf(stderr, "driver: bad input\n");
		exit(3);
	}
	return v;
}

static void print_mat(const char *tag, isl_mat *m, int cols)
{
	int i, j, n = isl_mat_rows(m);
	for (i = 0; i < n; i++) {
		printf("%s", tag);
		for (j = 0; j < cols; j++) {
			isl_val *v = isl_mat_get_element_val(m, i, j);
			printf(" %ld", isl_val_get_num_si(v));
			isl_val_free(v);
		}
		printf("\n");
	}
	isl_mat_free(m);
}

static isl_stat print_bset(isl_basic_set *b, void *u)
{
	int n = isl_basic_set_dim(b, isl_dim_set);
	int np = isl_basic_set_dim(b, isl_dim_param), nd = isl_basic_set_dim(b, isl_dim_div);
	int i, j, k;
	printf("B 0 %d %d %d\n", n, nd, np);
	for (i = 0; i < nd; i++) {
		isl_aff *a = isl_basic_set_get_div(b, i);
		isl_val *d = isl_aff_get_denominator_val(a), *v;
		enum isl_dim_type t[] = { isl_dim_in, isl_dim_div, isl_dim_param };
		printf("D %ld", isl_val_get_num_si(d));
		for (k = 0; k < 3; k++) {
			int m = isl_aff_dim(a, t[k]);
			for (j = 0; j < m; j++) {
				v = isl_aff_get_coefficient_val(a, t[k], j);
				v = isl_val_mul(v, isl_val_copy(d));
				printf(" %ld", isl_val_get_num_si(v));
				isl_val_free(v);
			}
			if (k == 1)
				for (; j < nd; j++)
					printf(" 0");
		}
		v = isl_aff_get_constant_val(a);
		v = isl_val_mul(v, isl_val_copy(d));
		printf(" %ld\n", isl_val_get_num_si(v));
		isl_val_free(v);
		isl_val_free(d);
		isl_aff_free(a);
	}
	print_mat("E", isl_basic_set_equalities_matrix(b, isl_dim_set, isl_dim_div, isl_dim_param, isl_dim_cst), n + nd + np + 1);
	print_mat("I", isl_basic_set_inequalities_matrix(b, isl_dim_set, isl_dim_div, isl_dim_param, isl_dim_cst), n + nd + np + 1);
	isl_basic_set_free(b);
	return isl_stat_ok;
}

static void out_set(const char *name, CloogDomain *d)
{
	isl_set *s = isl_set_from_cloog_domain(d);
	if (!s) {
		printf("NULL %s\n.\n", name);
		return;
	}
	s = isl_set_compute_divs(isl_set_copy(s));
	printf("SET %s %d %d\n", name, (int)isl_set_dim(s, isl_dim_set), (int)isl_set_dim(s, isl_dim_param));
	isl_set_foreach_basic_set(s, print_bset, NULL);
	isl_set_free(s);
	printf(".\n");
	fflush(stdout);
}

static void out_map(const char *name, CloogScattering *m)
{
	isl_set *s = isl_map_wrap(isl_map_copy((isl_map *)m));
	s = isl_set_flatten(s);
	s = isl_set_compute_divs(s);
	printf("SET %s %d %d\n", name, (int)isl_set_dim(s, isl_dim_set), (int)isl_set_dim(s, isl_dim_param));
	isl_set_foreach_basic_set(s, print_bset, NULL);
	isl_set_free(s);
	printf(".\n");
	fflush(stdout);
}

static void out_int(const char *name, long v)
{
	printf("INT %s %ld\n", name, v);
	fflush(stdout);
}

static CloogMatrix *read_matrix(int cols)
{
	int i, j, rows = geti();
	CloogMatrix *m = cloog_matrix_alloc(rows, cols);
	for (i = 0; i < rows; i++)
		for (j = 0; j < cols; j++)
			cloog_int_set_si(m->p[i][j], geti());
	return m;
}

/* a piece with existentially quantified variables, built with isl alone */
static isl_set *read_exists(int d, int np)
{
	int ne = geti(), rows = geti(), i, j, cols = d + ne + np + 1;
	isl_set *set = isl_set_universe(isl_space_set_alloc(ctx, np, d + ne));
	for (i = 0; i < rows; i++) {
		isl_local_space *ls = isl_local_space_from_space(isl_set_get_space(set));
		isl_constraint *c = geti() ? isl_constraint_alloc_inequality(ls) : isl_constraint_alloc_equality(ls);
		for (j = 0; j < cols; j++) {
			int v = geti();
			if (j < d + ne)
				c = isl_constraint_set_coefficient_si(c, isl_dim_set, j, v);
			else if (j < d + ne + np)
				c = isl_constraint_set_coefficient_si(c, isl_dim_param, j - d - ne, v);
			else
				c = isl_constraint_set_constant_si(c, v);
		}
		set = isl_set_add_constraint(set, c);
	}
	return isl_set_project_out(set, isl_dim_set, d, ne);
}

static CloogDomain *read_domain(int d, int np)
{
	int i, n = geti();
	CloogDomain *r = NULL;
	for (i = 0; i < n; i++) {
		CloogDomain *p;
		if (geti() == 0) {
			CloogMatrix *m = read_matrix(d + np + 2);
			p = cloog_domain_from_cloog_matrix(st, m, np);
			cloog_matrix_free(m);
		} else {
			p = cloog_domain_from_isl_set(read_exists(d, np));
		}
		r = r ? cloog_domain_union(r, p) : p;
	}
	return r;
}

struct pc { const char *name; int n, total; };

static int print_c(CloogConstraint *c, void *u)
{
	struct pc *p = u;
	int i, t = cloog_constraint_total_dimension(c);
	cloog_int_t *co = malloc((t + 2) * sizeof(cloog_int_t));
	cloog_int_t v;
	cloog_int_init(v);
	for (i = 0; i < t + 2; i++)
		cloog_int_init(co[i]);
	printf("C %d", cloog_constraint_is_equality(c));
	for (i = 0; i < t; i++) {
		cloog_constraint_coefficient_get(c, i, &v);
		printf(" %ld", mpz_get_si(v));
	}
	cloog_constraint_constant_get(c, &v);
	printf(" %ld\n", mpz_get_si(v));
	cloog_constraint_copy_coefficients(c, co + 1);
	printf("K %d", t);
	for (i = 0; i <= t; i++)
		printf(" %ld", mpz_get_si(co[1 + i]));
	printf("\n");
	printf("L");
	for (i = 0; i < t; i++)
		printf(" %d%d%d", cloog_constraint_involves(c, i), cloog_constraint_is_lower_bound(c, i), cloog_constraint_is_upper_bound(c, i));
	printf("\n");
	p->n++;
	for (i = 0; i < t + 2; i++)
		cloog_int_clear(co[i]);
	free(co);
	cloog_int_clear(v);
	return 0;
}

static void name2(char *b, const char *op, int i, int j)
{
	if (j < 0)
		sprintf(b, "%s:%d", op, i);
	else
		sprintf(b, "%s:%d,%d", op, i, j);
}

static void print_domain(int i, CloogDomain *d)
{
	if (isl_set_n_basic_set((isl_set *)d) == 1) {
		CloogConstraintSet *cs = cloog_domain_constraints(d), *cc;
		struct pc p = { 0 };
		printf("CONS cons:%d %d %d\n", i, cloog_constraint_set_total_dimension(cs), cloog_constraint_set_n_iterators(cs, npar));
		cloog_constraint_set_foreach_constraint(cs, print_c, &p);
		printf(".\n");
		cc = cloog_constraint_set_copy(cs);
		printf("CONS conscopy:%d %d %d\n", i, cloog_constraint_set_total_dimension(cc), cloog_constraint_set_n_iterators(cc, npar));
		cloog_constraint_set_foreach_constraint(cc, print_c, &p);
		printf(".\n");
		cloog_constraint_set_free(cc);
		cloog_constraint_set_free(cs);
	}
	printf("TEXT print:%d\n", i);
	cloog_domain_print_constraints(stdout, d, 1);
	printf("\n.\n");
	if (isl_set_n_basic_set((isl_set *)d) == 1) {
		printf("TEXT print0:%d\n", i);
		cloog_domain_print_constraints(stdout, d, 0);
		printf("\n.\n");
	}
}

int main(int argc, char **argv)
{
	int i, j, k, nd, ns;
	CloogDomain *dom[16], *ctxd;
	CloogScattering *sc[16];
	int nsc[16];
	char b[64];
	cloog_int_t v, w;

	in = fopen(argv[1], "r");
	int what = argc > 2 ? atoi(argv[2]) : 255;
	st = cloog_state_malloc();
	ctx = st->backend->ctx;
	cloog_int_init(v);
	cloog_int_init(w);
	npar = geti();
	dim = geti();
	nd = geti();
	for (i = 0; i < nd; i++) {
		dom[i] = read_domain(dim, npar);
		name2(b, "in", i, -1);
		out_set(b, dom[i]);
	}
	ns = geti();
	for (i = 0; i < ns; i++) {
		nsc[i] = geti();
		CloogMatrix *m = read_matrix(nsc[i] + dim + npar + 2);
		sc[i] = cloog_scattering_from_cloog_matrix(st, m, nsc[i], npar);
		cloog_matrix_free(m);
		name2(b, "scat", i, -1);
		out_map(b, sc[i]);
	}
	if (what & 1) {	/* one domain */
		for (i = 0; i < nd; i++) {
			CloogDomain *r, *rest;
			name2(b, "dims", i, -1);
			printf("INTS %s %d %d %d %d %d\n", b, cloog_domain_dimension(dom[i]), cloog_domain_parameter_dimension(dom[i]),
				cloog_domain_isconvex(dom[i]), cloog_domain_isempty(dom[i]), cloog_domain_never_integral(dom[i]));
			name2(b, "copy", i, -1);
			out_set(b, r = cloog_domain_copy(dom[i]));
			cloog_domain_free(r);
			name2(b, "convex", i, -1);
			out_set(b, r = cloog_domain_convex(dom[i]));
			cloog_domain_free(r);
			name2(b, "sconvex", i, -1);
			out_set(b, r = cloog_domain_simple_convex(dom[i]));
			cloog_domain_free(r);
			name2(b, "empty", i, -1);
			out_set(b, r = cloog_domain_empty(dom[i]));
			cloog_domain_free(r);
			name2(b, "sunion", i, -1);
			out_set(b, r = cloog_domain_simplify_union(cloog_domain_copy(dom[i])));
			cloog_domain_free(r);
			name2(b, "islcoalesce", i, -1);	/* reference: isl alone */
			out_set(b, r = (CloogDomain *)isl_set_coalesce(isl_set_copy((isl_set *)dom[i])));
			isl_set_free((isl_set *)r);
			if (isl_set_n_basic_set((isl_set *)dom[i]) > 0) {
				r = cloog_domain_cut_first(cloog_domain_copy(dom[i]), &rest);
				name2(b, "cut", i, -1);
				out_set(b, r);
				name2(b, "cutrest", i, -1);
				out_set(b, rest);
				name2(b, "cutconvex", i, -1);
				out_int(b, cloog_domain_isconvex(r));
				cloog_domain_free(r);
				cloog_domain_free(rest);
			}
			name2(b, "extend", i, -1);
			out_set(b, r = cloog_domain_extend(dom[i], dim + 1));
			cloog_domain_free(r);
			if (dim == 0 || npar > 0) {
				name2(b, "fromctx", i, -1);
				out_set(b, r = cloog_domain_from_context(cloog_domain_copy(dom[i])));
				cloog_domain_free(r);
			}
			for (k = 0; k <= dim; k++) {
				name2(b, "project", i, k);
				out_set(b, r = cloog_domain_project(dom[i], k));
				cloog_domain_free(r);
			}
			for (k = 1; k <= dim; k++) {
				name2(b, "otl", i, k);
				out_int(b, cloog_domain_is_otl(dom[i], k));
				name2(b, "bounded", i, k);
				out_int(b, cloog_domain_is_bounded(dom[i], k));
				cloog_int_set_si(v, 0);
				cloog_int_set_si(w, 0);
				name2(b, "const", i, k - 1);
				j = cloog_domain_lazy_isconstant(dom[i], k - 1, &v);
				printf("INTS %s %d %ld\n", b, j, mpz_get_si(v));
				if (!cloog_domain_isempty(dom[i])) {
					cloog_domain_stride(dom[i], k, &v, &w);
					name2(b, "stride", i, k);
					printf("INTS %s %ld %ld\n", b, mpz_get_si(v), mpz_get_si(w));
				}
				name2(b, "splitter", i, k);
				out_set(b, r = cloog_domain_bound_splitter(dom[i], k));
				cloog_domain_free(r);
				if (cloog_domain_can_stride(dom[i], k)) {
					int s, o;
					for (s = 2; s <= 3; s++) {
						for (o = 0; o < s; o += s - 1) {
							CloogStride *cs;
							cloog_int_set_si(v, s);
							cloog_int_set_si(w, o);
							cs = cloog_stride_alloc(v, w);
							sprintf(b, "slb:%d,%d,%d,%d", i, k, s, o);
							out_set(b, r = cloog_domain_stride_lower_bound(cloog_domain_copy(dom[i]), k, cs));
							cloog_domain_free(r);
							cloog_stride_free(cs);
						}
					}
				}
				{
					CloogConstraint *lb = NULL;
					cloog_int_set_si(v, 0);
					name2(b, "unroll", i, k);
					if (isl_set_n_basic_set((isl_set *)dom[i]) > 0 && cloog_domain_can_unroll(dom[i], k, &v, &lb)) {
						int nn = mpz_get_si(v), t;
						struct pc p = { 0 };
						printf("INTS %s %d %d\n", b, nn, cloog_constraint_total_dimension(lb));
						printf("CONS %s\n", b);
						print_c(lb, &p);
						printf(".\n");
						for (t = 0; t < nn && t < 5; t++) {
							cloog_int_set_si(w, t);
							sprintf(b, "fixed:%d,%d,%d", i, k, t);
							out_set(b, r = cloog_domain_fixed_offset(cloog_domain_copy(dom[i]), k, lb, w));
							cloog_domain_free(r);
						}
						cloog_constraint_release(lb);
					} else
						printf("INTS %s 0 0\n", b);
				}
			}
			print_domain(i, dom[i]);
			/* the argument is still the same set */
			name2(b, "after", i, -1);
			out_set(b, dom[i]);
		}
	}
	if (what & 32)
		for (i = 0; i < nd; i++)
			print_domain(i, dom[i]);
	if (what & 2) {	/* pairs */
		for (i = 0; i < nd; i++)
			for (j = 0; j < nd; j++) {
				CloogDomain *r;
				name2(b, "union", i, j);
				out_set(b, r = cloog_domain_union(cloog_domain_copy(dom[i]), cloog_domain_copy(dom[j])));
				cloog_domain_free(r);
				name2(b, "inter", i, j);
				out_set(b, r = cloog_domain_intersection(dom[i], dom[j]));
				cloog_domain_free(r);
				name2(b, "diff", i, j);
				out_set(b, r = cloog_domain_difference(dom[i], dom[j]));
				cloog_domain_free(r);
				if (isl_set_n_basic_set((isl_set *)dom[j]) == 1) {
					name2(b, "simplify", i, j);
					out_set(b, r = cloog_domain_simplify(dom[i], dom[j]));
					cloog_domain_free(r);
				}
				name2(b, "lazyeq", i, j);
				out_int(b, cloog_domain_lazy_equal(dom[i], dom[j]));
				name2(b, "lazydis", i, j);
				out_int(b, cloog_domain_lazy_disjoint(dom[i], dom[j]));
				for (k = 1; k <= dim; k++) {
					sprintf(b, "follows:%d,%d,%d", i, j, k);
					out_int(b, cloog_domain_follows(dom[i], dom[j], k));
				}
			}
		for (k = 1; k <= dim; k++) {
			CloogDomainList *l = NULL;
			CloogStride *s;
			CloogDomain *r;
			for (i = nd - 1; i >= 0; i--) {
				CloogDomainList *e = malloc(sizeof(CloogDomainList));
				e->domain = cloog_domain_copy(dom[i]);
				e->next = l;
				l = e;
			}
			s = cloog_domain_list_stride(l, k);
			if (s) {
				struct pc p = { 0 };
				printf("INTS lstride:%d %ld %ld %ld\n", k, mpz_get_si(s->stride), mpz_get_si(s->offset), mpz_get_si(s->factor));
				if (s->constraint) {
					printf("CONS lstride:%d\n", k);
					print_c(s->constraint, &p);
					printf(".\n");
				}
				for (i = 0; i < nd; i++) {
					CloogDomain *pr = cloog_domain_project(dom[i], k);
					name2(b, "lproj", i, k);
					out_set(b, pr);
					name2(b, "addstride", i, k);
					out_set(b, r = cloog_domain_add_stride_constraint(cloog_domain_copy(pr), s));
					cloog_domain_free(r);
					if (cloog_domain_can_stride(pr, k)) {
						name2(b, "lslb", i, k);
						out_set(b, r = cloog_domain_stride_lower_bound(cloog_domain_copy(pr), k, s));
						cloog_domain_free(r);
					}
					cloog_domain_free(pr);
				}
				cloog_stride_free(s);
			}
			cloog_domain_list_free(l);
		}
	}
	if (what & 4) {	/* sort: first convex piece of every domain */
		CloogDomain *f[16], *rest;
		int perm[16], n = 0;
		for (i = 0; i < nd; i++) {
			if (isl_set_n_basic_set((isl_set *)dom[i]) == 0)
				continue;
			f[n] = cloog_domain_cut_first(cloog_domain_copy(dom[i]), &rest);
			cloog_domain_free(rest);
			name2(b, "piece", n, -1);
			out_set(b, f[n]);
			n++;
		}
		for (k = 1; k <= dim; k++) {
			for (i = 0; i < n; i++)
				perm[i] = -7;
			cloog_domain_sort(f, n, k, perm);
			printf("INTS sort:%d", k);
			for (i = 0; i < n; i++)
				printf(" %d", perm[i]);
			printf("\n");
			fflush(stdout);
		}
		for (i = 0; i < n; i++)
			cloog_domain_free(f[i]);
	}
	if (what & 8) {	/* scatterings */
		CloogScatteringList *l = NULL;
		for (i = ns - 1; i >= 0; i--) {
			CloogScatteringList *e = malloc(sizeof(CloogScatteringList));
			e->scatt = (CloogScattering *)isl_map_copy((isl_map *)sc[i]);
			e->next = l;
			l = e;
		}
		if (ns)
			out_int("lsame", cloog_scattering_list_lazy_same(l));
		for (i = 0; i < ns; i++) {
			CloogDomain *r;
			CloogScattering *q;
			name2(b, "sdims", i, -1);
			printf("INTS %s %d %d\n", b, cloog_scattering_dimension(sc[i], dom[0]),
				cloog_scattering_fully_specified(sc[i], dom[0]));
			for (j = 0; j < nd; j++) {
				name2(b, "scatter", j, i);
				out_set(b, r = cloog_domain_scatter(cloog_domain_copy(dom[j]), sc[i]));
				cloog_domain_free(r);
			}
			for (k = 0; k < nsc[i]; k++) {
				cloog_int_set_si(v, 0);
				j = cloog_scattering_lazy_isscalar(sc[i], k, &v);
				name2(b, "scalar", i, k);
				printf("INTS %s %d %ld\n", b, j, mpz_get_si(v));
				q = cloog_scattering_erase_dimension(sc[i], k);
				name2(b, "erase", i, k);
				out_map(b, q);
				cloog_scattering_free(q);
			}
			for (j = 0; j < ns; j++)
				if (nsc[j] == nsc[i]) {
					name2(b, "block", i, j);
					out_int(b, cloog_scattering_lazy_block(sc[i], sc[j], l, nsc[i]));
				}
			printf("TEXT sprint:%d\n", i);
			cloog_scattering_print_constraints(stdout, sc[i]);
			printf("\n.\n");
		}
		cloog_scattering_list_free(l);
	}
	if (what & 16) {	/* constructors */
		CloogDomain *r;
		struct cloog_vec *lo, *hi;
		for (k = 0; k <= 3; k++) {
			int a;
			name2(b, "univ", k, -1);
			out_set(b, r = cloog_domain_universe(st, k));
			cloog_domain_free(r);
			for (a = -2; a <= 1; a++) {
				cloog_int_set_si(v, a);
				cloog_int_set_si(w, a + k);
				sprintf(b, "cube:%d,%d,%d", k, a, a + k);
				out_set(b, r = cloog_domain_cube(st, k, v, w));
				cloog_domain_free(r);
			}
			lo = cloog_vec_alloc(k);
			hi = cloog_vec_alloc(k);
			for (i = 0; i < k; i++) {
				cloog_int_set_si(lo->p[i], 3 * i - 4);
				cloog_int_set_si(hi->p[i], 5 * i - 1);
			}
			name2(b, "bounds", k, -1);
			out_set(b, r = cloog_domain_from_bounds(st, lo, hi));
			cloog_domain_free(r);
			cloog_vec_free(lo);
			cloog_vec_free(hi);
		}
	}
	for (i = 0; i < nd; i++)
		cloog_domain_free(dom[i]);
	for (i = 0; i < ns; i++)
		cloog_scattering_free(sc[i]);
	cloog_int_clear(v);
	cloog_int_clear(w);
	cloog_state_free(st);
	printf("END\n");
	return 0;
}
