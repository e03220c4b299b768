/* cloog_domain_sort: the comparison of two domains is abstracted to a symbolic precedence relation. */
#include "vh.h"
#include <cloog/cloog.h>
#include <cloog/isl/cloog.h>
#include <cloog/isl/backend.h>
#include <isl/set.h>
#include <isl/map.h>
struct dom { int id, tag; };
static struct dom D[N];
static int R[N][N];	/* a point of i follows a point of j */
static int Q[N][N];	/* ... or seems to when integer divisions are ignored */
static int C[N][N];	/* there are points with a common prefix */
#define ID(p) (((struct dom *) (p))->id)
static struct { int i, j, eq, gt; } M;
int isl_basic_set_compare_at(isl_basic_set *a, isl_basic_set *b, int pos)
{
	CHECK(pos == 1, "the comparison is made at the level of the sort");
	int i = ID(a), j = ID(b);
	return Q[i][j] ? 1 : C[i][j] ? -1 : 0;
}
isl_map *isl_map_from_domain_and_range(isl_set *a, isl_set *b) { M.i = ID(a); M.j = ID(b); M.eq = 0; M.gt = 0; return (isl_map *) &M; }
isl_map *isl_map_equate(isl_map *m, enum isl_dim_type t1, int p1, enum isl_dim_type t2, int p2) { if (p1 == 0 && p2 == 0 && t1 != t2) M.eq = 1; return m; }
isl_map *isl_map_order_gt(isl_map *m, enum isl_dim_type t1, int p1, enum isl_dim_type t2, int p2)
{
	CHECK(p1 == 1 && p2 == 1 && M.eq && t1 != t2, "the comparison is made at the level of the sort, for a common prefix");
	M.gt = t1 == isl_dim_in ? 1 : 2;
	return m;
}
isl_map *isl_map_order_lt(isl_map *m, enum isl_dim_type t1, int p1, enum isl_dim_type t2, int p2)
{
	CHECK(p1 == 1 && p2 == 1 && M.eq && t1 != t2, "the comparison is made at the level of the sort, for a common prefix");
	M.gt = t1 == isl_dim_in ? 2 : 1;
	return m;
}
isl_bool isl_map_is_empty(isl_map *m) { return M.gt == 1 ? !R[M.i][M.j] : !R[M.j][M.i]; }
isl_map *isl_map_free(isl_map *m) { return NULL; }
isl_set *isl_set_from_basic_set(isl_basic_set *b) { return (isl_set *) b; }
isl_basic_set *isl_basic_set_copy(isl_basic_set *b) { return b; }
isl_set *isl_set_copy(isl_set *b) { return b; }
isl_set *isl_set_free(isl_set *b) { return NULL; }
isl_basic_set *isl_basic_set_free(isl_basic_set *b) { return NULL; }
isl_ctx *isl_set_get_ctx(isl_set *s) { return NULL; }
isl_size isl_set_n_basic_set(isl_set *s) { return 1; }
isl_basic_set_list *isl_set_get_basic_set_list(isl_set *s) { return (isl_basic_set_list *) s; }
isl_basic_set *isl_basic_set_list_get_basic_set(isl_basic_set_list *l, int i) { return (isl_basic_set *) l; }
isl_basic_set_list *isl_basic_set_list_free(isl_basic_set_list *l) { return NULL; }
void *isl_malloc_or_die(isl_ctx *ctx, size_t size) { return malloc(N * sizeof(void *)); }
void *isl_calloc_or_die(isl_ctx *ctx, size_t n, size_t size) { return calloc(N, sizeof(void *)); }
void harness(void)
{
	int i, j, rank[N], pos[N], ok = 1;
	CloogDomain *d[N];
	int perm[N];
	for (i = 0; i < N; i++) {
		D[i].id = i;
		d[i] = (CloogDomain *) &D[i];
		rank[i] = nd(0, N - 1);
		perm[i] = -7;
		pos[i] = -1;
	}
	for (i = 0; i < N; i++)
		for (j = 0; j < i; j++) {
			/* how the points of i and j follow one another */
			C[i][j] = C[j][i] = nd(0, 1);
			R[i][j] = nd(0, 1);
			R[j][i] = nd(0, 1);
			Q[i][j] = nd(0, 1);
			Q[j][i] = nd(0, 1);
			ASSUME(Q[i][j] || !R[i][j]);
			ASSUME(Q[j][i] || !R[j][i]);
			ASSUME(C[i][j] || (!Q[i][j] && !Q[j][i]));
			ok &= !R[i][j] || rank[i] > rank[j];
			ok &= !R[j][i] || rank[j] > rank[i];
		}
	cloog_domain_sort(d, N, 2, perm);
	for (i = 0; i < N; i++) {
		CHECK(perm[i] >= 1 && perm[i] <= N, "the result is a permutation");
		CHECK(pos[perm[i] - 1] == -1, "the result is a permutation");
		pos[perm[i] - 1] = i;
	}
	for (i = 0; i < N; i++)
		for (j = 0; j < N; j++)
			CHECK(!ok || !R[i][j] || pos[i] > pos[j], "no domain is placed before one that must precede it");
	WITNESS();
}
