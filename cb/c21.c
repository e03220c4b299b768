/* clast_filter on trees of a given shape with symbolic iterator names, statement numbers and filters.
 * Shape: U user statement, A assignment, F(...) loop, G(...) guard, B(...) block; the root is implicit. */
#include "vh.h"
#include <cloog/cloog.h>
#ifndef NST
#define NST 3		/* statement numbers 1..NST */
#endif
#ifdef VCBMC
/* an allocator that grows in place (8 entries are enough for the bounded trees); copies and comparisons by entry */
void *realloc(void *p, size_t n)
{
	if (p) return p;
	__CPROVER_assert(n == sizeof(int) || n == sizeof(void *), "realloc model");
	if (n == sizeof(int)) return malloc(sizeof(int) * 8);
	return malloc(sizeof(void *) * 8);
}
int memcmp(const void *a, const void *b, size_t n)
{
	__CPROVER_assert(n == sizeof(int) || n == sizeof(void *), "memcmp model");
	return n == sizeof(int) ? *(const int *) a != *(const int *) b : *(void *const *) a != *(void *const *) b;
}
void *memcpy(void *a, const void *b, size_t n)
{
	__CPROVER_assert(n == sizeof(int) || n == sizeof(void *), "memcpy model");
	if (n == sizeof(int)) *(int *) a = *(const int *) b; else *(void **) a = *(void *const *) b;
	return a;
}
#endif
static const char nm0[] = "i", nm1[] = "i1", nm0b[] = "i";
#define MAXN 16
static struct clast_for FO[MAXN];
static struct clast_user_stmt US[MAXN];
static struct cloogstatement ST[MAXN];
static struct clast_assignment AS[MAXN];
static struct clast_guard GU[MAXN];
static struct clast_block BL[MAXN];
static struct clast_root RO;
static int nf, nu, na, ng, nb;
static int fit[MAXN], fmask[MAXN];	/* per loop: iterator, statements below */
static const char *pos;
static struct clast_stmt *mklist(int *mask)
{
	struct clast_stmt *s, *n;
	int m = 0, k;
	char c = *pos;
	*mask = 0;
	if (c == 0 || c == ')') return NULL;
	pos++;
	switch (c) {
	case 'U':
		k = nu++;
		ST[k].number = nd(1, NST);
		m = 1 << ST[k].number;
		US[k].statement = &ST[k];
		US[k].stmt.op = &stmt_user;
		s = &US[k].stmt;
		break;
	case 'A':
		k = na++;
		AS[k].stmt.op = &stmt_ass;
		s = &AS[k].stmt;
		break;
	case 'F':
		k = nf++;
		pos++;
		FO[k].body = mklist(&m);
		pos++;
		fit[k] = nd(0, 2);
		FO[k].iterator = fit[k] == 0 ? nm0 : fit[k] == 1 ? nm1 : nm0b;
		fmask[k] = m;
		FO[k].stmt.op = &stmt_for;
		s = &FO[k].stmt;
		break;
	case 'G':
		k = ng++;
		pos++;
		GU[k].then = mklist(&m);
		pos++;
		GU[k].stmt.op = &stmt_guard;
		s = &GU[k].stmt;
		break;
	default:
		k = nb++;
		pos++;
		BL[k].body = mklist(&m);
		pos++;
		BL[k].stmt.op = &stmt_block;
		s = &BL[k].stmt;
	}
	n = mklist(mask);
	s->next = n;
	*mask |= m;
	return s;
}
void harness(void)
{
	int mask, i, j, seen, allow = 0, fl[NST];
	struct clast_for **loops;
	int nloops, *stmts, nstmts;
	ClastFilter f;
	struct clast_stmt *top;
	pos = SHAPE;
	top = mklist(&mask);
	RO.stmt.op = &stmt_root;
	RO.stmt.next = top;
	int it = nd(-1, 1);
	f.iter = it < 0 ? NULL : it == 0 ? nm0 : nm1;
	f.filter_type = nd(0, 1) ? subset : exact;
	f.nstmts_filter = nd(0, NST);
	for (i = 0; i < NST; i++) {
		fl[i] = nd(1, NST + 1);
		for (j = 0; j < i; j++) ASSUME(fl[i] != fl[j]);
		if (i < f.nstmts_filter) allow |= 1 << fl[i];
	}
	int nofilter = nd(0, 1);
	f.stmts_filter = nofilter ? NULL : fl;
	clast_filter(ROOT ? &RO.stmt : top, f, &loops, &nloops, &stmts, &nstmts);
	seen = 0;
	CHECK(nstmts >= 0 && nstmts <= nu && nloops >= 0 && nloops <= nf, "the counts are those of the tree");
	for (i = 0; i < nu; i++)
		if (i < nstmts) {
			CHECK(stmts[i] >= 1 && stmts[i] <= NST && !(seen & (1 << stmts[i])), "each statement is listed once");
			seen |= 1 << stmts[i];
		}
	CHECK(seen == mask, "exactly the statements of the tree are listed");
	for (j = 0; j < nf; j++) {
		int cnt = 0, want;
		for (i = 0; i < nf; i++)
			if (i < nloops && loops[i] == &FO[j]) cnt++;
		want = (it < 0 || (it == 1) == (fit[j] == 1))
			&& (nofilter || (f.filter_type == subset ? (fmask[j] & ~allow) == 0 : fmask[j] == allow));
		CHECK(cnt == want, "a loop is listed exactly when it matches the filter");
	}
	i = 0;
	for (j = 0; j < nf; j++) i += FO[j].parallel != 0;
	CHECK(i == 0, "the tree is not changed");
	WITNESS();
}
