/* Syntax trees and their printed form.
 *   tree FILE build LANG      FILE holds trees as s-expressions, one per line; build each with new_clast_* and print it
 *   tree FILE gen opts...     generate from a .cloog FILE; print the tree as an s-expression, a line =====, and its printed form
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <cloog/isl/cloog.h>

static void die(const char *s) { fprintf(stderr, "tree: %s\n", s); exit(3); }

/* ------------------------------------------------------------- building */
static char *P;
static char tok[4096];
static char *next(void)
{
	int n = 0;
	while (*P == ' ') P++;
	if (*P == '(' || *P == ')') { tok[0] = *P++; tok[1] = 0; return tok; }
	while (*P && *P != ' ' && *P != '(' && *P != ')' && *P != '\n') tok[n++] = *P++;
	tok[n] = 0;
	if (!n) die("description");
	return tok;
}
static int peek(int c) { while (*P == ' ') P++; return *P == c; }
static void want(const char *s) { if (strcmp(next(), s)) die(tok); }
static void num(cloog_int_t *v) { cloog_int_init(*v); cloog_int_read(*v, next()); }

static struct clast_expr *expr(void)
{
	char k;
	cloog_int_t v;
	struct clast_expr *e;

	if (peek('_')) { next(); return NULL; }
	want("(");
	k = *next();
	if (k == 'n') {
		e = &new_clast_name(strdup(next()))->expr;
	} else if (k == 't') {
		num(&v);
		e = &new_clast_term(v, expr())->expr;
		cloog_int_clear(v);
	} else if (k == 's' || k == 'm' || k == 'M') {
		struct clast_expr *el[64];
		struct clast_reduction *r;
		int n = 0, i;
		while (!peek(')')) el[n++] = expr();
		r = new_clast_reduction(k == 's' ? clast_red_sum : k == 'm' ? clast_red_min : clast_red_max, n);
		for (i = 0; i < n; i++) r->elts[i] = el[i];
		e = &r->expr;
	} else {
		struct clast_expr *l = expr();
		num(&v);
		e = &new_clast_binary(k == 'f' ? clast_bin_fdiv : k == 'c' ? clast_bin_cdiv : k == 'd' ? clast_bin_div : clast_bin_mod, l, v)->expr;
		cloog_int_clear(v);
	}
	want(")");
	return e;
}

static CloogDomain *dom;
static CloogState *st;

static struct clast_stmt *list(void)
{
	struct clast_stmt *head = NULL, **end = &head;
	want("(");
	while (!peek(')')) {
		char k[64];
		want("(");
		strcpy(k, next());
		if (!strcmp(k, "for")) {
			char *it = strdup(next());
			struct clast_expr *lb = expr(), *ub = expr();
			struct clast_for *f = new_clast_for(dom, it, lb, ub, NULL);
			cloog_int_clear(f->stride);
			num(&f->stride);
			f->parallel = atoi(next());
			f->body = list();
			*end = &f->stmt;
		} else if (!strcmp(k, "if")) {
			struct clast_equation q[16];
			struct clast_guard *g;
			int n = 0, i;
			want("(");
			while (!peek(')')) {
				want("(");
				q[n].sign = atoi(next());
				q[n].LHS = expr();
				q[n++].RHS = expr();
				want(")");
			}
			want(")");
			g = new_clast_guard(n);
			for (i = 0; i < n; i++) g->eq[i] = q[i];
			g->then = list();
			*end = &g->stmt;
		} else if (!strcmp(k, "=")) {
			char *l = strdup(next());
			*end = &new_clast_assignment(l, expr())->stmt;
		} else if (!strcmp(k, "b")) {
			struct clast_block *b = new_clast_block();
			b->body = list();
			*end = &b->stmt;
		} else {
			CloogStatement *s = cloog_statement_alloc(st, atoi(next()));
			struct clast_stmt *subs = NULL, **se = &subs;
			while (!peek(')')) {
				*se = &new_clast_assignment(NULL, expr())->stmt;
				se = &(*se)->next;
			}
			*end = &new_clast_user_stmt(dom, s, subs)->stmt;
			cloog_statement_free(s);
		}
		want(")");
		end = &(*end)->next;
	}
	want(")");
	return head;
}

/* -------------------------------------------------------------- dumping */
static void dx(struct clast_expr *e)
{
	int i;
	if (!e) { printf("_"); return; }
	if (e->type == clast_expr_name) printf("(n %s)", ((struct clast_name *) e)->name);
	else if (e->type == clast_expr_term) {
		printf("(t ");
		cloog_int_print(stdout, ((struct clast_term *) e)->val);
		printf(" ");
		dx(((struct clast_term *) e)->var);
		printf(")");
	} else if (e->type == clast_expr_red) {
		struct clast_reduction *r = (struct clast_reduction *) e;
		printf("(%s", r->type == clast_red_sum ? "s" : r->type == clast_red_min ? "m" : "M");
		for (i = 0; i < r->n; i++) { printf(" "); dx(r->elts[i]); }
		printf(")");
	} else {
		struct clast_binary *b = (struct clast_binary *) e;
		printf("(%s ", b->type == clast_bin_fdiv ? "f" : b->type == clast_bin_cdiv ? "c" : b->type == clast_bin_div ? "d" : "o");
		dx(b->LHS);
		printf(" ");
		cloog_int_print(stdout, b->RHS);
		printf(")");
	}
}

static void ds(struct clast_stmt *s)
{
	int i;
	printf("(");
	for (; s; s = s->next) {
		if (CLAST_STMT_IS_A(s, stmt_for)) {
			struct clast_for *f = (struct clast_for *) s;
			printf("(for %s ", f->iterator); dx(f->LB); printf(" "); dx(f->UB); printf(" ");
			cloog_int_print(stdout, f->stride);
			printf(" %d ", f->parallel);
			ds(f->body);
			printf(")");
		} else if (CLAST_STMT_IS_A(s, stmt_guard)) {
			struct clast_guard *g = (struct clast_guard *) s;
			printf("(if (");
			for (i = 0; i < g->n; i++) { printf("(%d ", g->eq[i].sign); dx(g->eq[i].LHS); printf(" "); dx(g->eq[i].RHS); printf(")"); }
			printf(") ");
			ds(g->then);
			printf(")");
		} else if (CLAST_STMT_IS_A(s, stmt_block)) {
			printf("(b "); ds(((struct clast_block *) s)->body); printf(")");
		} else if (CLAST_STMT_IS_A(s, stmt_ass)) {
			printf("(= %s ", ((struct clast_assignment *) s)->LHS); dx(((struct clast_assignment *) s)->RHS); printf(")");
		} else if (CLAST_STMT_IS_A(s, stmt_user)) {
			struct clast_user_stmt *u = (struct clast_user_stmt *) s;
			struct clast_stmt *t;
			printf("(u %d", u->statement->number);
			for (t = u->substitutions; t; t = t->next) { printf(" "); dx(((struct clast_assignment *) t)->RHS); }
			printf(")");
		}
	}
	printf(")");
}

int main(int argc, char **argv)
{
	CloogOptions *o;
	static char line[1 << 20];

	st = cloog_state_malloc();
	if (!strcmp(argv[2], "build")) {
		FILE *f = fopen(argv[1], "r");
		o = cloog_options_malloc(st);
		o->language = argv[3][0] == 'f' ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C;
		dom = cloog_domain_universe(st, 1);
		while (fgets(line, sizeof line, f)) {
			struct clast_stmt *s;
			CloogNames *nm = cloog_names_alloc();
			P = line;
			s = &new_clast_root(nm)->stmt;
			s->next = list();
			printf("=====\n");
			clast_pprint(stdout, s, 0, o);
			fflush(stdout);
			cloog_clast_free(s);
			cloog_names_free(nm);
		}
	} else {
		FILE *in, *out;
		char *a[64];
		int i, n = 0;
		CloogProgram *p;
		struct clast_stmt *s;
		a[n++] = "cloog"; a[n++] = argv[1];
		for (i = 3; i < argc; i++) a[n++] = argv[i];
		cloog_options_read(st, n, a, &in, &out, &o);
		p = cloog_program_read(in, o);
		p = cloog_program_generate(p, o);
		s = cloog_clast_create(p, o);
		ds(s);
		printf("\n=====\n");
		clast_pprint(stdout, s, 0, o);
		printf("=====\n");
	}
	return 0;
}
