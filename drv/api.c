/* Drives the library interface on real inputs.
 *   api FILE @dump[2]  opts   read FILE, dump the input, read the dump back, generate from it
 *   api FILE @prog     opts   read FILE into a program, dump the program before generation, read back, generate
 *   api FILE @show     opts   print the dump itself
 *   api FILE @build:K  opts   FILE describes several inputs; build each through the interface in one state, print the K-th
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <cloog/isl/cloog.h>

static void die(const char *s) { fprintf(stderr, "api: %s\n", s); exit(3); }

static void finish(CloogState *st, CloogOptions *o)
{
	int bad = st->domain_allocated != st->domain_freed || st->loop_allocated != st->loop_freed ||
	    st->statement_allocated != st->statement_freed || st->block_allocated != st->block_freed;
	cloog_options_free(o);
	cloog_state_free(st);
	if (bad)
		die("objects were not released");
}

static void generate(FILE *out, CloogDomain *ctx, CloogUnionDomain *ud, CloogOptions *o)
{
	CloogProgram *p = cloog_program_alloc(ctx, ud, o);
	p = cloog_program_generate(p, o);
	cloog_program_pprint(out, p, o);
	cloog_program_free(p);
}

/* ------------------------------------------------------------------ dump */

static int dump(int argc, char **argv, const char *mode)
{
	CloogState *st = cloog_state_malloc();
	CloogOptions *o;
	FILE *in, *out, *t = tmpfile();
	CloogInput *inp;

	cloog_options_read(st, argc, argv, &in, &out, &o);
	inp = cloog_input_read(in, o);
	fclose(in);
	if (!strcmp(mode, "@prog")) {
		CloogProgram *p = cloog_program_alloc(inp->context, inp->ud, o);
		free(inp);
		cloog_program_dump_cloog(t, p, NULL);
		cloog_program_free(p);
	} else {
		cloog_input_dump_cloog(strcmp(mode, "@show") ? t : out, inp, o);
		cloog_input_free(inp);
		if (!strcmp(mode, "@show"))
			return 0;
	}
	if (!strcmp(mode, "@dump2")) {
		finish(st, o);
		st = cloog_state_malloc();
		cloog_options_read(st, argc, argv, &in, &out, &o);
		fclose(in);
	}
	fflush(t);
	rewind(t);
	inp = cloog_input_read(t, o);
	generate(out, inp->context, inp->ud, o);
	free(inp);
	fflush(out);
	finish(st, o);
	return 0;
}

/* ----------------------------------------------------------------- build */

static char W[1 << 16];
static FILE *F;
static char *word(void) { if (fscanf(F, "%65535s", W) != 1) die("description: word"); return W; }
static long num(void) { return strtol(word(), NULL, 10); }
static char *text(void)
{
	char *p;
	do {
		if (!fgets(W, sizeof W, F)) die("description: text");
		for (p = W; *p == ' ' || *p == '\n'; p++);
	} while (!*p);
	return p;
}

static CloogMatrix *matrix(CloogState *st)
{
	int i, j, r = num(), c = num();
	CloogMatrix *m = cloog_matrix_alloc(r, c);
	for (i = 0; i < r; i++)
		for (j = 0; j < c; j++)
			cloog_int_set_si(m->p[i][j], num());
	return m;
}

static CloogDomain *domain(CloogState *st, char kind, int np)
{
	CloogDomain *d = NULL;
	int n, i;
	if (kind != 'm')
		return cloog_domain_from_isl_set(isl_set_read_from_str(st->backend->ctx, text()));
	n = num();
	for (i = 0; i < n; i++) {
		CloogMatrix *m = matrix(st);
		CloogDomain *e = cloog_domain_from_cloog_matrix(st, m, np);
		cloog_matrix_free(m);
		d = d ? cloog_domain_union(d, e) : e;
	}
	return d;
}

static int nst, seen[64];

static void walk(struct clast_stmt *s)
{
	for (; s; s = s->next) {
		if (CLAST_STMT_IS_A(s, stmt_for)) walk(((struct clast_for *) s)->body);
		else if (CLAST_STMT_IS_A(s, stmt_guard)) walk(((struct clast_guard *) s)->then);
		else if (CLAST_STMT_IS_A(s, stmt_block)) walk(((struct clast_block *) s)->body);
		else if (CLAST_STMT_IS_A(s, stmt_user)) {
			CloogStatement *t = ((struct clast_user_stmt *) s)->statement;
			for (; t; t = t->next) {
				if (t->number < 1 || t->number > nst) die("a statement of the tree has no number of the input");
				if ((long) t->usr != 1000 + t->number) die("a statement of the tree lost the user's pointer");
			}
		}
	}
}

static int build(int argc, char **argv, int want)
{
	CloogState *st = cloog_state_malloc();
	CloogOptions *o;
	FILE *in, *out;
	int n, k, i;

	cloog_options_read(st, argc, argv, &in, &out, &o);
	F = in;
	n = num();
	for (k = 0; k < n; k++) {
		char lang = *word(), kind, how;
		int np;
		CloogDomain *ctx;
		CloogUnionDomain *ud;
		CloogOptions *q = o;
		int own, *fs = NULL;

		kind = *word();		/* m matrices, i isl sets and maps, u union map, s one set */
		how = *word();		/* c tree from input, p program, t tree from program */
		own = num();		/* own options for this input, with per-statement depths */
		if (own) {
			q = cloog_options_malloc(st);
			q->quiet = o->quiet;
		}
		q->language = lang == 'f' ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C;
		np = num();
		ctx = domain(st, kind, np);
		if (kind == 'u') {
			ud = cloog_union_domain_from_isl_union_map(isl_union_map_read_from_str(st->backend->ctx, text()));
			for (i = num(); i > 0; i--)
				num(), num();
			nst = 0;
		} else if (kind == 's') {
			ud = cloog_union_domain_from_isl_set(isl_set_read_from_str(st->backend->ctx, text()));
			for (i = num(); i > 0; i--)
				num(), num();
			nst = 0;
		} else {
			int hasp = num(), hasi, hass;
			char *pn[64];
			ud = cloog_union_domain_alloc(np);
			for (i = 0; i < hasp * np; i++)
				pn[i] = strdup(word());
			if (hasp == 1)
				for (i = np - 1; i >= 0; i--)
					ud = cloog_union_domain_set_name(ud, CLOOG_PARAM, i, pn[i]), free(pn[i]);
			nst = num();
			for (i = 0; i < nst; i++) {
				char *name = strdup(word());
				int ns = num();
				CloogDomain *d = domain(st, kind, np);
				CloogScattering *s = NULL;
				if (ns >= 0 && kind == 'm') {
					CloogMatrix *m = matrix(st);
					s = cloog_scattering_from_cloog_matrix(st, m, ns, np);
					cloog_matrix_free(m);
				} else if (ns >= 0)
					s = cloog_scattering_from_isl_map(isl_map_read_from_str(st->backend->ctx, text()));
				ud = cloog_union_domain_add_domain(ud, *name == '-' ? NULL : name, d, s, (void *) (1000L + i + 1));
				free(name);
			}
			hasi = num();
			for (i = 0; i < hasi; i++)
				ud = cloog_union_domain_set_name(ud, CLOOG_ITER, i, word());
			hass = num();
			for (i = 0; i < hass; i++)
				ud = cloog_union_domain_set_name(ud, CLOOG_SCAT, i, word());
			if (own) {
				q->fs = malloc((nst + 1) * sizeof(int));
				q->ls = malloc((nst + 1) * sizeof(int));
				q->fs_ls_size = nst;
			}
			for (i = 0; i < nst; i++) {
				int f = num(), l = num();
				if (own)
					q->fs[i] = f, q->ls[i] = l;
			}
		}
		FILE *to = k == want ? out : fopen("/dev/null", "w");
		if (how == 'c') {
			CloogInput *inp = cloog_input_alloc(ctx, ud);
			struct clast_stmt *root = cloog_clast_create_from_input(inp, q);
			if (nst) walk(root);
			clast_pprint(to, root, 0, q);
			cloog_clast_free(root);
		} else if (how == 't') {
			CloogProgram *p = cloog_program_alloc(ctx, ud, q);
			struct clast_stmt *root;
			p = cloog_program_generate(p, q);
			root = cloog_clast_create(p, q);
			if (nst) walk(root);
			clast_pprint(to, root, 0, q);
			cloog_clast_free(root);
			cloog_program_free(p);
		} else
			generate(to, ctx, ud, q);
		if (to != out) fclose(to);
		if (own)
			cloog_options_free(q);
	}
	fflush(out);
	finish(st, o);
	return 0;
}

int main(int argc, char **argv)
{
	char *mode = argv[2];
	char *a[64];
	int i, n = 0;

	a[n++] = "cloog";
	a[n++] = argv[1];
	for (i = 3; i < argc; i++)
		a[n++] = argv[i];
	if (!strncmp(mode, "@build:", 7))
		return build(n, a, atoi(mode + 7));
	return dump(n, a, mode);
}
