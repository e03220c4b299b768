/* cloog_options_read on an argument vector of symbolic texts, against a table driven reading of the documentation.
 * exit, fopen, printf, fprintf and vfprintf of options.c are replaced by recorders (-D on the command line). */
#include "vh.h"
#include <limits.h>
#include <stddef.h>
#include <stdarg.h>
#include <cloog/cloog.h>
#undef exit
#undef fopen
#undef printf
#undef fprintf
#undef vfprintf
#undef strtol
enum { BADEXIT = 1, OK };
static int expect, messages, wantmsg, helped, wanthelp, opened_in, opened_out;
static char infile, outfile;
static char TXT[NARG + 1][LEN + 1];
static int exists[NARG + 1];

#ifdef VCBMC
#define STOP() ASSUME(0)
#else
#define STOP() _Exit(0)
#endif
int vx_fprintf(FILE *f, const char *m, ...) { return 0; }
int vx_vfprintf(FILE *f, const char *m, va_list a) { messages++; return 0; }
int vx_printf(const char *m, ...) { helped = 1; return 0; }
void vx_exit(int c)
{
	CHECK(c != 0, "failure is reported in the exit status");
	CHECK(expect == BADEXIT, "an argument vector that is well formed is accepted");
	CHECK(messages > 0 || helped, "a refusal is explained");
	STOP();
}
const char *cloog_version(void) { return ""; }
static int argof(const char *p)
{
	int i;
	for (i = 1; i <= NARG; i++)
		if (p == TXT[i]) return i;
	return 0;
}
FILE *vx_fopen(const char *p, const char *m)
{
	int k = argof(p);
	CHECK(k, "the file opened is one of the arguments");
	if (m[0] == 'r') opened_in = k; else opened_out = k;
	if (!exists[k]) return NULL;
	return (FILE *) (m[0] == 'r' ? &infile : &outfile);
}
/* a decimal number: its value, its end (0: none) */
static long NUMV[NARG + 2];
static int NUME[NARG + 2];
static void scan(int a)
{
	const char *s = TXT[a];
	int i = 0, n = 0, neg = 0;
	long x = 0;
	while (i < LEN && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++;
	if (s[i] == '+' || s[i] == '-') neg = s[i++] == '-';
	for (; i < LEN && s[i] >= '0' && s[i] <= '9'; i++, n++) x = 10 * x + s[i] - '0';
	NUMV[a] = neg ? -x : x;
	NUME[a] = n ? i : 0;
}
static int number(int a, long *v)
{
	*v = NUMV[a];
	return NUME[a] > 0 && TXT[a][NUME[a]] == 0 && *v >= INT_MIN && *v <= INT_MAX;
}
#ifdef VCBMC
long strtol(const char *s, char **e, int base)
{
	int k = argof(s);
	__CPROVER_assert(k && base == 10, "strtol model");
	*e = (char *) s + NUME[k];
	return NUMV[k];
}
int strcmp(const char *a, const char *b)
{
	/* only whether they are equal; one of them is a literal, texts are padded with zeros */
	int i, d = 0;
	for (i = 0; i <= LEN; i++) {
		d |= a[i] != b[i];
		if (!b[i]) break;
	}
	return d;
}
#endif
static int eq(const char *a, const char *b)
{
	int i, d = 0;
	for (i = 0; i <= LEN; i++) {
		d |= a[i] != b[i];
		if (!b[i]) break;
	}
	return !d;
}
#define O(f) offsetof(CloogOptions, f)
static const struct { const char *n; int f; } VAL[] = {	/* options with a value */
	{ "-l", O(l) }, { "-f", O(f) }, { "-stop", O(stop) }, { "-strides", O(strides) }, { "-sh", O(sh) },
	{ "-first-unroll", O(first_unroll) }, { "-otl", O(otl) }, { "-esp", O(esp) }, { "-fsp", O(fsp) }, { "-block", O(block) },
	{ "-compilable", O(compilable) }, { "-callable", O(callable) }, { "-exact-clast-filtering", O(exact_clast_filtering) } };
static const struct { const char *n; int f, v; } FLAG[] = {	/* options without */
	{ "-leaks", O(leaks), 1 }, { "-override", O(override), 1 }, { "-noblocks", O(noblocks), 1 }, { "-noscalars", O(noscalars), 1 },
	{ "-struct", O(structure), 1 }, { "-structure", O(structure), 1 }, { "-q", O(quiet), 1 }, { "--quiet", O(quiet), 1 },
	{ "-nobacktrack", O(backtrack), 0 }, { "-backtrack", O(backtrack), 1 }, { "-bipbip", O(backtrack), 0 }, { "-nosimplify", O(nosimplify), 1 } };
#define NV ((int) (sizeof(VAL) / sizeof(VAL[0])))
#define NF ((int) (sizeof(FLAG) / sizeof(FLAG[0])))
static int vals[NV], setv[NV], flags[NF], setf_[NF];
static struct { int l, f, stop, strides, sh, first_unroll, otl, esp, fsp, block, compilable, callable, exact, leaks, override, noblocks, noscalars, structure, quiet, backtrack, nosimplify; } W = {
	-1, 1, -1, 0, 0, -1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0 };
static int wantin, wantout;
static int *fv(int k)
{
	switch (k) {
	case 0: return &W.l; case 1: return &W.f; case 2: return &W.stop; case 3: return &W.strides; case 4: return &W.sh;
	case 5: return &W.first_unroll; case 6: return &W.otl; case 7: return &W.esp; case 8: return &W.fsp; case 9: return &W.block;
	case 10: return &W.compilable; case 11: return &W.callable; default: return &W.exact;
	}
}
static int *ff(int k)
{
	switch (k) {
	case 0: return &W.leaks; case 1: return &W.override; case 2: return &W.noblocks; case 3: return &W.noscalars; case 4: case 5: return &W.structure;
	case 6: case 7: return &W.quiet; case 8: case 9: case 10: return &W.backtrack; default: return &W.nosimplify;
	}
}
/* the documentation, argument by argument; returns 0 when the vector must be refused */
static int spec(int argc)
{
	int i, k, skip = 0, info = 0;
	long v;
	for (i = 1; i <= NARG; i++) {
		int hit = 0;
		if (skip) { skip = 0; continue; }
		if (i >= argc) break;
		if (TXT[i][0] != '-') {
			if (wantin) return 0;
			wantin = i;
			if (!eq(TXT[i], "stdin") && !exists[i]) return 0;
			continue;
		}
		for (k = 0; k < NV; k++)
			if (eq(TXT[i], VAL[k].n)) {
				if (i + 1 >= argc || !number(i + 1, &v)) return 0;
				*fv(k) = v;
				hit = skip = 1;
			}
		for (k = 0; k < NF; k++)
			if (eq(TXT[i], FLAG[k].n)) {
				*ff(k) = FLAG[k].v;
				hit = 1;
			}
		if (eq(TXT[i], "-loopo")) { W.esp = 0; W.block = 1; hit = 1; }
		if (eq(TXT[i], "-openscop")) return 0;	/* not compiled in */
		if (eq(TXT[i], "-h") || eq(TXT[i], "--help") || eq(TXT[i], "-v") || eq(TXT[i], "--version")) hit = wanthelp = 1;
		if (eq(TXT[i], "-o")) {
			if (i + 1 >= argc) return 0;
			wantout = i + 1;
			if (!eq(TXT[i + 1], "stdout") && !exists[i + 1]) return 0;
			hit = skip = 1;
		}
		if (!hit && !W.quiet) wantmsg++;
	}
	return wantin != 0;
}
void harness(void)
{
	char *argv[NARG + 2];
	FILE *in = NULL, *out = NULL;
	CloogOptions *o = NULL;
	int i, j, argc = ARGC;
	argv[0] = "cloog";
	for (i = 1; i <= NARG; i++) {
		const char *fixed = FIX(i);
		int end = 0;
		for (j = 0; j < LEN; j++) {
			char c = fixed ? (end ? 0 : fixed[j]) : j < LENOF(i) ? (char) nd(0, 127) : 0;
			if (end) ASSUME(!c);
			end |= !c;
			TXT[i][j] = c;
		}
		TXT[i][LEN] = 0;
		ASSUME(fixed || TXT[i][0]);	/* the empty argument: see FIX */
		exists[i] = nd(0, 1);
		argv[i] = TXT[i];
		scan(i);
	}
	argv[NARG + 1] = NULL;
	expect = spec(argc) ? OK : BADEXIT;
	cloog_options_read((CloogState *) 0, argc, argv, &in, &out, &o);
	CHECK(expect == OK, "a malformed argument vector is refused");
	CHECK(messages == wantmsg, "an unknown option is reported, nothing else is");
	CHECK(o->l == W.l && o->f == W.f && o->stop == W.stop && o->strides == W.strides && o->sh == W.sh && o->first_unroll == W.first_unroll,
		"loop generation options have the values given, the others their defaults");
	CHECK(o->otl == W.otl && o->esp == W.esp && o->fsp == W.fsp && o->block == W.block && o->compilable == W.compilable && o->callable == W.callable
		&& o->exact_clast_filtering == W.exact, "printing options have the values given, the others their defaults");
	CHECK(o->leaks == W.leaks && o->override == W.override && o->noblocks == W.noblocks && o->noscalars == W.noscalars && o->structure == W.structure
		&& o->quiet == W.quiet && o->backtrack == W.backtrack && o->nosimplify == W.nosimplify, "flags are set exactly when they are given");
	CHECK(o->language == CLOOG_LANGUAGE_C && !o->ls && !o->fs && o->fs_ls_size == 0 && !o->openscop && !o->scop && !o->save_domains, "nothing else is changed");
	CHECK(o->name == TXT[wantin], "the input is the argument that is not an option");
	if (eq(TXT[wantin], "stdin")) CHECK(in == stdin, "stdin is the standard input");
	else CHECK(in == (FILE *) &infile && opened_in == wantin, "the input file is opened for reading");
	if (!wantout || eq(TXT[wantout], "stdout")) CHECK(out == stdout, "the standard output is the default");
	else CHECK(out == (FILE *) &outfile && opened_out == wantout, "the output file is opened for writing");
	WITNESS();
}
