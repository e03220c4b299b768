/* A text of at most TN symbolic characters as the input file; fgets and sscanf as the C standard defines them
 * (the directives CLooG uses).  Natively the text is a real file and the real functions are used. */
#include <stdarg.h>
#ifndef ALPHA
#define ALPHA " #01ab-"
#endif
static char TXT[TN + 1];
static int tpos;
/* LINES: the lengths of the lines (concrete); the last one has a line end if LASTNL */
static const int LL[] = { LINES };
#define NL ((int) (sizeof(LL) / sizeof(LL[0])))
static void symtext(void)
{
	int i, j, n = 0;
	for (j = 0; j < NL; j++) {
		for (i = 0; i < LL[j]; i++) TXT[n++] = ALPHA[nd(0, sizeof(ALPHA) - 2)];
		if (j < NL - 1 || LASTNL) TXT[n++] = '\n';
	}
}
static int tline;
#ifdef VCBMC
#define INFILE ((FILE *) 0)
char *fgets(char *s, int n, FILE *f)
{
	int i, n;
	if (tline >= NL || (LL[tline] == 0 && tline == NL - 1 && !LASTNL)) return NULL;
	n = LL[tline] + (tline < NL - 1 || LASTNL);
	for (i = 0; i < n; i++) s[i] = TXT[tpos + i];
	s[n] = 0;
	tpos += n;
	tline++;
	return s;
}
int isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= 48 && c <= 57; }
char *strdup(const char *s)
{
	char *r = malloc(TN + 1);
	int i;
	for (i = 0; i < TN && s[i]; i++) r[i] = s[i];
	r[i] = 0;
	return r;
}
int sscanf(const char *s, const char *f, ...)
{
	va_list ap;
	int i = 0, k, got = 0;
	va_start(ap, f);
	for (k = 0; f[k]; k++) {
		if (f[k] == ' ') {
			while (isspace(s[i])) i++;
			continue;
		}
		k++;	/* f[k-1] is a percent sign */
		if (f[k] == 'n') { *va_arg(ap, int *) = i; continue; }
		if (f[k] == 'c') {
			if (!s[i]) return got ? got : -1;
			*va_arg(ap, char *) = s[i++];
			got++;
			continue;
		}
		while (isspace(s[i])) i++;
		if (!s[i]) return got ? got : -1;
		if (f[k] == 's') {
			char *d = va_arg(ap, char *);
			int j = 0;
			while (s[i] && !isspace(s[i])) d[j++] = s[i++];
			d[j] = 0;
			got++;
		} else {
			int neg = 0, v = 0, any = 0;
			if (s[i] == '-' || s[i] == '+') neg = s[i++] == '-';
			while (s[i] >= '0' && s[i] <= '9') { v = v * 10 + s[i++] - '0'; any = 1; }
			if (!any) return got;
			*va_arg(ap, int *) = neg ? -v : v;
			got++;
		}
	}
	va_end(ap);
	return got;
}
#else
static FILE *txtfile(void)
{
	FILE *f = tmpfile();
	fputs(TXT, f);
	rewind(f);
	return f;
}
#define INFILE txtfile()
#endif
