/* cloog_names_read_strings on every text of up to TN characters. */
#include "vh.h"
#include <cloog/cloog.h>
#include "stdio_model.h"
static int expect_die;
#ifdef VCBMC
#define STOP() ASSUME(0)
#else
#define STOP() _Exit(0)
#endif
void cloog_die(const char *m, ...)
{
	CHECK(expect_die, "names that follow the format are accepted");
	STOP();
}
static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
/* the format: an integer on a line of its own (other lines are skipped), then, if it is not zero, the names on the next
 * line that is neither blank nor a comment.  Returns 0 to refuse, 1 without names, 2 with names (start and length) */
static int st[3], ln[3];
static int lend(int p) { int q = p; while (TXT[q] && TXT[q] != '\n') q++; return q; }
static int spec(int n)
{
	int p = 0, q, i, v = 0, any, found = 0, k;
	for (k = 0; k <= TN; k++) {	/* lines */
		if (found || !TXT[p]) continue;
		q = lend(p);
		i = p;
		if (TXT[p] != '#' && TXT[p] != '\n') {
			while (i < q && sp(TXT[i])) i++;
			any = 0;
			v = 0;
			if (TXT[i] == '-' || TXT[i] == '+') i++;
			while (TXT[i] >= '0' && TXT[i] <= '9') { v |= TXT[i] != '0'; any = 1; i++; }
			found = any;
		}
		p = TXT[q] ? q + 1 : q;
	}
	if (!found) return 0;
	if (n == 0 || !v) return 1;
	found = 0;
	for (k = 0; k <= TN; k++) {
		if (found || !TXT[p]) continue;
		q = lend(p);
		i = p;
		while (i < q && sp(TXT[i])) i++;
		if (TXT[i] != '#' && TXT[i] != '\n') {
			/* a line of blanks at the end of the text has no line end */
			found = 1;
			break;
		}
		p = TXT[q] ? q + 1 : q;
	}
	if (!found) return 0;
	for (k = 0; k < n; k++) {
		while (i < q && sp(TXT[i])) i++;
		if (i >= q || TXT[i] == '#') return 0;
		st[k] = i;
		while (i < q && !sp(TXT[i])) i++;
		ln[k] = i - st[k];
	}
	return 2;
}
void harness(void)
{
	int r, i, k;
	symtext();
	r = spec(NITEMS);
	expect_die = r == 0;
	char **names = cloog_names_read_strings(INFILE, NITEMS);
	CHECK(r != 0, "names that do not follow the format are refused");
	CHECK((names != NULL) == (r == 2), "names are read exactly when they are announced");
	if (r == 2)
		for (k = 0; k < NITEMS; k++) {
			for (i = 0; i < TN; i++)
				if (i < ln[k]) CHECK(names[k][i] == TXT[st[k] + i], "each name is the word of the text");
			CHECK(names[k][ln[k]] == 0, "each name is the whole word");
		}
	WITNESS();
}
