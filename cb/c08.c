/* The helper macros that the real program prints (preamble.h is cut out of its output). */
#include "vh.h"
#undef min
#undef max
#include "preamble.h"
void harness(void)
{
	int n = nd(-(R), R), x = nd(-(R), R), y = nd(-(R), R), r, c;
	long long q;
#ifdef D
	int d = D;
#else
	int d = nd(1, R);
#endif
#if OP == 0
	r = floord(n, d);
	q = (long long) r * d;
	CHECK(q <= n && n < q + d, "floord is the floor of the quotient");
	c = ceild(n, d);
	q = (long long) c * d;
	CHECK(q >= n && n > q - d, "ceild is the ceiling of the quotient");
#elif OP == 1
	r = max(x, y);
	c = min(x, y);
	CHECK(r >= x && r >= y && (r == x || r == y), "max is the maximum");
	CHECK(c <= x && c <= y && (c == x || c == y), "min is the minimum");
	CHECK(max(x, y) - min(x, y) == (x < y ? y - x : x - y), "max and min are used inside expressions");
	CHECK(-max(x, -y) == min(-x, y), "operands with a sign");
	CHECK(2 * max(x, y + n) == (x > y + n ? 2 * x : 2 * y + 2 * n), "operands that are sums");
	CHECK(max(min(x, y), n) == (x < y ? (x < n ? n : x) : (y < n ? n : y)), "nested");
	CHECK(min(x, max(y, n)) == (y < n ? (x < n ? x : n) : (x < y ? x : y)), "nested");
	CHECK(max(x & 3, y & 3) <= 3 && min(x ? y : n, n) <= n, "operands with weaker operators");
#else
	/* operands and contexts as the generator prints them */
	int s = n + x, t = n - x, u = -n;
	CHECK(floord(n + x, d) == floord(s, d) && ceild(n + x, d) == ceild(s, d), "operands that are sums");
	CHECK(floord(n - x, d) == floord(t, d) && ceild(n - x, d) == ceild(t, d), "operands that are differences");
	CHECK(floord(-n, d) == floord(u, d) && ceild(-n, d) == ceild(u, d), "operands with a sign");
	r = floord(n, d);
	c = ceild(n, d);
	CHECK(2 * floord(n, d) + 1 == r + r + 1 && -floord(n, d) == 0 - r && x - floord(n, d) == x - r, "results inside expressions");
	CHECK(2 * ceild(n, d) - 1 == c + c - 1 && -ceild(n, d) == 0 - c && x - ceild(n, d) == x - c, "results inside expressions");
	CHECK(max(floord(n, d), ceild(x, d)) >= r && min(ceild(n, d), floord(x, d)) <= c, "divisions inside minima and maxima");
#endif
	WITNESS();
}
