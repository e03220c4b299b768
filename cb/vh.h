/* Shared by all harnesses: symbolic values under CBMC, recorded ones in a native replay. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef VCBMC
int nondet_int(void);
int ND[VH_ND];
int ndn;
#define SX(x, k) ((int) ((unsigned) (x) << (32 - (k))) >> (32 - (k)))	/* keep k bits: the rest repeats the sign */
static inline int nd_(int lo, int hi)
{
	int x = nondet_int();
	if (lo >= -2 && hi < 2) x = SX(x, 2);
	else if (lo >= -4 && hi < 4) x = SX(x, 3);
	else if (lo >= -8 && hi < 8) x = SX(x, 4);
	else if (lo >= -16 && hi < 16) x = SX(x, 5);
	else if (lo >= -32 && hi < 32) x = SX(x, 6);
	else if (lo >= -64 && hi < 64) x = SX(x, 7);
	else if (lo >= -128 && hi < 128) x = SX(x, 8);
	else if (lo >= -1024 && hi < 1024) x = SX(x, 11);
	else if (lo >= -32768 && hi < 32768) x = SX(x, 16);
	ND[ndn++] = x;
	return x;
}
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, m) __CPROVER_assert(c, "CHECK " m)
#define WITNESS() __CPROVER_assert(0, "WITNESS reached")
#else
static int *ND, ndn, ndmax;
static inline int nd_(int lo, int hi) { return ndn < ndmax ? ND[ndn++] : 0; }
#define ASSUME(c) do { if (!(c)) { fprintf(stderr, "assumption not met: %s\n", #c); _Exit(77); } } while (0)
#define CHECK(c, m) do { if (!(c)) { fprintf(stderr, "CHECK failed: %s\n", m); fflush(0); _Exit(99); } } while (0)
#define WITNESS() do {} while (0)
void harness(void);
int main(int argc, char **argv)
{
	ndmax = argc - 1;
	ND = (int *) malloc(sizeof(int) * (ndmax + 1));
	for (int i = 0; i < ndmax; i++) ND[i] = atoi(argv[i + 1]);
	harness();
	return 0;
}
#endif
#if defined(VCBMC) && defined(STUB_GMP)
#include <gmp.h>
#define MUL(a, b) vmul(a, b)
#define FDIV(a, b) vfdiv(a, b)
#define MOD(a, b) ((a) - vmul(vfdiv(a, b), b))
#else
#define MUL(a, b) ((a) * (b))
#define FDIV(a, b) (((a) - ((a) % (b) + (b)) % (b)) / (b))
#define MOD(a, b) (((a) % (b) + (b)) % (b))
#endif
static inline int nd(int lo, int hi) { int x = nd_(lo, hi); ASSUME(x >= lo && x <= hi); return x; }
#endif
