"""Bounds and guards denote their constraints: CBMC on clast_bound_from_constraint, translation validation of single-constraint nests."""
import itertools, random
from vlib import cb, suites, tvrun, gen
LEVEL = 'other'
UNRES = ['-Wl,--unresolved-symbols=ignore-all']


def harnesses(th):
    hs = []
    dim = 3
    k = 0
    for sg in itertools.product((0, 1, -1), repeat=dim):      # the other variables and the constant
        for level in (1, 2, 3):
            for a in (1, -1, 2, -2, 3, -3, 5, -5, 7, -8, 12, -12):
                k += 1
                if not th and k % 9 and any(sg[:-1]):
                    continue
                sgs = list(sg[:level - 1]) + [1 if a > 0 else -1] + list(sg[level - 1:])
                for eq in (0, 1):
                    n = 'c05_%s_%d_%d_%d' % (''.join('0+-'[x] for x in sgs), level, a, eq)
                    r, x = (12, 7) if th else (7, 3)
                    hs.append(cb.H(n, 'c05.c', ['clast.c', 'int.c'],
                                   ['-DSTUB_GMP', '-DVK=4', '-DVQ=9', '-DDIM=%d' % dim, '-DSIGNS=' + ','.join(map(str, sgs)), '-DLEVEL=%d' % level, '-DA=%d' % a, '-DEQ=%d' % eq,
                                    '-DR=%d' % r, '-DX=%d' % x],
                                   unwind=8, nd=32, timeout=900 if th else 100, native_extra=UNRES, flags=['--object-bits', '10', '--no-standard-checks'],
                                   solver=['--sat-solver', 'cadical'], functions=['clast_bound_from_constraint', 'new_clast_*'],
                                   bounds='%d variables, coefficient of the bounded variable %d, others and constant in [-%d,%d], variable values in [-%d,%d]' % (dim, a, r, r, x, x)))
    return hs


def nest(rng):
    """A box with one or two constraints of random coefficients: they become bounds, guards, assignments or modulo guards."""
    P = ['M', 'N']
    d = rng.choice((1, 2, 2, 3))
    cs = []
    for q in range(d):
        n = gen.IT[q]
        cs += ['%s>=%s' % (n, rng.choice(('-M', '0', 'M-9', '-20'))), '%s<=%s' % (n, rng.choice(('N', '20', 'M+N')))]

    def co():
        return rng.choice((0, 0, 1, -1, 2, -2, 3, -3, 4, -5, 6, 7, -8, 10, -12))
    for _ in range(rng.choice((1, 1, 2))):
        lo = rng.choice((0, 0, d))         # d: only parameters (a guard)
        t = ''.join('%+d*%s' % (c, v) for v in gen.IT[lo:d] + P for c in (co(),) if c)
        if not t:
            continue
        t += '%+d' % rng.choice((0, 1, -1, 2, -3, 5, -7, 11, -20))
        cs.append(t.lstrip('+') + rng.choice(('>=0', '>=0', '>=0', '=0')))
    if rng.random() < .25:
        c = rng.choice((2, 3, 4, 6))
        t = ''.join('%+d*%s' % (x, v) for v in gen.IT[:d] + P for x in (co(),) if x) or '+1*M'
        cs.append('%d*e0=%s%+d' % (c, t.lstrip('+'), rng.randint(-3, 5)))
        return gen.problem(P, [(d, 'E e0:' + ';'.join(cs))], ctx=rng.choice(('', 'N>=0')))
    return gen.problem(P, [(d, ';'.join(cs))], ctx=rng.choice(('', '', 'N>=0', 'M>=1')))


def run(ck, tier):
    th = tier == 'thorough'
    cases = []
    for k in range(3000 if th else 320):
        o = ([], ['-otl', '0'], ['-esp', '0'], ['-strides', '1'], ['-f', '-1'], ['-esp', '0', '-otl', '0'])[k % 6]
        cases.append(tvrun.Case('cons_%d_%d' % (ck.seed, k), nest(random.Random('cons/%d/%d' % (ck.seed, k))), opts=o, kinds=suites.COVER, order='full', budget=10))
    tvrun.run_cases(ck, cases, 2500 if th else 60)
    ck.assumptions += suites.TV_ASSUME
    cb.check(ck, harnesses(th), jobs=8)
    ck.assumptions += ['the constraint interface is as documented (stub in cb/c05.c)', 'gmp behaves as documented (stub)', 'malloc does not fail']
    ck.cov['explanation'] = 'clast_bound_from_constraint encoded from source/clast.c; coefficients and variable values symbolic'
