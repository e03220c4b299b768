"""Constant schedule dimensions and statement blocks."""
import random
from vlib import suites, tvrun, gen
LEVEL = 'translation_validation'


def scalar_problem(rng):
    """Statements whose schedules mix constant and varying dimensions, often
    with equal domains so that blocks can form."""
    P = ['M', 'N'][:rng.choice((0, 1, 2))]
    d = rng.choice((1, 2, 2))
    nst = rng.choice((2, 2, 3, 3, 4))
    hi = P[0] if P else '5'
    hi2 = P[-1] if P else '7'

    def dom(dd):
        cs = []
        for q in range(dd):
            n = gen.IT[q]
            cs.append('%s>=%s' % (n, rng.choice(['0', '1', '-1'] + gen.IT[:q])))
            cs.append('%s<=%s' % (n, rng.choice([hi, hi2, hi + '+2'])))
        return ';'.join(cs)
    base = [dom(d) for _ in range(2)]
    ns = rng.choice((d + 1, 2 * d + 1, 2 * d + 2))
    pat = [rng.random() < .5 for _ in range(ns)]      # scalar dimension in most statements
    if all(not x for x in pat):
        pat[-1] = True
    stm, sc = [], []
    consts = rng.choice(((0, 1), (0, 1, 2), (-3, 0, 5), (1,), (-1, 0, 1, 10)))
    perm0 = rng.sample(range(d), d)
    for k in range(nst):
        dd = d if rng.random() < .85 else max(0, d - 1)
        stm.append((dd, rng.choice(base) if dd == d else dom(dd)))
        cs, it = [], list(perm0 if rng.random() < .8 else rng.sample(range(d), d))
        it = [x for x in it if x < dd]
        for q in range(ns):
            if pat[q] and rng.random() < .9 or not it:
                cs.append('c%d=%d' % (q + 1, rng.choice(consts)))
            else:
                v = gen.IT[it.pop(0)]
                cs.append('c%d=%s%s' % (q + 1, v, rng.choice(('', '', '', '+1', '-2'))))
        sc.append(';'.join(cs))
    return gen.problem(P, stm, scats=sc, ns=ns, ctx='' if rng.random() < .6 or not P else '%s>=1' % P[0])


OPTS = ([], ['-noscalars'], ['-noblocks'], ['-noscalars', '-noblocks'], ['-block', '1'], ['-strides', '1'],
        ['-f', '2'], ['-l', '1'], ['-f', '-1'], ['-first-unroll', '1'], ['-esp', '0', '-otl', '0'])


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME
    K = suites.COVER + ('order',)
    cases = []
    for o in OPTS[:4]:
        cases += suites.fixed_cases(K, opts=o, fams=('scat', 'sep', 'union'), order='scat')
    for k in range(4000 if th else 500):
        p = scalar_problem(random.Random('scal/%d/%d' % (ck.seed, k)))
        for o in (OPTS if th else (OPTS[k % 4], OPTS[4 + k % 7])):
            cases.append(tvrun.Case('scal_%d_%d' % (ck.seed, k), p, opts=o, kinds=K, order='scat', budget=12))
    cases += [c for c in suites.repo_cases(K, opts=['-noscalars'], order='scat', budget=8) if c.prob.scats]
    cases += [c for c in suites.repo_cases(K, opts=['-noblocks'], order='scat', budget=8) if c.prob.scats]
    tvrun.run_cases(ck, cases, 3000 if th else 130, max_pairs=3000 if th else 250)
    ck.cov['bounds'] = 'up to 4 statements, 6 schedule dimensions, constants -3..10; parameters and points unbounded'
