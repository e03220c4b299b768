import random
from vlib import suites, tvrun, gen
LEVEL = 'translation_validation'


def lattice(rng):
    """Random problem whose domains and schedules live on lattices."""
    P = ['M', 'N']
    d = rng.choice((1, 2, 2))
    nst = rng.choice((1, 1, 2))
    stm, sc = [], []
    useS = rng.random() < .5
    for k in range(nst):
        cs, loc = [], []
        for q in range(d):
            n = gen.IT[q]
            outer = gen.IT[:q]
            cs.append('%s>=%s' % (n, rng.choice(['0', '1', '-4', 'M', '-N'] + outer)))
            cs.append('%s<=%s' % (n, rng.choice(['N', 'N', 'M+N', '3*M', '12'])))
            if rng.random() < .7:
                e = 'e%d' % len(loc)
                loc.append(e)
                a = rng.choice((1, 1, 1, 2, 3))
                t = '%+d*%s' % (rng.choice((2, 3, 4, 5, 6, 8)), e)
                for o in outer + P:
                    if rng.random() < .35:
                        t += '%+d*%s' % (rng.choice((1, 1, -1, 2, 3)), o)
                t += '%+d' % rng.randint(-5, 6)
                cs.append('%d*%s=%s' % (a, n, t[1:] if t[0] == '+' else t))
        s = ';'.join(cs)
        stm.append((d, ('E ' + ','.join(loc) + ':' if loc else '') + s))
        co = [rng.choice((1, 1, 2, 3, -1, 4)) for _ in range(d)]
        sc.append(';'.join('c%d=%d*%s%+d' % (q + 1, co[q], gen.IT[q], rng.randint(-2, 3)) for q in range(d)))
    return gen.problem(P, stm, scats=sc if useS else None, ns=d if useS else 0,
                       ctx=rng.choice(('', '', 'N>=0', 'M>=-3;N>=M')))


def shared(rng):
    """Several statements that share an outer schedule dimension, each on a lattice of its own with a common divisor, or at one point."""
    ns = rng.choice((1, 2))
    g, base = rng.choice((2, 3, 4, 6)), rng.randint(-3, 3)
    stm, sc = [], []
    for k in range(rng.choice((2, 2, 3, 4))):
        if rng.random() < .3:
            s = 'c1=%d' % (base + g * rng.randint(-3, 6) + (rng.random() < .1))
        else:
            s = 'c1=%d*i%+d' % (g * rng.choice((1, 2, 3)) * rng.choice((1, 1, -1)), base + g * rng.choice((0, 0, 1, 2)) + (rng.random() < .1))
        if ns == 2:
            s += ';c2=%s' % rng.choice(('i', '0', '1', '2*i', '3*i+1', 'i+%d' % rng.randint(1, 4)))
        stm.append((1, 'i>=%s;i<=%s' % (rng.choice(('0', '1', '-3', '5', 'N')), rng.choice(('N', 'N', '10', '20', '7')))))
        sc.append(s)
    return gen.problem(['N'], stm, scats=sc, ns=ns, ctx=rng.choice(('', 'N>=3')))


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME
    K = suites.COVER + ('order',)
    cases = []
    for o in (['-strides', '1'], []):
        cases += suites.fixed_cases(K, opts=o, fams=('stride', 'mod', 'eq', 'scat', 'unroll'), order='scat')
    for k in range(3000 if th else 450):
        rng = random.Random('lat/%d/%d' % (ck.seed, k))
        o = (['-strides', '1'], ['-strides', '1'], [], ['-strides', '1', '-otl', '0'], ['-strides', '1', '-l', '1'])[k % 5]
        cases.append(tvrun.Case('lat_%d_%d' % (ck.seed, k), lattice(rng), opts=o, kinds=K, order='scat', budget=15))
    for k in range(3000 if th else 330):
        rng = random.Random('shl/%d/%d' % (ck.seed, k))
        o = ['-strides', '1'] + ([], ['-f', '-1'], ['-otl', '0'], ['-l', '1'], ['-f', '2'])[k % 5]
        cases.append(tvrun.Case('shl_%d_%d' % (ck.seed, k), shared(rng), opts=o, kinds=K, order='scat', budget=15))
    cases += suites.repo_cases(K, opts=['-strides', '1'], order='scat', budget=8)
    tvrun.run_cases(ck, cases, 3000 if th else 150, max_pairs=3000 if th else 250)
    ck.cov['bounds'] = 'lattice moduli 2..8 (and products), offsets affine in parameters and outer iterators; parameters unbounded'
