"""Matrices and constraints: symbolic matrices (CBMC, isl modelled) and round trips through the real isl (z3)."""
import random
from vlib import domcheck, sets, cb
LEVEL = 'solver_bounded'
UNRES = ['-Wl,--unresolved-symbols=ignore-all']


def odd(seed, n):
    """Matrices as a user may write them: zero rows, repeated and redundant rows, common factors, no rows at all."""
    rng = random.Random('odd %d' % seed)
    out = []
    for t in range(n):
        dim, np = rng.randint(0, 4), rng.randint(0, 3)
        if dim + np == 0:
            dim = 1
        doms = []
        for _ in range(2):
            rows = []
            for _ in range(rng.randint(0, 5)):
                w = [rng.choice([0, 0, 1, -1, 2, -3, 7, rng.randint(-40, 40)]) for _ in range(dim + np)] + [rng.randint(-30, 30)]
                k = rng.choice([1, 1, 1, 2, 3])
                rows.append([rng.choice([0, 1, 1, 1, 1])] + [k * a for a in w])
            if rows and rng.random() < .3:
                rows.append(list(rng.choice(rows)))
            if rng.random() < .2:
                rows.append([rng.choice([0, 1])] + [0] * (dim + np) + [rng.choice([0, 0, 1, 5, -1])])
            rng.shuffle(rows)
            doms.append(sets.Spec(dim, np, [(rows, [])]))
        ns = rng.randint(1, 3)
        out.append(domcheck.Case('odd-%d-%d' % (seed, t), np, dim, doms, [(ns, sets.rnd_scat(rng, dim, np, ns))], 32 + 8))
    return out


def run(ck, tier):
    th = tier == 'thorough'
    hs = []
    FL = ['--object-bits', '10', '--no-standard-checks']
    S = ['isl/domain.c', 'isl/constraints.c']
    shapes = [(r, d, p) for r in (0, 1, 2, 3) for d in (0, 1, 2, 3) for p in (0, 1, 2) if d + p <= 4]
    for r, d, p in shapes:
        hs.append(cb.H('c12_dom_%d_%d_%d' % (r, d, p), 'c12.c', S, ['-DOP=0', '-DROWS=%d' % r, '-DDIM=%d' % d, '-DPAR=%d' % p, '-DSC=0', '-DK=%d' % (7 if th else 3)],
                       kind='CLOOG_INT_LONG', unwind=9, nd=48, timeout=600 if th else 150, stub=False, native_extra=UNRES, flags=FL,
                       functions=['cloog_domain_from_cloog_matrix'], bounds='%d rows, %d dimensions, %d parameters; entries and point within +-%d' % (r, d, p, 7 if th else 3)))
    for r, s, d, p in [(1, 1, 1, 0), (2, 2, 1, 1), (1, 1, 2, 1), (2, 1, 2, 1), (3, 3, 1, 0), (2, 2, 2, 0), (1, 2, 0, 2), (0, 1, 1, 1), (2, 1, 0, 0), (3, 2, 1, 1), (1, 3, 1, 1)]:
        hs.append(cb.H('c12_scat_%d_%d_%d_%d' % (r, s, d, p), 'c12.c', S, ['-DOP=1', '-DROWS=%d' % r, '-DDIM=%d' % d, '-DPAR=%d' % p, '-DSC=%d' % s, '-DK=%d' % (7 if th else 3)],
                       kind='CLOOG_INT_LONG', unwind=9, nd=48, timeout=600 if th else 150, stub=False, native_extra=UNRES, flags=FL,
                       functions=['cloog_scattering_from_cloog_matrix'], bounds='%d rows, %d scattering dimensions, %d dimensions, %d parameters' % (r, s, d, p)))
    for d, v, p in [(1, 0, 0), (1, 1, 1), (2, 0, 1), (2, 1, 2), (0, 1, 2), (3, 2, 1), (0, 0, 2), (2, 2, 0)]:
        hs.append(cb.H('c12_acc_%d_%d_%d' % (d, v, p), 'c12.c', S, ['-DOP=2', '-DDIM=%d' % d, '-DDIV=%d' % v, '-DPAR=%d' % p], kind='CLOOG_INT_LONG', unwind=9, nd=48,
                       timeout=150, stub=False, native_extra=UNRES, flags=FL, functions=['cloog_constraint_coefficient_get', 'cloog_constraint_coefficient_set',
                       'cloog_constraint_copy_coefficients', 'cloog_constraint_constant_get', 'cloog_constraint_involves', 'cloog_constraint_is_lower_bound'],
                       bounds='%d dimensions, %d divisions, %d parameters, coefficients within +-1000' % (d, v, p)))
    cb.check(ck, hs)
    domcheck.run(ck, odd(ck.seed, 2500 if th else 400) + domcheck.rnd_cases(ck.seed, 800 if th else 120, 32 + 8, 'mat'), 2500 if th else 200)
    ck.assumptions += ['CBMC part: isl stores the coefficients it is given (model in cb/c12.c)', 'z3 part: isl prints the sets it holds']
