"""Sorting of domains: symbolic precedence (CBMC) and real domains (z3)."""
import itertools, random
from vlib import domcheck, sets, cb
LEVEL = 'solver_bounded'


def rods():
    """Four segments that overlap in a cycle as the two parameters vary, and three of them."""
    def D(rows):
        return sets.Spec(1, 2, [(rows, [])])
    box = [[1, 0, 1, 0, 0], [1, 0, -1, 0, 10], [1, 0, 0, 1, 0], [1, 0, 0, -1, 10]]
    s0 = D([[0, 0, 0, 1, 0], [0, 1, -1, 0, 0]] + box)
    s1 = D([[0, 0, 0, 1, -10], [0, 1, 0, 0, -2]] + box)
    s2 = D([[0, 0, 1, 0, 0], [0, 1, 0, 0, -1]] + box)
    s3 = D([[0, 0, 1, 0, -10], [0, 1, 0, 0, -3]] + box)
    return [domcheck.Case('rods-%s' % ''.join(map(str, q)), 2, 1, [[s0, s1, s2, s3][a] for a in q], [], 4)
            for q in list(itertools.permutations(range(4))) + list(itertools.permutations(range(4), 3))]


def staggered(seed, n):
    """Small blocks that often do not overlap: many precedence shapes."""
    rng = random.Random('stag %d' % seed)
    out = []
    for t in range(n):
        dim, np = rng.choice([(1, 0), (1, 1), (2, 0), (2, 1), (2, 1), (3, 0), (1, 2)])
        doms = []
        for _ in range(rng.randint(3, 6)):
            rows = []
            for d in range(dim + np):
                lo = rng.randint(0, 8)
                hi = lo + rng.choice([0, 0, 1, 2, 5])
                a = [1] + [0] * (dim + np + 1)
                a[1 + d], a[-1] = 1, -lo
                b = [1] + [0] * (dim + np + 1)
                b[1 + d], b[-1] = -1, hi
                if d >= 1 and d < dim and rng.random() < .4 or (d < dim and np and rng.random() < .4):
                    o = rng.choice([q for q in range(dim + np) if q < d or q >= dim])
                    c = rng.choice([1, -1, 1, 2])
                    a[1 + o] -= c
                    b[1 + o] += c
                if d >= dim and rng.random() < .5:
                    continue
                rows += [a, b]
            mods = []
            if rng.random() < .25:
                m = rng.choice([2, 3])
                mods.append([m] + [rng.randint(0, m - 1) for _ in range(dim + np)] + [rng.randint(0, m - 1)])
            doms.append(sets.Spec(dim, np, [(rows, mods)]))
        out.append(domcheck.Case('stag-%d-%d' % (seed, t), np, dim, doms, [], 4))
    return out


def run(ck, tier):
    th = ck.tier == 'thorough'
    cs = rods() + staggered(ck.seed, 3000 if th else 500)
    cs += domcheck.rnd_cases(ck.seed, 600 if th else 100, 4, 'sort', nd=(3, 5), scat=False)
    domcheck.run(ck, cs, 2500 if th else 150)
    hs = []
    for n in (1, 2, 3, 4) + ((5,) if th else ()):
        hs.append(cb.H('c15_%d' % n, 'c15.c', ['isl/domain.c'], ['-DN=%d' % n], unwind=n * n + 3, nd=2 * n + 3 * n * n, timeout=900 if th else 200,
                       native_extra=['-Wl,--unresolved-symbols=ignore-all'], flags=['--object-bits', '10'],
                       functions=['cloog_domain_sort'], bounds='%d domains, every outcome of the comparisons' % n))
    cb.check(ck, hs)
