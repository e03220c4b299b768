"""Dump a problem through the library, read the dump back, and validate the code generated from it against the original problem."""
import copy, random
from vlib import suites, tvrun, common, gen
from vlib.cloogfile import Problem
LEVEL = 'translation_validation'


def applied(p):
    """The problem with its scattering folded into the domains (what a program dumped before generation describes)."""
    if p.scats is None:
        return p
    q = copy.copy(p)
    q.scats, q.domains = None, []
    names = list(p.scatnames)
    q.iters = names + list(p.iters)
    for (ns, srel), (nd, drel) in zip(p.scats, p.domains):
        rel = []
        for sl, srows in srel:
            for dl, drows in drel:
                rows = []
                for eq, v in srows:       # [scat, iters, locals, params, 1]
                    rows.append((eq, list(v[:ns + nd + sl]) + [0] * dl + list(v[ns + nd + sl:])))
                for eq, v in drows:
                    rows.append((eq, [0] * ns + list(v[:nd]) + [0] * sl + list(v[nd:])))
                rel.append((sl + dl, rows))
        q.domains.append((ns + nd, rel))
    return q


def vary(nm, p, rng):
    """Unnamed parameters/iterators/scattering dimensions and contexts that are unions or have local dimensions."""
    p = copy.deepcopy(p)
    g = [rng.choice((0, 1)) for _ in range(3)]
    if not g[0]:
        p.params = ['MNOPQ'[k] for k in range(p.npar)]
    p.given = tuple(g)
    ctx = p.context or [(0, [])]
    if p.npar and len(ctx) == 1 and not ctx[0][0]:
        r = rng.random()
        k = rng.randrange(p.npar)
        unit = [0] * p.npar
        unit[k] = 1
        if r < .3:      # a union
            p.context = [(0, ctx[0][1] + [(False, unit + [rng.randint(-3, 3)])]), (0, ctx[0][1] + [(False, [-a for a in unit] + [rng.randint(0, 9)])])]
        elif r < .6:    # a multiple
            rows = [(eq, [0] + list(v)) for eq, v in ctx[0][1]]
            p.context = [(1, rows + [(True, [rng.choice((2, 3))] + [-a for a in unit] + [rng.randint(0, 2)])])]
    return nm, p


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME
    exe = common.build_driver(common.VERIF + '/drv/api.c', 'api')
    K = suites.COVER + ('order',)
    cases = []
    cases += suites.fixed_cases(K, opts=['@dump'])
    cases += suites.rnd_cases(ck.seed, 2500 if th else 220, K, opts=['@dump2'], tag='dump')
    cases += suites.rnd_cases(ck.seed, 800 if th else 60, K, opts=['@dump2'], tag='dumpbig', big=True)
    cases += suites.rnd_cases(ck.seed, 500 if th else 60, K, opts=['@dump'], tag='dumpf', lang='f')
    for i, (nm, p) in enumerate(gen.rnd(ck.seed, 1500 if th else 160, 'dumpp')):
        cases.append(tvrun.Case(nm, p, opts=['@prog', '-noscalars', '-noblocks'], kinds=K, oracle=applied(p), lang='f' if i % 5 == 0 else None))
    rng = random.Random('dumpv %d' % ck.seed)
    for i, (nm, p) in enumerate(gen.rnd(ck.seed, 1500 if th else 160, 'dumpv')):
        nm, p = vary(nm, p, rng)
        prog = i % 3 == 0
        cases.append(tvrun.Case(nm, p, opts=['@prog', '-noscalars', '-noblocks'] if prog else ['@dump2'], kinds=K, oracle=applied(p) if prog else None))
    cases += suites.repo_cases(K, opts=['@dump2'], heavy=th, budget=60 if th else 8, timeout_ms=10000 if th else 2000)
    tvrun.run_cases(ck, cases, 3000 if th else 150, max_pairs=2000 if th else 200, exe=exe)
    ck.cov['bounds'] = 'depth<=3, <=4 statements, coefficients |c|<=7 in generated families; parameters unbounded'
