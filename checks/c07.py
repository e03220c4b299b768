from vlib import suites, tvrun
LEVEL = 'translation_validation'


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME + [
        'Fortran semantics: integer division is not used, MOD truncates, DO bounds are evaluated once, INTEGER is unbounded',
        'FLOOR(REAL(a)/REAL(b)) and CEILING(...) are read as exact real arithmetic']
    K = suites.COVER + ('order',)
    O = [[]] + [o for o in suites.OPTS if '-override' not in o]
    cases = []

    def add(c, o, order, **kw):
        cases.append(tvrun.Case(c.name, c.prob, opts=o, kinds=K, order=order, lang='f', **kw))
    for n, c in enumerate(suites.fixed_cases(K)):
        add(c, [], 'full', budget=12)
        add(c, O[(n * 7) % len(O)] if n % 2 else ['-strides', '1'], 'scat', budget=12)
    for n, c in enumerate(suites.rnd_cases(ck.seed, 3000 if th else 300, K, tag='for')):
        o = O[n % len(O)]
        add(c, o, 'scat' if o else 'full', budget=12)
    for n, c in enumerate(suites.repo_cases(K)):
        add(c, [], 'scat', budget=8, timeout_ms=2000)
    tvrun.run_cases(ck, cases, 3000 if th else 150, max_pairs=3000 if th else 250)
    ck.cov['bounds'] = 'depth<=3, <=4 statements, coefficients |c|<=7 in generated families; parameters unbounded'
