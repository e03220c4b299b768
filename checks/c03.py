from vlib import suites, tvrun
LEVEL = 'translation_validation'


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME + [
        'with these options only the order on scattering dimensions is promised (doc/cloog.texi), so only it is '
        'required; with -override not even that one',
        '-nosimplify and -backtrack (undocumented, author only) are outside the claim']
    K = suites.COVER + ('order',)
    O = suites.OPTS
    cases = []

    def add(c, o, **kw):
        cases.append(tvrun.Case(c.name, c.prob, text=c.text, opts=o, kinds=suites.kinds_for(o, K), order='scat', **kw))
    fx = suites.fixed_cases(K, order='scat')
    for n, c in enumerate(fx):
        if c.name.startswith('kf_'):
            add(c, ['-esp', '0'], budget=15)
        for q in range(len(O) if th else 4):
            add(c, O[q] if th else O[(n * 5 + q * 8) % len(O)], budget=15)
    for n, c in enumerate(suites.rnd_cases(ck.seed, 5000 if th else 1400, K, tag='opt')):
        add(c, O[n % len(O)], budget=15)
    for n, c in enumerate(suites.repo_cases(K)):
        for q in range(len(O) if th else 1):
            add(c, O[(n + q) % len(O)], budget=8, timeout_ms=2000)
    tvrun.run_cases(ck, cases, 3000 if th else 200, max_pairs=3000 if th else 250)
    ck.cov['option_sets'] = len(O)
