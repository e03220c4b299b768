from vlib import suites, tvrun
LEVEL = 'translation_validation'


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME
    K = ('order',)
    cases = suites.fixed_cases(K, fams=('scat', 'sep', 'union', 'eq', 'stride', 'unroll', 'bounds', 'mod'))
    cases += suites.rnd_cases(ck.seed, 6000 if th else 1800, K, tag='ord')
    cases += suites.rnd_cases(ck.seed, 1200 if th else 240, K, tag='bigo', big=True)
    cases += suites.repo_cases(K, heavy=th, budget=120 if th else 12, timeout_ms=20000 if th else 3000)
    tvrun.run_cases(ck, cases, 3000 if th else 150, max_pairs=6000 if th else 500)
    ck.cov['bounds'] = 'depth<=3, <=4 statements, <=5 scattering dimensions in generated families; parameters unbounded'
