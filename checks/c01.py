from vlib import suites, tvrun
LEVEL = 'translation_validation'


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME
    K = suites.COVER
    cases = suites.fixed_cases(K)
    cases += suites.rnd_cases(ck.seed, 6000 if th else 2000, K)
    cases += suites.rnd_cases(ck.seed, 1200 if th else 300, K, tag='big', big=True)
    cases += suites.repo_cases(K, heavy=th, budget=120 if th else 12, timeout_ms=20000 if th else 3000)
    tvrun.run_cases(ck, cases, 3000 if th else 150, max_pairs=4000 if th else 400)
    ck.cov['bounds'] = 'depth<=3, <=4 statements, coefficients |c|<=7 in generated families; parameters unbounded'
