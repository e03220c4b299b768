"""Domain operations: every result decided for all points."""
from vlib import domcheck
LEVEL = 'translation_validation'


def run(ck, tier):
    th = ck.tier == 'thorough'
    n = 2500 if th else 420
    cs = domcheck.rnd_cases(ck.seed, n, 1 + 2 + 8, 'dom')
    cs += domcheck.rnd_cases(ck.seed, n // 8, 1 + 2, 'dom1', scat=False, maxdim=1)
    cs += domcheck.rnd_cases(ck.seed, n // 4, 1 + 2, 'lat', scat=False)
    cs += [domcheck.Case('constructors', 0, 1, [], [], 16)]
    domcheck.run(ck, cs, 3000 if th else 240)
    ck.cov['bounds'] = 'random domains of 1..3 dimensions, 0..2 parameters, 1..3 pieces, coefficients up to 3, lattices modulo 2..5; scattering functions of 1..3 dimensions; all integer points and parameter values (no bound)'
    ck.cov['explanation'] = 'the library runs the operation; the printed result and the specification are compared by z3 at every integer point'
    ck.assumptions += ['isl prints the sets it holds (results are read through isl)', 'the domains are a sample; the points are not']
