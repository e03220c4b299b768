"""Case lists shared by the translation-validation checks."""
from . import gen, tvrun
from .tvrun import Case

COVER = ('sound', 'complete', 'unique')

# option sets that only change the shape of the code; documented in doc/cloog.texi
OPTS = [
    ['-strides', '1'], ['-otl', '0'], ['-esp', '0'], ['-esp', '1', '-fsp', '2'], ['-l', '1'], ['-l', '2'],
    ['-f', '2'], ['-f', '-1'], ['-f', '1', '-l', '-1'], ['-sh', '1', '-f', '-1'], ['-sh', '1', '-f', '2'],
    ['-block', '1'], ['-noblocks'], ['-noscalars'], ['-first-unroll', '1'], ['-first-unroll', '2'],
    ['-f', '2', '-l', '2', '-override'], ['-f', '3', '-l', '-1', '-override'],
    ['-strides', '1', '-otl', '0'], ['-strides', '1', '-f', '2'], ['-strides', '1', '-l', '1'],
    ['-strides', '1', '-esp', '0'], ['-strides', '1', '-sh', '1', '-f', '-1'],
    ['-noscalars', '-noblocks'], ['-strides', '1', '-noscalars'], ['-otl', '0', '-esp', '0'],
    ['-block', '1', '-otl', '0', '-esp', '0'], ['-l', '1', '-otl', '0'], ['-strides', '1', '-first-unroll', '1'],
    ['-l', '0'], ['-f', '2', '-noscalars', '-override'],
]


def kinds_for(opts, kinds):
    """-override lifts the promise about the scattering order (doc/cloog.texi)."""
    return tuple(k for k in kinds if not (k == 'order' and '-override' in opts))


def repo_cases(kinds, order='full', opts=(), heavy=False, lang=None, timeout_ms=3000, budget=12):
    return [Case('test/' + n, p, text=t, opts=opts, kinds=kinds, order=order, budget=budget,
                 timeout_ms=timeout_ms, lang=lang) for n, p, t in tvrun.repo_problems(heavy)]


def fixed_cases(kinds, order='full', opts=(), fams=(), lang=None):
    return [Case(n, p, opts=opts, kinds=kinds, order=order, lang=lang) for n, p in gen.all_fixed(*fams)]


def rnd_cases(seed, n, kinds, order='full', opts=(), tag='rnd', big=False, lang=None, budget=15):
    return [Case(nm, p, opts=opts, kinds=kinds, order=order, lang=lang, budget=budget)
            for nm, p in gen.rnd(seed, n, tag, big)]


TV_ASSUME = [
    'isl 0.26 and gmp are trusted (linked, not encoded)',
    'the independent .cloog reader and the C/Fortran expression semantics in /verif/vlib are trusted',
    'integers are mathematical: overflow of the generated program\'s int variables is outside the claim',
    'per program the verdict covers all parameter values and all iteration points; the set of programs is '
    'the families of vlib/gen.py, seeded random programs and the inputs under /repo/test',
]
