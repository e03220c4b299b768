"""Names: given, generated, long, many."""
import copy, random, re
from vlib import suites, tvrun, gen
LEVEL = 'translation_validation'
KEYW = {'c': {'for', 'if', 'else', 'floord', 'ceild', 'min', 'max', 'int'},
        'f': {'DO', 'END', 'IF', 'THEN', 'FLOOR', 'CEILING', 'REAL', 'MIN', 'MAX', 'MOD', 'AND', 'ELSE', 'ENDDO', 'ENDIF'}}
C_ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'


class Ids:
    """No identifier may appear that is not a name of the problem."""

    def __init__(self, prob, lang):
        self.ok = set(prob.params) | set(prob.iters) | set(prob.scatnames if prob.scats else [])
        self.ok |= {'S%d' % (k + 1) for k in range(len(prob.domains))} | KEYW[lang]

    def __call__(self, text):
        t = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
        t = re.sub(r'^\s*!.*$', '', t, flags=re.M)
        for w in re.findall(r'[A-Za-z_]\w*', t):
            if w not in self.ok:
                raise Exception('identifier %s is no name of the problem' % w)
        return text


def rename(p, rng, lang):
    q = copy.copy(p)
    used = {'S%d' % k for k in range(1, 9)} | KEYW['c'] | KEYW['f'] | {'lbp', 'ubp', 'total', 'hash', 'printf'}

    mine = []

    def fresh():
        while True:
            if mine and rng.random() < .4:          # names that are close to each other
                b = rng.choice(mine)
                s = rng.choice((b + rng.choice('0123456789_xi'), b[:-1], b[:-1] + rng.choice(C_ALPHA), b + b, b.swapcase()))
                if s and s not in used and s.upper() not in {u.upper() for u in used} and (lang == 'c' or (len(s) < 6 and '_' not in s)):
                    used.add(s)
                    mine.append(s)
                    return s
                continue
            n = rng.choice((1, 1, 2, 3, 5, 8, 13, 24, 49, 50, 60)) if lang == 'c' else rng.choice((1, 2, 3, 5))
            s = rng.choice(C_ALPHA if lang == 'c' else C_ALPHA[:-1]) + ''.join(rng.choice(C_ALPHA + '0123456789') for _ in range(n - 1))
            if s not in used and s.upper() not in used:
                used.add(s)
                mine.append(s)
                return s
    q.given = tuple(int(rng.random() < .7) for _ in range(3))
    # generated names are the documented defaults (given ones avoid them)
    if not q.given[0]:
        q.params = [chr(ord('M') + i) for i in range(p.npar)]
    if not q.given[1]:
        q.iters = [chr(ord('i') + i) for i in range(len(p.iters))]
    if p.scats is not None and not q.given[2]:
        q.scatnames = ['c%d' % (i + 1) for i in range(p.nscat)]
    used |= set(q.params if not q.given[0] else []) | set(q.iters if not q.given[1] else [])
    used |= set(q.scatnames if p.scats is not None and not q.given[2] else [])
    if q.given[0]:
        q.params = [fresh() for _ in p.params]
    if q.given[1]:
        q.iters = [fresh() for _ in p.iters]
    if p.scats is not None and q.given[2]:
        q.scatnames = [fresh() for _ in range(p.nscat)]
    return q


def many(rng):
    """Many parameters and a deep nest."""
    npar = rng.randint(3, 14)
    d = rng.randint(3, 7)
    P = ['q%d' % i for i in range(npar)]
    I = ['x%d' % i for i in range(d)]
    cs = []
    for k, n in enumerate(I):
        cs.append('%s>=%s' % (n, rng.choice(P + I[:k])))
        cs.append('%s<=%s+%s' % (n, rng.choice(P), rng.choice(P)))
    sc, ns = None, 0
    if rng.random() < .5:
        ns = d + 1
        per = rng.sample(I, d)
        sc = ['c1=%d;' % rng.randint(0, 2) + ';'.join('c%d=%s' % (k + 2, n) for k, n in enumerate(per))]
    return gen.problem(P, [(d, ';'.join(cs))], scats=sc, ns=ns, iters=I)


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME + ['generated names: parameters M.., iterators i.., schedule dimensions c1.. (doc/cloog.texi); '
                                          'names chosen by the user are distinct from each other and from generated ones']
    K = suites.COVER + ('order',)
    src = [(n, p) for n, p in gen.all_fixed('bounds', 'eq', 'stride', 'union', 'sep', 'scat', 'unroll') ]
    src += gen.rnd(ck.seed, 2000 if th else 250, 'nam')
    src += [('many_%d_%d' % (ck.seed, k), many(random.Random('many/%d/%d' % (ck.seed, k)))) for k in range(200 if th else 30)]
    src += [(n, p) for n, p, t in tvrun.repo_problems(th)]
    O = [[], [], ['-noscalars'], ['-strides', '1'], ['-otl', '0'], ['-esp', '0'], ['-f', '2'], ['-block', '1']]
    cases = []
    for k, (n, p) in enumerate(src):
        rng = random.Random('name/%d/%d' % (ck.seed, k))
        lang = 'f' if k % 5 == 4 else 'c'
        q = rename(p, rng, lang)
        if len(set(q.params + q.iters + (q.scatnames if q.scats is not None else []))) != \
                len(q.params + q.iters) + (len(q.scatnames) if q.scats is not None else 0):
            continue
        q.language = lang
        o = O[k % len(O)]
        cases.append(tvrun.Case(n, q, opts=o, kinds=K, lang=lang, order='scat' if o else 'full', prepare=Ids(q, lang),
                                budget=10, timeout_ms=2500))
    tvrun.run_cases(ck, cases, 2500 if th else 110, max_pairs=2000 if th else 150)
    ck.cov['bounds'] = 'names of 1..60 characters, up to 14 parameters and 7 iterators; parameters and points unbounded'
