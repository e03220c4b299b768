"""-compilable / -callable: the complete translation unit."""
import re, os, random, subprocess, tempfile, copy
from vlib import suites, tvrun, common
from checks.c20 import rename
LEVEL = 'translation_validation'


class Prep:
    """Checks everything around the nest, returns the nest itself."""

    def __init__(self, prob, mode, value):
        self.prob, self.mode, self.value = prob, mode, value

    def __call__(self, text):
        P = self.prob
        pp = subprocess.run(['gcc', '-fsyntax-only', '-w', '-Werror=implicit-function-declaration', '-std=gnu99', '-x', 'c', '-'],
                            input=text, capture_output=True, text=True)
        if pp.returncode:
            raise Exception('does not compile: ' + pp.stderr.strip()[:300])
        defs = {}
        for m in re.finditer(r'^#define[ \t]+(\w+)(\([^)]*\))?[ \t]*(.*)$', text, re.M):
            defs[m.group(1)] = (m.group(2), m.group(3).strip())
        for k, (nd, _) in enumerate(P.domains):
            n = 'S%d' % (k + 1)
            if n not in defs or defs[n][0] is None:
                raise Exception('no macro for ' + n)
            a = [x.strip() for x in defs[n][0][1:-1].split(',') if x.strip()]
            if len(a) != nd or len(set(a)) != nd:
                raise Exception('macro %s has parameters %s, the domain %d dimensions' % (n, a, nd))
            b = re.sub(r'\s+', '', defs[n][1])
            if self.mode == 'compilable':
                w = '{total++;' + ('printf("%s%s\\n",%s);' % (n, '%d' * nd, ','.join(a)) if nd else '') + '}'
            else:
                w = '{hash(%d);' % (k + 1) + ''.join('hash(%s);' % x for x in a) + '}'
            if b != w:
                raise Exception('macro %s is %s, expected %s' % (n, b, w))
        if self.mode == 'compilable':
            m = re.search(r'int main\(\) \{(.*?)int total\s*=\s*0;\n(.*)\n\s*printf\("Number of integral points: %d\.\\n",total\);\s*return 0;\s*\}\s*$',
                          text, re.S)
            if not m:
                raise Exception('no main function around the nest')
            decl, body = m.group(1), m.group(2)
            for i, p in enumerate(P.params):
                mm = re.search(r'\b%s\s*=\s*PARVAL(\d+)' % re.escape(p), decl)
                if not mm:
                    raise Exception('parameter %s has no value' % p)
                v = defs.get('PARVAL' + mm.group(1))
                if v is None or v[1] != str(self.value):
                    raise Exception('parameter %s is given %s, requested %d' % (p, v, self.value))
        else:
            m = re.search(r'void test\(([^)]*)\)\n\{(.*)\}\s*$', text, re.S)
            if not m:
                raise Exception('no function around the nest')
            sig = [x.split() for x in m.group(1).split(',') if x.strip()]
            if sig != [['int', p] for p in P.params]:
                raise Exception('signature %s, parameters %s' % (m.group(1), P.params))
            body = re.sub(r'^\s*int [\w, ]+;\n', '', m.group(2), flags=re.M)
        return re.sub(r'^\s*S0\s*;?\s*$', '', body, flags=re.M)     # the empty nest


def run(ck, tier):
    th = tier == 'thorough'
    ck.assumptions += suites.TV_ASSUME + ['that the unit compiles is decided by gcc; the helper macros are decided by C08']
    K = suites.COVER + ('order',)
    cases = []
    src = suites.fixed_cases(K) + suites.rnd_cases(ck.seed, 2500 if th else 250, K, tag='cpl')
    src += suites.repo_cases(K)
    O = [[], [], ['-strides', '1'], ['-otl', '0'], ['-block', '1'], ['-f', '2'], ['-first-unroll', '1'], ['-noscalars']]
    for n, c in enumerate(src):
        if c.prob.language == 'f':
            continue
        if c.text is None and n % 3 == 1:
            rng = random.Random('c09n/%d/%d' % (ck.seed, n))
            q = rename(c.prob, rng, 'c')
            if rng.random() < .2 and q.scats is not None and q.given[1]:
                q = copy.copy(q)
                q.scatnames = list(q.scatnames)
                q.given = (q.given[0], 1, 1)
                for k in range(q.nscat):            # short names next to long ones with the same beginning
                    q.scatnames[k] = q.iters[k % len(q.iters)] + '%d' % k if q.iters else q.scatnames[k]
            al = q.params + q.iters + (list(q.scatnames) if q.scats is not None else [])
            if len(al) == len(set(al)):
                c.prob = q
        for mode, val in ((('compilable', (5, 1, 40)[n % 3]),), (('callable', 1),))[n % 2]:
            o = O[n % len(O)]
            cases.append(tvrun.Case(c.name, c.prob, text=c.text, opts=['-' + mode, str(val)] + o, kinds=K,
                                    order='scat' if o else c.order, prepare=Prep(c.prob, mode, val), budget=10, timeout_ms=2000))
    # an unbounded loop is cut off on purpose in callable programs
    cases = [c for c in cases if not ('-callable' in c.opts and 'infinite' in c.name or 'ard.cloog' in c.name)]
    tvrun.run_cases(ck, cases, 2500 if th else 150, max_pairs=2000 if th else 200)
