"""Printed text against the syntax tree it was printed from: same structure, and z3 decides that every expression and guard has the
tree's value for all values of the variables."""
import os, random, time, subprocess
import z3
from vlib import common, codeparse, prove, gen, cloogfile, tvrun
LEVEL = 'translation_validation'
NAMES = ['i', 'j', 'N', 'M', 'c1']


# ------------------------------------------------------------------- trees --
def sx(t):
    return '(' + ' '.join(sx(x) for x in t) + ')' if isinstance(t, (tuple, list)) else str(t)


def read_sx(s):
    toks = s.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = [0]

    def rd():
        t = toks[pos[0]]
        pos[0] += 1
        if t != '(':
            return t
        out = []
        while toks[pos[0]] != ')':
            out.append(rd())
        pos[0] += 1
        return tuple(out)
    return rd()


class Gen:
    """Trees of the kinds clast.c builds: sums of terms, divisions of them, minima and maxima."""

    def __init__(self, rng):
        self.r = rng

    def coef(self):
        return self.r.choice((1, 1, -1, -1, 2, -2, 3, 7, -5, 10, -12, 100, 2 ** 31, -2 ** 40))

    def name(self):
        return ('n', self.r.choice(NAMES))

    def term(self, d):
        r = self.r.random()
        if d > 0 and r < .2:
            return ('t', self.coef(), self.bin(d - 1, 'fc'))
        if d > 0 and r < .3:
            return ('t', self.coef(), self.sum(d - 1, 2))
        return ('t', self.coef(), self.name())

    def sum(self, d, lo=1):
        n = self.r.choice((1, 1, 2, 2, 3, 4))
        n = max(n, lo)
        els = [self.term(d) for _ in range(n)]
        if self.r.random() < .6:
            els[-1] = ('t', self.r.choice((1, -1, 2, -3, 17, -40, 2 ** 33)), '_')
        elif n == 1 and self.r.random() < .2:
            els = [('t', 0, '_')]
        return ('s',) + tuple(els)

    def bin(self, d, kinds):
        lhs = self.sum(d) if self.r.random() < .85 else self.term(d)
        return (self.r.choice(kinds), lhs, self.r.choice((1, 2, 2, 3, 4, 7, 12, 2 ** 32)))

    def bound(self, d):
        r = self.r.random()
        if r < .4:
            n = self.r.choice((1, 2, 2, 3, 4, 5))
            k = self.r.choice('mM')
            return (k,) + tuple(self.bound(0) if self.r.random() < .15 else self.r.choice((self.sum(d), self.bin(d, 'fc'), self.term(0))) for _ in range(n))
        if r < .6:
            return self.bin(d, 'fc')
        return self.sum(d)

    def eqn(self, d):
        if self.r.random() < .35:
            return (self.r.choice((0, -1)), self.bin(d, 'o'), ('t', self.r.choice((0, 1, 2)), '_'))
        lhs = ('t', abs(self.coef()), self.name() if self.r.random() < .8 else self.bin(d, 'f'))
        return (self.r.choice((-1, 0, 1)), lhs, self.bound(d))

    def arg(self, d):
        return self.r.choice((self.sum(d), self.bin(d, 'd'), self.bin(d, 'd'), self.term(0), self.bin(d, 'f'), ('t', self.coef(), '_')))

    def stmts(self, depth, lang, par=True):
        out = []
        for _ in range(self.r.choice((1, 1, 2, 3))):
            r = self.r.random()
            if depth and r < .4:
                lb, ub = self.bound(1), self.bound(1)
                if lang == 'c' and self.r.random() < .1:
                    lb, ub = self.r.choice((('_', ub), (lb, '_'), ('_', '_')))
                flag = self.r.choice((0, 0, 0, 0, 1, 4, 9)) if lang == 'c' and par and '_' not in (lb, ub) else 0
                out.append(('for', self.r.choice('ijk') + str(depth), lb, ub, self.r.choice((1, 1, 1, 2, 3, 17)), flag, self.stmts(depth - 1, lang, par)))
            elif depth and r < .65:
                out.append(('if', tuple(self.eqn(1) for _ in range(self.r.choice((1, 1, 2, 3)))), self.stmts(depth - 1, lang, par)))
            elif r < .75:
                out.append(('=', self.r.choice('xy'), self.bound(1)))
            elif depth and r < .8:
                out.append(('b', self.stmts(depth - 1, lang, par)))
            else:
                out.append(('u', self.r.randint(1, 12)) + tuple(self.arg(1) for _ in range(self.r.choice((0, 1, 1, 2, 3)))))
        return tuple(out)


# -------------------------------------------------------------- evaluation --
def tdiv(a, k):
    return z3.If(a >= 0, a / k, -((-a) / k))


def value(e, env):
    """The value of a tree."""
    k = e[0]
    if k == 'n':
        return env(e[1])
    if k == 't':
        return z3.IntVal(int(e[1])) * value(e[2], env) if e[2] != '_' else z3.IntVal(int(e[1]))
    if k == 's':
        return z3.Sum([value(x, env) for x in e[1:]])
    if k in 'mM':
        v = value(e[1], env)
        for x in e[2:]:
            w = value(x, env)
            v = z3.If(v < w, v, w) if k == 'm' else z3.If(v > w, v, w)
        return v
    a, d = value(e[1], env), int(e[2])
    if k == 'f':
        return a / d
    if k == 'c':
        return -((-a) / d)
    if k == 'd':
        return tdiv(a, d)
    return a - d * tdiv(a, d)


class Env(dict):
    def __missing__(self, n):
        return z3.Int(n)

    def __contains__(self, n):
        return True


class Mismatch(Exception):
    pass


class Match:
    def __init__(self, lang, timeout_ms=4000):
        self.lang, self.obl, self.unk, self.q, self.t = lang, 0, 0, 0, 0.0
        self.timeout = timeout_ms
        self.env = Env()

    def prove(self, f, what):
        self.obl += 1
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(f)
        t = time.time()
        r = s.check()
        self.t += time.time() - t
        self.q += 1
        if r == z3.sat:
            m = s.model()
            raise Mismatch('%s; at %s' % (what, ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)))
        if r != z3.unsat:
            self.unk += 1

    def same(self, text, tree, what):
        if tree == '_' or text is None:
            if (tree == '_') != (text is None):
                raise Mismatch('%s: the tree has %s, the text %s' % (what, sx(tree), text))
            return
        a = prove.ev(text, self.env)
        self.prove(a != value(tree, lambda n: self.env[n]), '%s: the printed expression differs from the tree %s' % (what, sx(tree)))

    def cond(self, text, eqs):
        fs = []
        for s, l, r in eqs:
            a, b = value(l, lambda n: self.env[n]), value(r, lambda n: self.env[n])
            fs.append({0: a == b, 1: a >= b, -1: a <= b}[(int(s) > 0) - (int(s) < 0)])
        self.prove(prove.evc(text, self.env) != z3.And(fs), 'the printed guard differs from the tree %s' % sx(eqs))

    def flat(self, tree):
        out = []
        for s in tree:
            if s[0] == 'b' and self.lang == 'f':
                out += self.flat(s[1])
            else:
                out.append(s)
        return out

    def stmts(self, text, tree):
        text, tree = list(text), self.flat(tree)
        for s in tree:
            if s[0] == 'for':
                _, it, lb, ub, stride, par, body = s
                par = int(par)
                v = {1: 'lbp ubp', 9: 'lbp ubp', 4: 'lbv ubv'}.get(par)
                if v:
                    for n, b in zip(v.split(), (lb, ub)):
                        if not text or text[0][0] != 'asg' or text[0][1] != n:
                            raise Mismatch('no assignment to %s before a parallel loop' % n)
                        self.same(text.pop(0)[2], b, n)
                    lb, ub = (('n', x) for x in v.split())
                t = text.pop(0) if text else None
                if not t or t[0] != 'for' or t[1] != it:
                    raise Mismatch('a loop over %s is not printed' % it)
                self.same(t[2], lb, 'lower bound of ' + it)
                self.same(t[3], ub, 'upper bound of ' + it)
                self.same(t[4] or ('n', 1), ('t', stride, '_'), 'stride of ' + it)
                self.stmts(t[5], body)
                continue
            t = text.pop(0) if text else None
            if s[0] == 'if':
                if not t or t[0] != 'if':
                    raise Mismatch('a guard is not printed')
                self.cond(t[1], s[1])
                self.stmts(t[2], s[2])
            elif s[0] == 'b':
                if not t or t[0] != 'block':
                    raise Mismatch('a block is not printed')
                self.stmts(t[1], s[1])
            elif s[0] == '=':
                if not t or t[0] != 'asg' or t[1] != s[1]:
                    raise Mismatch('an assignment to %s is not printed' % s[1])
                self.same(t[2], s[2], 'assignment to ' + s[1])
            else:
                if not t or t[0] != 'call' or t[1] != 'S%s' % s[1] or len(t[2]) != len(s) - 2:
                    raise Mismatch('the call of statement %s is printed as %s' % (s[1], t))
                for k, (a, b) in enumerate(zip(t[2], s[2:])):
                    self.same(a, b, 'argument %d of S%s' % (k + 1, s[1]))
        if text:
            raise Mismatch('the text has statements that are not in the tree: %s' % (text[0],))


def judge(lang, tree, text):
    """(error or None, Match)"""
    m = Match(lang)
    try:
        src = '\n'.join(l for l in text.split('\n') if not l.lstrip().startswith('#pragma'))
        ast = codeparse.parse_fortran(src) if lang == 'f' else codeparse.parse_c(src)
        m.stmts(ast, tree)
    except Mismatch as e:
        return str(e), m
    except (codeparse.ParseError, prove.BadCode) as e:
        return 'the text is not valid: %s' % e, m
    except prove.Unsupported:
        m.unk += 1
    return None, m


def job(a):
    kind, exe, wd, lang, payload, name, opts = a
    out = []
    os.makedirs(wd, exist_ok=True)
    f = wd + '/in'
    if kind == 'build':
        trees = payload
        open(f, 'w').write('\n'.join(sx(t) for t in trees) + '\n')
        rc, so, se = common.run([exe, f, 'build', lang], timeout=60)
        if rc is None:
            return [(name, 'inc', 'printing timed out', None, None)]
        parts = so.split('=====\n')[1:]
        for k, t in enumerate(trees):
            if k >= len(parts) or (rc != 0 and k == len(parts) - 1):
                out.append((name + '.%d' % k, 'viol', 'printing a tree ends with status %s: %s' % (rc, se[-200:]), sx(t), ''))
                break
            err, m = judge(lang, t, parts[k])
            out.append((name + '.%d' % k, 'viol' if err else 'ok', err or (m.obl, m.unk, m.q, m.t), sx(t), parts[k]))
        return out
    open(f, 'w').write(payload)
    rc, so, se = common.run([exe, f, 'gen'] + list(opts), timeout=15)
    if rc != 0 or so.count('=====\n') != 2:
        return [(name, 'inc', 'generation: status %s %s' % (rc, se[-80:]), None, None)]
    tree, text, _ = so.split('=====\n')
    err, m = judge(lang, read_sx(tree), text)
    return [(name + ' ' + ' '.join(opts), 'viol' if err else 'ok', err or (m.obl, m.unk, m.q, m.t), tree, text)]


def run(ck, tier):
    th = tier == 'thorough'
    exe = common.build_driver(common.VERIF + '/drv/tree.c', 'tree')
    wd = common.scratch() + '/tree'
    jobs = []
    nb, per = (240, 60) if th else (48, 25)
    for b in range(nb):
        lang = 'c' if b % 4 else 'f'
        g = Gen(random.Random('tree %d %d' % (ck.seed, b)))
        jobs.append(('build', exe, '%s/b%d' % (wd, b), lang, [g.stmts(3, lang) for _ in range(per)], 'tree_%d_%d%s' % (ck.seed, b, lang), ()))
    OPTS = [(), ('-strides', '1'), ('-otl', '0'), ('-esp', '0'), ('-block', '1', '-esp', '0'), ('-f', '-1'), ('-first-unroll', '1')]
    ps = list(gen.all_fixed()) + gen.rnd(ck.seed, 2500 if th else 250, 'tree') + gen.rnd(ck.seed, 500 if th else 60, 'treeb', big=True)
    for k, (nm, p) in enumerate(ps):
        lang = 'f' if k % 6 == 5 else 'c'
        p.language = lang
        jobs.append(('gen', exe, '%s/g%d' % (wd, k), lang, cloogfile.dump(p), nm, OPTS[k % len(OPTS)]))
    for k, (nm, p, t) in enumerate(tvrun.repo_problems(th)):
        jobs.append(('gen', exe, '%s/r%d' % (wd, k), p.language, t, 'test/' + nm, OPTS[k % len(OPTS)] if k % 2 else ()))
    tot = [0, 0, 0, 0.0]
    ntrees = nviol = 0
    samples = []
    for k, res in common.pimap(job, jobs, 400 if th else 90, ck.t0 + (3000 if th else 400)):
        for name, st, info, tree, text in res or [(jobs[k][5], 'inc', 'stopped', None, None)]:
            if st == 'inc':
                ck.note_inconclusive('%s: %s' % (name, info))
                continue
            ntrees += 1
            if st == 'viol':
                nviol += 1
                if nviol <= 20:
                    ck.violation(name, info, {'tree': tree, 'printed': text})
            else:
                if len(samples) < 6 and len(tree) < 400:
                    samples.append({'case': name, 'tree': tree.strip(), 'printed': text})
                for i in range(4):
                    tot[i] += info[i]
                if info[1]:
                    ck.note_inconclusive('%s: %d expressions not decided in time' % (name, info[1]))
    ck.cov.update(programs=ntrees, obligations=tot[0], discharged=tot[0] - tot[1], undischarged=tot[1], queries=tot[2], solver_s=round(tot[3], 1),
                  disagreements_checked=tot[0], samples=samples, bounds='trees up to depth 3 with up to 5 elements per sum or minimum, coefficients up to 2^40, variables unbounded; and the trees generated for %d problems' % (len(jobs) - nb))
    ck.assumptions += ['the text is read with the precedence rules of C (Fortran) by vlib/codeparse.py; divisions printed with / and % truncate on both sides',
                       'loops and guards are compared one to one in textual order']
