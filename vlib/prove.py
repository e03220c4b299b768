"""Symbolic execution of generated loop nests and solver obligations.

The generated code's parameters, loop counters and statement arguments are
z3 integers (unbounded); every obligation quantifies over all of them."""
import time
import z3
from . import codeparse


class Unsupported(Exception):
    pass


class BadCode(Exception):
    """The generated code is structurally broken (undefined name etc.)."""


# ------------------------------------------------------------- expressions --

def zdiv_floor(a, d):
    return a / d            # z3 Int division: floor for d > 0


MOD_INEQ_FLOOR = False      # see tvrun.known_modulo


def ev(e, env):
    k = e[0]
    if k == 'n':
        return z3.IntVal(e[1])
    if k == 'v':
        if e[1] not in env:
            raise BadCode('use of variable %s that has no value here' % e[1])
        return env[e[1]]
    if k == 'neg':
        return -ev(e[1], env)
    a, b = ev(e[1], env), ev(e[2], env)
    if k == '+':
        return a + b
    if k == '-':
        return a - b
    if k == '*':
        return a * b
    if k == 'min':
        return z3.If(a < b, a, b)
    if k == 'max':
        return z3.If(a > b, a, b)
    d = const(e[2])
    if d is None:
        raise Unsupported('division by a non-constant')
    if d == 0:
        raise BadCode('division by zero')
    if k == 'floord':
        if d < 0:
            raise Unsupported('floord by negative')
        return a / d
    if k == 'ceild':
        if d < 0:
            raise Unsupported('ceild by negative')
        return -((-a) / d)
    ad = abs(d)
    q = z3.If(a >= 0, a / ad, -((-a) / ad))       # C truncation
    if d < 0:
        q = -q
    if k == '/':
        return q
    if k == '%':
        return a - d * q
    raise Unsupported(k)


def const(e):
    k = e[0]
    if k == 'n':
        return e[1]
    if k == 'neg':
        c = const(e[1])
        return None if c is None else -c
    if k in '+-*':
        a, b = const(e[1]), const(e[2])
        if a is None or b is None:
            return None
        return a + b if k == '+' else a - b if k == '-' else a * b
    return None


def floormod(e):
    if e[0] == '%':
        return ('-', e[1], ('*', e[2], ('floord', e[1], e[2])))
    return tuple(floormod(x) if isinstance(x, tuple) else x for x in e)


def evc(c, env):
    k = c[0]
    if k == '&&':
        return z3.And(evc(c[1], env), evc(c[2], env))
    if k == '||':
        return z3.Or(evc(c[1], env), evc(c[2], env))
    if k == '!':
        return z3.Not(evc(c[1], env))
    if MOD_INEQ_FLOOR and k in ('<=', '>='):
        c = (k, floormod(c[1]), floormod(c[2]))
    a, b = ev(c[1], env), ev(c[2], env)
    return {'<=': a <= b, '>=': a >= b, '==': a == b, '<': a < b, '>': a > b, '!=': a != b}[k]


# --- concrete twins, used for replay ---------------------------------------

def cev(e, env):
    k = e[0]
    if k == 'n':
        return e[1]
    if k == 'v':
        return env[e[1]]
    if k == 'neg':
        return -cev(e[1], env)
    a, b = cev(e[1], env), cev(e[2], env)
    if k == '+':
        return a + b
    if k == '-':
        return a - b
    if k == '*':
        return a * b
    if k == 'min':
        return min(a, b)
    if k == 'max':
        return max(a, b)
    if k == 'floord':
        return a // b
    if k == 'ceild':
        return -((-a) // b)
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q if k == '/' else a - b * q


def cevc(c, env):
    k = c[0]
    if k == '&&':
        return cevc(c[1], env) and cevc(c[2], env)
    if k == '||':
        return cevc(c[1], env) or cevc(c[2], env)
    if k == '!':
        return not cevc(c[1], env)
    a, b = cev(c[1], env), cev(c[2], env)
    return {'<=': a <= b, '>=': a >= b, '==': a == b, '<': a < b, '>': a > b, '!=': a != b}[k]


# -------------------------------------------------------------- occurrences --

class Occ:
    """One textual occurrence of a statement call."""
    __slots__ = ('stmt', 'name', 'args', 'path', 'order', 'idx', 'loops')

    def __init__(self, name, args, path, order, idx):
        self.name, self.args, self.path, self.order, self.idx = name, args, path, order, idx
        self.stmt = None
        self.loops = [it for it in path if it[0] == 'for']


def occurrences(ast, params):
    """List of Occ in textual order. path items:
    ('for', nodeid, var, lb, ub, stride) / ('if', cond) / ('asg', var, expr)"""
    out = []
    ctr = [0]

    def check(e, scope, what):
        if e is None:
            return
        if e[0] == 'v':
            if e[1] not in scope:
                raise BadCode('%s uses %s, which has no value here' % (what, e[1]))
            return
        if e[0] == '%' and what == 'guard':
            what = 'modulo guard'
        for s in e[1:]:
            if isinstance(s, tuple):
                check(s, scope, what)

    def walk(body, path, scope, loopvars):
        path = list(path)
        scope = set(scope)
        for st in body:
            ctr[0] += 1
            if st[0] == 'for':
                _, var, lb, ub, stride, b = st
                check(lb, scope, 'lower bound of ' + var)
                check(stride, scope, 'stride of ' + var)
                check(ub, scope | {var}, 'upper bound of ' + var)
                if var in loopvars or var in params:
                    raise BadCode('loop over %s clobbers a live variable' % var)
                walk(b, path + [('for', ctr[0], var, lb, ub, stride)], scope | {var},
                     loopvars | {var})
            elif st[0] == 'if':
                check(st[1], scope, 'guard')
                walk(st[2], path + [('if', st[1])], scope, loopvars)
            elif st[0] == 'block':
                walk(st[1], path, scope, loopvars)
            elif st[0] == 'asg':
                check(st[2], scope, 'assignment to ' + st[1])
                if st[1] in loopvars or st[1] in params:
                    raise BadCode('assignment to %s clobbers a live variable' % st[1])
                path.append(('asg', st[1], st[2]))
                scope.add(st[1])
            elif st[0] == 'call':
                for a in st[2]:
                    check(a, scope, 'call of ' + st[1])
                out.append(Occ(st[1], st[2], list(path), ctr[0], len(out)))
            else:
                raise Unsupported(st[0])
    walk(ast, [], set(params), frozenset())
    return out


def stmt_index(name, nst, names=None):
    if names and name in names:
        return names.index(name)
    if name[0] == 'S' and name[1:].isdigit():
        k = int(name[1:]) - 1
        if 0 <= k < nst:
            return k
    raise BadCode('call of unknown statement %s' % name)


# ---------------------------------------------------------------- obligations

class Model:
    """Solver view of a Problem."""
    fresh = 0

    def __init__(self, prob):
        self.p = prob
        self.par = [z3.Int('p!' + n) for n in prob.params]
        self.penv = dict(zip(prob.params, self.par))
        self.nst = len(prob.domains)
        self.fun = []           # per statement: functional scattering or None
        for k in range(self.nst):
            self.fun.append(self._functional(k))

    @classmethod
    def newvar(cls, base='t'):
        cls.fresh += 1
        return z3.Int('%s!%d' % (base, cls.fresh))

    def lin(self, row, dims, locs):
        vs = list(dims) + list(locs) + self.par
        eq, co = row
        t = z3.IntVal(co[-1])
        terms = [c * v for c, v in zip(co[:-1], vs) if c != 0]
        s = z3.Sum(terms + [z3.IntVal(co[-1])]) if terms else t
        return s == 0 if eq else s >= 0

    def conj(self, cj, dims, goal):
        nl, rows = cj
        nd = len(dims)
        for eq, co in rows:
            if len(co) != nd + nl + len(self.par) + 1:
                raise Unsupported('row width')
        if nl == 0:
            return z3.And([self.lin(r, dims, []) for r in rows]) if rows else z3.BoolVal(True)
        locs = [self.newvar('e') for _ in range(nl)]
        f = z3.And([self.lin(r, dims, locs) for r in rows])
        return z3.Exists(locs, f) if goal else f

    def rel(self, rel, dims, goal=False):
        """goal=False: used as a hypothesis (existentials become fresh)."""
        if not rel:
            return z3.BoolVal(False)
        return z3.Or([self.conj(c, dims, goal) for c in rel])

    def context(self, goal=False):
        if not self.p.context:
            return z3.BoolVal(True)
        return self.rel(self.p.context, [], goal)

    def _functional(self, k):
        """c as linear combinations of (x, params, 1), if given by equalities."""
        if self.p.scats is None:
            return []
        ns, rel = self.p.scats[k]
        nd = self.p.domains[k][0]
        if len(rel) != 1 or rel[0][0] != 0:
            return None
        rows = [co for eq, co in rel[0][1] if eq]
        if any(not eq and any(co[:ns]) for eq, co in rel[0][1]):
            pass        # inequalities on c are still implied/checked elsewhere
        sol = {}
        changed = True
        while changed and len(sol) < ns:
            changed = False
            for co in rows:
                un = [i for i in range(ns) if co[i] != 0 and i not in sol]
                if len(un) == 1 and abs(co[un[0]]) == 1:
                    i = un[0]
                    rest = [0] * (len(co) - ns)
                    for j in range(ns):
                        if j != i and co[j]:
                            for t in range(len(rest)):
                                rest[t] += co[j] * sol[j][t]
                    for t in range(len(rest)):
                        rest[t] += co[ns + t]
                    sol[i] = [-co[i] * r for r in rest]
                    changed = True
        if len(sol) < ns:
            return None
        return [sol[i] for i in range(ns)]

    def cvals(self, k, x):
        """Functional scattering values or None."""
        f = self.fun[k]
        if f is None:
            return None
        vs = list(x) + self.par
        return [z3.Sum([c * v for c, v in zip(co[:-1], vs) if c] + [z3.IntVal(co[-1])]) for co in f]

    def extended(self, k, c, x, goal=False):
        d = self.rel(self.p.domains[k][1], x, goal)
        if self.p.scats is None:
            return d
        return z3.And(d, self.rel(self.p.scats[k][1], list(c) + list(x), goal))

    def nscat(self, k):
        return 0 if self.p.scats is None else self.p.scats[k][0]

    # -- symbolic execution of one occurrence
    def execute(self, o, tag, bind=None):
        """Returns (path condition, args, {loopvar: value}, loop list).

        bind: values by variable name for the loop counters (otherwise fresh)."""
        env = dict(self.penv)
        cond, loops, lv = [], [], {}
        for it in o.path:
            if it[0] == 'for':
                _, nid, var, lb, ub, stride = it
                if bind is not None:
                    if var not in bind:
                        raise Unsupported('loop over unnamed dimension ' + var)
                    v = bind[var]
                else:
                    v = z3.Int('%s!%d!%s' % (var, nid, tag))
                s = const(stride)
                if s is None or s <= 0:
                    raise BadCode('stride %r' % (stride,))
                if lb is not None:
                    l = ev(lb, env)
                    cond.append(l <= v)
                    if s != 1:
                        cond.append((v - l) % s == 0)
                elif s != 1:
                    raise Unsupported('stride without lower bound')
                env[var] = v
                if ub is not None:
                    cond.append(v <= ev(ub, env))
                loops.append((nid, v))
                lv[var] = v
            elif it[0] == 'if':
                cond.append(evc(it[1], env))
            else:
                env[it[1]] = ev(it[2], env)
        args = [ev(a, env) for a in o.args]
        return z3.And(cond) if cond else z3.BoolVal(True), args, lv, loops


def lex_lt(a, b):
    """a < b lexicographically (on the common prefix)."""
    f = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        f = z3.Or(x < y, z3.And(x == y, f))
    return f


class Prover:
    def __init__(self, timeout_ms=10000):
        self.timeout = timeout_ms
        self.queries = 0
        self.solver_s = 0.0

    def refute(self, fs, timeout=None):
        """Is the conjunction satisfiable? 'unsat' / ('sat', model) / 'unknown'."""
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', None

    def small_model(self, fs, vars_, timeout=4000):
        """Prefer a model with small absolute values (for replay)."""
        for b in (3, 8, 20, 60, 200):
            st, m = self.refute(list(fs) + [z3.And(v >= -b, v <= b) for v in vars_], timeout)
            if st == 'sat':
                return m
        st, m = self.refute(fs, self.timeout)
        return m if st == 'sat' else None


def free_ints(fs):
    seen, out, todo = set(), [], list(fs)
    while todo:
        f = todo.pop()
        i = f.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(f) and f.decl().kind() == z3.Z3_OP_UNINTERPRETED and f.sort() == z3.IntSort():
            out.append(f)
        elif z3.is_quantifier(f):
            todo.append(f.body())
        else:
            todo.extend(f.children())
    return out
