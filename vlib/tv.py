"""Per-case validation of generated code by solver obligations + replay."""
import os, time, subprocess, tempfile, re
import z3
from . import codeparse, cloogfile, prove
from .prove import Model, Prover, BadCode, Unsupported, lex_lt, free_ints


class Result:
    def __init__(self, case):
        self.case = case
        self.obligations = 0
        self.discharged = 0
        self.unknown = []
        self.violations = []
        self.queries = 0
        self.solver_s = 0.0
        self.error = None
        self.occurrences = 0
        self.loops = 0


def parse_code(text, language):
    return codeparse.parse_fortran(text) if language == 'f' else codeparse.parse_c(text)


def prepare(prob, text, language, stmt_names=None):
    ast = parse_code(text, language)
    occ = prove.occurrences(ast, prob.params)
    for o in occ:
        o.stmt = prove.stmt_index(o.name, len(prob.domains), stmt_names)
        if len(o.args) != prob.domains[o.stmt][0]:
            raise BadCode('%s called with %d arguments, its domain has %d dimensions'
                          % (o.name, len(o.args), prob.domains[o.stmt][0]))
    return ast, occ


def bindings(prob, k, c, x):
    b = {}
    for n, v in zip(prob.iters, x):
        b[n] = v
    for n, v in zip(prob.scatnames, c):
        if n in b:
            raise Unsupported('ambiguous name ' + n)
        b[n] = v
    return b


def unbounded(prob):
    """Has some domain an unbounded direction (for some parameter value)?"""
    M = Model(prob)
    pr = Prover(3000)
    for k, (nd, _) in enumerate(prob.domains):
        x = [z3.Int('x%d!' % i) for i in range(nd)]
        c = M.cvals(k, x)
        if c is None:
            c = [z3.Int('c%d!' % i) for i in range(M.nscat(k))]
        f = [M.context(), M.extended(k, c, x)] + [z3.And(v >= -100, v <= 100) for v in M.penv.values()]
        for v in x + list(c):
            if pr.refute(f + [z3.Or(v > 10**7, v < -10**7)])[0] != 'unsat':
                return True
    return False


def validate(prob, text, language='c', kinds=('sound', 'complete', 'unique', 'order'),
             timeout_ms=8000, budget_s=60, case='', max_pairs=4000, order_dims='full',
             stmt_names=None, extra_hyp=None):
    r = Result(case)
    t0 = time.time()
    pr = Prover(timeout_ms)
    try:
        ast, occ = prepare(prob, text, language, stmt_names)
    except (BadCode, codeparse.ParseError) as e:
        r.violations.append({'kind': 'malformed', 'msg': str(e), 'params': None})
        return r
    except Unsupported as e:
        r.error = 'unsupported: ' + str(e)
        return r
    r.occurrences = len(occ)
    M = Model(prob)
    ctx = [M.context()]
    if extra_hyp:
        ctx.append(extra_hyp(M))

    def out_of_time():
        return time.time() - t0 > budget_s

    def oblige(name, fs, describe, refine=None):
        r.obligations += 1
        if out_of_time():
            r.unknown.append(name + ' (budget)')
            return
        st, m = pr.refute(fs)
        if st == 'sat' and refine:
            fs = fs + refine()
            st, m = pr.refute(fs)
        if st == 'unsat':
            r.discharged += 1
        elif st == 'unknown':
            r.unknown.append(name)
        else:
            m2 = pr.small_model(fs, free_ints(fs)) or m
            d = describe(m2)
            d['kind'] = name
            d['params'] = {n: m2.eval(v, model_completion=True).as_long()
                           for n, v in M.penv.items()}
            r.violations.append(d)

    def val(m, t):
        return m.eval(t, model_completion=True).as_long()

    try:
        if 'sound' in kinds:
            for o in occ:
                k = o.stmt
                cond, args, lv, _ = M.execute(o, 'a')
                ns = M.nscat(k)
                c = M.cvals(k, args)
                goal = []
                names = dict(zip(prob.iters, args))
                qv = []
                if c is None:
                    c = []
                    for i in range(ns):
                        n = prob.scatnames[i]
                        if n in lv:
                            c.append(lv[n])
                        else:
                            v = M.newvar('c')
                            c.append(v)
                            qv.append(v)
                    g = M.extended(k, c, args, goal=True)
                else:
                    g = M.extended(k, c, args, goal=True)
                    for i in range(ns):
                        n = prob.scatnames[i]
                        if n in lv:
                            goal.append(lv[n] == c[i])
                for n, v in lv.items():
                    if n in names and n not in prob.scatnames:
                        goal.append(v == names[n])
                if qv:
                    g = z3.Exists(qv, g)
                goal.append(g)
                oblige('sound', ctx + [cond, z3.Not(z3.And(goal))],
                       lambda m, o=o, args=args, k=k, lv=lv: {
                           'msg': '%s occurrence %d is executed outside its domain/schedule' % (o.name, o.idx),
                           'stmt': k, 'point': [val(m, a) for a in args],
                           'loops': {n: val(m, v) for n, v in lv.items()}, 'occ': o.idx})
        if 'complete' in kinds:
            # a loop printed without one of its bounds must be over a set
            # that really is unbounded on that side
            nodes = {}
            for o in occ:
                for q, it in enumerate(o.path):
                    if it[0] == 'for' and (it[3] is None or it[4] is None):
                        nodes.setdefault(it[1], (o, q, []))[2].append(o)
            if nodes and unbounded(prob):
                nodes = {}      # an infinite nest by definition
            for nid, (o0, q, under) in nodes.items():
                for side in (3, 4):
                    if o0.path[q][side] is not None:
                        continue
                    r.obligations += 1
                    if out_of_time():
                        r.unknown.append('bounded (budget)')
                        continue
                    head = prove.Occ(o0.name, [], o0.path[:q + 1], nid, -1)
                    cond, _, lv, loops = M.execute(head, 'h')
                    st, m = pr.refute(ctx + [cond])
                    if st != 'sat':
                        if st == 'unsat':
                            r.discharged += 1
                        else:
                            r.unknown.append('bounded')
                        continue
                    fix = [v == m.eval(v, model_completion=True) for v in M.penv.values()]
                    outer = [(n, m.eval(v, model_completion=True)) for n, v in loops[:-1]]
                    far = 'unsat'
                    for o in under:
                        c2, _, _, l2 = M.execute(o, 'f')
                        d2 = dict(l2)
                        v = d2[nid]
                        st, _ = pr.refute(ctx + fix + [d2[n] == x for n, x in outer] +
                                          [c2, v >= 1000000 if side == 4 else v <= -1000000])
                        if st != 'unsat':
                            far = st
                            break
                    if far == 'sat':
                        r.discharged += 1
                    elif far == 'unknown':
                        r.unknown.append('bounded')
                    else:
                        r.violations.append({
                            'kind': 'terminates', 'msg': 'loop over %s has no %s bound although its iterations are bounded'
                            % (o0.path[q][2], 'lower' if side == 3 else 'upper'), 'side': side,
                            'params': {n: val(m, v) for n, v in M.penv.items()}})
            for k in range(M.nst):
                nd = prob.domains[k][0]
                ns = M.nscat(k)
                x = [z3.Int('x%d!' % i) for i in range(nd)]
                c = M.cvals(k, x)
                if c is None:
                    c = [z3.Int('c%d!' % i) for i in range(ns)]
                hyp = ctx + [M.extended(k, c, x)]
                b = bindings(prob, k, c, x)
                alts = []
                for o in occ:
                    if o.stmt != k:
                        continue
                    cond, args, lv, _ = M.execute(o, 'b', bind=b)
                    alts.append(z3.And(cond, *[a == xx for a, xx in zip(args, x)]))
                neg = [z3.Not(a) for a in alts]
                oblige('complete', hyp + neg,
                       lambda m, k=k, x=x, c=c: {
                           'msg': 'a point of the domain of S%d is never executed' % (k + 1),
                           'stmt': k, 'point': [val(m, v) for v in x],
                           'sched': [val(m, v) for v in c]})
        if 'unique' in kinds:
            np_ = 0
            for i, o1 in enumerate(occ):
                for o2 in occ[i + 1:]:
                    if o1.stmt != o2.stmt:
                        continue
                    np_ += 1
                    if np_ > max_pairs:
                        r.obligations += 1
                        r.unknown.append('unique (pair cap)')
                        continue
                    k = o1.stmt
                    c1, a1, l1, _ = M.execute(o1, 'a')
                    c2, a2, l2, _ = M.execute(o2, 'b')
                    fs = ctx + [c1, c2] + [p == q for p, q in zip(a1, a2)]
                    if M.fun[k] is None:
                        cc = [M.newvar('c') for _ in range(M.nscat(k))]
                        fs.append(M.extended(k, cc, a1))
                        for n, v in zip(prob.scatnames, cc):
                            for l in (l1, l2):
                                if n in l:
                                    fs.append(l[n] == v)
                    oblige('unique', fs, lambda m, k=k, a1=a1, o1=o1, o2=o2: {
                        'msg': 'S%d executed twice for the same point (occurrences %d and %d)' % (k + 1, o1.idx, o2.idx),
                        'stmt': k, 'point': [val(m, v) for v in a1]})
        if 'order' in kinds:
            np_ = 0
            cache = {}
            mindepth = min([d for d, _ in prob.domains] or [0])
            mixed = any(d != mindepth for d, _ in prob.domains)

            def ex(o, tag):
                if (o.idx, tag) not in cache:
                    k = o.stmt
                    cond, args, lv, loops = M.execute(o, tag)
                    fs = [cond]
                    c = M.cvals(k, args)
                    if c is None:
                        c = [M.newvar('c') for _ in range(M.nscat(k))]
                        fs.append(M.extended(k, c, args))
                        for n, v in zip(prob.scatnames, c):
                            if n in lv:
                                fs.append(lv[n] == v)
                    cache[(o.idx, tag)] = (fs, args, c, loops)
                return cache[(o.idx, tag)]
            for o1 in occ:
                for o2 in occ:
                    f1, a1, c1, lp1 = ex(o1, 'a')
                    f2, a2, c2, lp2 = ex(o2, 'b')
                    if order_dims == 'full':
                        # same statement: all dimensions; different statements:
                        # the dimensions every statement has
                        T1, T2 = list(c1) + list(a1), list(c2) + list(a2)
                        if o1.stmt != o2.stmt and mixed:
                            n = 0 if M.nscat(0) else mindepth
                            T1, T2 = list(c1) + list(a1)[:n], list(c2) + list(a2)[:n]
                    else:
                        T1, T2 = list(c1), list(c2)
                    if not T1 or not T2:
                        continue
                    com = []
                    for (n1, v1), (n2, v2) in zip(lp1, lp2):
                        if n1 != n2:
                            break
                        com.append((v1, v2))
                    v1 = [p for p, _ in com]
                    v2 = [q for _, q in com]
                    before = lex_lt(v1, v2)
                    if o1.idx < o2.idx:
                        before = z3.Or(before, z3.And([p == q for p, q in com]) if com else z3.BoolVal(True))
                    elif not com:
                        continue
                    np_ += 1
                    if np_ > max_pairs:
                        r.obligations += 1
                        r.unknown.append('order (pair cap)')
                        continue
                    fs = ctx + f1 + f2 + [before, lex_lt(T2, T1)]
                    # only points of the domains have a date
                    oblige('order', fs,
                           lambda m, o1=o1, o2=o2, a1=a1, a2=a2, T1=T1, T2=T2: {
                               'msg': 'instances run against their lexicographic schedule order',
                               'stmt': o1.stmt, 'point': [val(m, v) for v in a1],
                               'occ1': o1.idx, 'occ2': o2.idx,
                               'stmt2': o2.stmt, 'point2': [val(m, v) for v in a2],
                               'time1': [val(m, v) for v in T1], 'time2': [val(m, v) for v in T2]},
                           lambda o1=o1, o2=o2, a1=a1, a2=a2, c1=c1, c2=c2: [
                               M.extended(o1.stmt, c1, a1), M.extended(o2.stmt, c2, a2)])
    except Unsupported as e:
        r.error = 'unsupported: ' + str(e)
    except BadCode as e:
        r.violations.append({'kind': 'malformed', 'msg': str(e), 'params': None})
    r.queries, r.solver_s = pr.queries, pr.solver_s
    return r


# ------------------------------------------------------------------- replay --

MACROS = '''#include <stdio.h>
#include <stdlib.h>
static long floord(long n,long d){long q=n/d; if (n%d!=0 && ((n<0)!=(d<0))) q--; return q;}
static long ceild(long n,long d){return -floord(-n,d);}
#define max(x,y) ((x) > (y) ? (x) : (y))
#define min(x,y) ((x) < (y) ? (x) : (y))
static long ntr;
#define TR if (++ntr > 2000000) exit(7)
'''


def run_code(prob, text, params, wd, timeout=20, stmt_names=None):
    """Compile the generated C text and run it; trace [(stmt, point)] or None."""
    os.makedirs(wd, exist_ok=True)
    src = [MACROS]
    for k, (nd, _) in enumerate(prob.domains):
        n = stmt_names[k] if stmt_names else 'S%d' % (k + 1)
        a = ['a%d' % i for i in range(nd)]
        src.append('#define %s%s do { TR; printf("%d%s\\n"%s); } while (0)' % (
            n, '(' + ','.join(a) + ')', k, ' %ld' * nd, ''.join(',(long)(%s)' % v for v in a)))
    src.append('int main(void){')
    for n, v in params.items():
        src.append('  long %s = %dL;' % (n, v))
    vs = [v for v in list(prob.scatnames) + list(prob.iters) if v not in params]
    for v in dict.fromkeys(vs):
        src.append('  long %s;' % v)
    src.append(text)
    src.append('return 0; }')
    f = os.path.join(wd, 'replay.c')
    open(f, 'w').write('\n'.join(src))
    exe = os.path.join(wd, 'replay')
    p = subprocess.run(['gcc', '-w', '-O0', '-o', exe, f], capture_output=True, text=True)
    if p.returncode != 0:
        return 'compile', p.stderr
    try:
        p = subprocess.run([exe], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout', None
    if p.returncode != 0:
        return 'fail', p.returncode
    tr = []
    for l in p.stdout.split('\n'):
        if l:
            w = [int(z) for z in l.split()]
            tr.append((w[0], tuple(w[1:])))
    return 'ok', tr


def contains(rel, dims, pars):
    """Concrete membership (locals decided by the solver)."""
    for nl, rows in rel:
        if nl == 0:
            if all((lambda s: s == 0 if eq else s >= 0)(
                    sum(a * b for a, b in zip(co, list(dims) + list(pars) + [1]))) for eq, co in rows):
                return True
        else:
            s = z3.Solver()
            ls = [z3.Int('l%d' % i) for i in range(nl)]
            for eq, co in rows:
                t = sum(a * b for a, b in zip(co, list(dims) + ls + list(pars) + [1]))
                s.add(t == 0 if eq else t >= 0)
            if s.check() == z3.sat:
                return True
    return False


def confirm(prob, text, language, v, wd, stmt_names=None):
    """Replay a solver counterexample on the generated program itself.
    Returns (confirmed?, explanation)."""
    if v['kind'] == 'malformed':
        if language == 'c':
            st, tr = run_code(prob, text, {n: 4 for n in prob.params}, wd, stmt_names=stmt_names)
            return True, 'parser: %s; compiling/running the output: %s' % (v['msg'], st)
        return True, v['msg']
    if v['kind'] == 'terminates':
        if language == 'c' and v['side'] == 4:
            st, tr = run_code(prob, text, v['params'], wd, timeout=5, stmt_names=stmt_names)
            return st in ('timeout', 'fail'), 'running the output: ' + st
        return True, v['msg']
    if language != 'c':
        return path_confirm(prob, text, language, v, stmt_names)
    st, tr = run_code(prob, text, v['params'], wd, stmt_names=stmt_names)
    if st != 'ok':
        ok, why = path_confirm(prob, text, language, v, stmt_names)
        return ok, 'run: %s; %s' % (st, why)
    pars = [v['params'][n] for n in prob.params]
    pt = (v['stmt'], tuple(v['point']))
    if v['kind'] == 'complete':
        inn = contains(prob.domains[v['stmt']][1], v['point'], pars)
        return inn and pt not in tr, 'trace of %d instances, S%d%s in domain=%s, executed %d times' % (
            len(tr), pt[0] + 1, pt[1], inn, tr.count(pt))
    if v['kind'] == 'unique':
        return tr.count(pt) > 1, 'S%d%s executed %d times' % (pt[0] + 1, pt[1], tr.count(pt))
    if v['kind'] == 'sound':
        inn = contains(prob.domains[v['stmt']][1], v['point'], pars)
        if pt in tr and not inn:
            return True, 'S%d%s executed, not in domain' % (pt[0] + 1, pt[1])
        return path_confirm(prob, text, language, v, stmt_names)
    if v['kind'] == 'order':
        q = (v['stmt2'], tuple(v['point2']))
        if pt in tr and q in tr:
            i, j = tr.index(pt), tr.index(q)
            j = len(tr) - 1 - tr[::-1].index(q)
            return i < j, 'S%d%s at position %d, S%d%s at position %d; schedule %s vs %s' % (
                pt[0] + 1, pt[1], i, q[0] + 1, q[1], j, v['time1'], v['time2'])
        return False, 'instances not in trace'
    return False, '?'


def path_confirm(prob, text, language, v, stmt_names=None):
    """Concrete evaluation of the generated AST at the counterexample, where
    running the whole nest is not possible (Fortran, huge trip counts)."""
    ast, occ = prepare(prob, text, language, stmt_names)
    par = dict(v['params'])
    pars = [par[n] for n in prob.params]

    def execs(o, loops):
        env = dict(par)
        for it in o.path:
            if it[0] == 'for':
                _, nid, var, lb, ub, stride = it
                if var not in loops:
                    return None
                x = loops[var]
                s = prove.const(stride)
                if lb is not None:
                    l = prove.cev(lb, env)
                    if x < l or (x - l) % s:
                        return None
                env[var] = x
                if ub is not None and x > prove.cev(ub, env):
                    return None
            elif it[0] == 'if':
                if not prove.cevc(it[1], env):
                    return None
            else:
                env[it[1]] = prove.cev(it[2], env)
        return [prove.cev(a, env) for a in o.args]
    k = v.get('stmt')
    if v['kind'] == 'sound':
        o = occ[v['occ']]
        a = execs(o, v['loops'])
        if a is None:
            return False, 'path not executed'
        inn = contains(prob.domains[k][1], a, pars)
        if not inn:
            return True, '%s%s executed outside its domain' % (o.name, a)
        if prob.scats is not None:
            # schedule mismatch: no c agreeing with the loop counters
            ns, rel = prob.scats[k]
            cs = [z3.Int('c%d' % i) for i in range(ns)]
            M = Model(prob)
            s = z3.Solver()
            s.add([p == q for p, q in zip(M.par, pars)])
            s.add(M.rel(rel, cs + [z3.IntVal(t) for t in a]))
            for n, c in zip(prob.scatnames, cs):
                if n in v['loops']:
                    s.add(c == v['loops'][n])
            if s.check() == z3.unsat:
                return True, '%s%s executed at loop position %s, not a scheduled date' % (o.name, a, v['loops'])
        for n, x in zip(prob.iters, a):
            if n in v['loops'] and v['loops'][n] != x and n not in prob.scatnames:
                return True, '%s%s executed with counter %s=%d' % (o.name, a, n, v['loops'][n])
        return False, 'not reproduced'
    if v['kind'] == 'complete':
        if not contains(prob.domains[k][1], v['point'], pars):
            return False, 'not in domain'
        b = dict(zip(prob.iters, v['point']))
        b.update(zip(prob.scatnames, v['sched']))
        for o in occ:
            if o.stmt == k and execs(o, b) == v['point']:
                return False, 'executed'
        return True, 'S%d%s is in the domain; no occurrence executes it' % (k + 1, v['point'])
    return True, 'evaluated symbolically only'
