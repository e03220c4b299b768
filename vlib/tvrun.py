"""Pool runner: (problem, options) cases through the real cloog and the solver."""
import os, time, hashlib, glob
from . import common, cloogfile, tv, prove

_G = {}


class Case:
    def __init__(self, name, prob, text=None, opts=(), lang=None, order='full',
                 kinds=('sound', 'complete', 'unique', 'order'), budget=20, timeout_ms=4000,
                 prepare=None, stmt_names=None, oracle=None):
        self.name, self.prob, self.text = name, prob, text
        self.opts, self.lang, self.order, self.kinds = list(opts), lang, order, kinds
        self.budget, self.timeout_ms = budget, timeout_ms
        self.prepare = prepare      # generated text -> body to validate
        self.stmt_names = stmt_names
        self.oracle = oracle        # Problem to validate against (default prob)

    @property
    def key(self):
        return self.name + (' ' + ' '.join(self.opts) if self.opts else '')


def run_case(idx):
    c = _G['cases'][idx]
    t0 = time.time()
    wd = os.path.join(_G['dir'], 'c%d' % idx)
    os.makedirs(wd, exist_ok=True)
    f = os.path.join(wd, 'in.cloog')
    prob = c.prob
    lang = c.lang or prob.language
    text = c.text
    if text is None:
        old = prob.language
        prob.language = lang
        text = cloogfile.dump(prob)
        prob.language = old
    open(f, 'w').write(text)
    out = {'idx': idx, 'obl': 0, 'dis': 0, 'unk': [], 'viol': [], 'q': 0, 'solver_s': 0.0, 'err': None,
           'occ': 0, 'inc': None}
    if time.time() > _G['deadline']:
        out['inc'] = 'not started (time budget)'
        return out
    cmd = [_G['exe'], f] + c.opts
    rc, so, se = common.run(cmd, timeout=min(20, c.budget))
    if rc is None:
        out['inc'] = 'generator timeout'
        return out
    if rc != 0 and lang == 'f' and 'unbounded loops not allowed in FORTRAN' in se and tv.unbounded(prob):
        out['inc'] = 'unbounded domain, refused in Fortran'
        return out
    if rc != 0:
        rc2, so2, se2 = common.run(cmd, timeout=20)
        if rc2 not in (None, 0):
            out['viol'].append(('crash', 'cloog ends with status %d on a valid input (%s)' % (rc2, se2.strip()[-200:]),
                                {}, text, so2))
        else:
            out['inc'] = 'status %s once' % rc
        return out
    body = so
    if c.prepare:
        try:
            body = c.prepare(so)
        except Exception as e:
            out['viol'].append(('malformed', 'generated program: %s' % e, {}, text, so))
            return out
    oracle = c.oracle or prob
    budget = min(c.budget, max(1, _G['deadline'] - time.time()))
    r = tv.validate(oracle, body, lang, kinds=c.kinds, timeout_ms=c.timeout_ms, budget_s=budget,
                    case=c.key, order_dims=c.order, stmt_names=c.stmt_names, max_pairs=_G['max_pairs'])
    out.update(obl=r.obligations, dis=r.discharged, unk=r.unknown[:3], q=r.queries,
               solver_s=r.solver_s, err=r.error, occ=r.occurrences, nunk=len(r.unknown))
    for v in r.violations[:4]:
        try:
            ok, why = tv.confirm(oracle, body, lang, v, wd, stmt_names=c.stmt_names)
        except Exception as e:
            ok, why = False, 'replay failed: %r' % e
        if ok:
            kind = v['kind']
            tag = ''
            if kind not in ('malformed', 'terminates') and known_modulo(oracle, body, lang, c, kind, v):
                tag = 'modulo-inequality-guard-negative'
            elif kind == 'order' and known_crossing(oracle, v, body, lang, c.stmt_names):
                tag = 'crossing-without-common-point'
            elif kind == 'order' and known_cycle(oracle, v, body, lang, c.stmt_names):
                tag = 'cyclic-precedence'
            elif kind == 'malformed' and known_nested(oracle, v):
                tag = 'modulo-guard-on-nested-division'
            out['viol'].append((kind, '%s; params %s; replay: %s' % (v.get('msg'), v.get('params'), why),
                                {'tag': tag}, text, so))
        else:
            out['unk'].append('counterexample not reproduced: %s %s' % (v.get('msg'), why))
    out['t'] = time.time() - t0
    return out


def executed(prob, body, lang, c, v):
    """Are the occurrences of counterexample v executed at its points?"""
    import z3
    pts = [(v[o], v[p]) for o, p in (('occ', 'point'), ('occ1', 'point'), ('occ2', 'point2')) if o in v and p in v]
    if not pts:
        return True
    M = prove.Model(prob)
    ast, occ = tv.prepare(prob, body, lang, c.stmt_names)
    pr = prove.Prover(4000)
    for k, (o, pt) in enumerate(pts):
        cond, args, lv, loops = M.execute(occ[o], 'x%d' % k)
        fs = [cond] + [a == b for a, b in zip(args, pt)]
        fs += [M.penv[n] == v['params'][n] for n in prob.params]
        if pr.refute(fs)[0] == 'unsat':
            return False
    return True


def known_modulo(prob, body, lang, c, kind, v=None):
    """Does the violation vanish when '%' inside an inequality guard is read as
    the non-negative remainder?  (identifies the known finding KF1 exactly)"""
    if '%' not in body and 'MOD(' not in body:
        return False
    prove.MOD_INEQ_FLOOR = True
    try:
        r = tv.validate(prob, body, lang, kinds=(kind,), timeout_ms=c.timeout_ms, budget_s=20,
                        order_dims=c.order, stmt_names=c.stmt_names)
        if not r.violations and not r.error:
            return True
        return v is not None and not executed(prob, body, lang, c, v)
    finally:
        prove.MOD_INEQ_FLOOR = False


def known_nested(prob, v):
    """Known finding: a modulo guard over a nested integer division prints the
    name of an inner dimension in the place of the inner division."""
    import re
    m = re.match(r'modulo guard uses (\w+), which has no value here', v.get('msg') or '')
    locs = any(nl for _, rel in list(prob.domains) + list(prob.scats or []) for nl, _ in rel)
    return bool(m) and locs and m.group(1) not in prob.params


def known_cycle(prob, v, body, lang, stmt_names=None):
    """Known finding: the dates of the two statements are part of a cycle of
    precedences (each pair of it ordered the same way wherever both exist, at
    equal outer dates), so no textual order of their loops can be right."""
    import z3
    if v['stmt'] == v['stmt2']:
        return False
    d = 0
    while d < min(len(v['time1']), len(v['time2'])) and v['time1'][d] == v['time2'][d]:
        d += 1
    if d >= min(len(v['time1']), len(v['time2'])):
        return False
    M = prove.Model(prob)
    pr = prove.Prover(5000)
    n = len(prob.domains)

    def date(k, b):
        x = [z3.Int('%s%d!' % (b, i)) for i in range(prob.domains[k][0])]
        c = M.cvals(k, x)
        if c is None:
            c = [M.newvar('c') for _ in range(M.nscat(k))]
        return M.extended(k, c, x), list(c) + x
    before = {}
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            fa, ta = date(a, 'u')
            fb, tb = date(b, 'w')
            if min(len(ta), len(tb)) <= d:
                continue
            fs = [M.context(), fa, fb] + [ta[i] == tb[i] for i in range(d)]
            if pr.refute(fs + [ta[d] < tb[d]])[0] == 'sat' and pr.refute(fs + [ta[d] >= tb[d]])[0] == 'unsat':
                before.setdefault(a, set()).add(b)
    a, b = (v['stmt'], v['stmt2']) if v['time1'] < v['time2'] else (v['stmt2'], v['stmt'])
    if b in before.get(a, ()) and reaches(before, b, a):
        return True
    return cycle_of_parts(prob, v, body, lang, stmt_names, M, pr, d)


def reaches(edges, src, dst, direct=True):
    seen, todo = set(), [src]
    while todo:
        k = todo.pop()
        for m in edges.get(k, ()):
            if m == dst and (direct or k != src):
                return True
            if m not in seen and m != dst:
                seen.add(m)
                todo.append(m)
    return False


def cycle_of_parts(prob, v, body, lang, stmt_names, M, pr, d):
    """The same on the parts that separation made of the statements: a cycle of
    three or more parts of which no two neighbours ever share a date (so they
    cannot be one loop) and each has to precede the next somewhere."""
    import z3
    ast, occ = tv.prepare(prob, body, lang, stmt_names)
    if len(occ) > 12:
        return False
    T = {}
    for i, o in enumerate(occ):
        for b in ('u', 'w'):
            cond, args, lv, loops = M.execute(o, b)
            c = M.cvals(o.stmt, args)
            if c is None:
                c = [M.newvar('c') for _ in range(M.nscat(o.stmt))]
                cond = z3.And(cond, M.extended(o.stmt, c, args))
            T[i, b] = cond, list(c) + args
    before = {}
    for a in range(len(occ)):
        for b in range(len(occ)):
            (fa, ta), (fb, tb) = T[a, 'u'], T[b, 'w']
            if a == b or min(len(ta), len(tb)) <= d:
                continue
            fs = [M.context(), fa, fb] + [ta[i] == tb[i] for i in range(d)]
            if pr.refute(fs + [ta[d] < tb[d]])[0] == 'sat' and pr.refute(fs + [ta[d] == tb[d]])[0] == 'unsat':
                before.setdefault(a, set()).add(b)
    a, b = (v['occ1'], v['occ2']) if v['time1'] < v['time2'] else (v['occ2'], v['occ1'])
    return b in before.get(a, ()) and reaches(before, b, a, direct=False)


def known_crossing(prob, v, body, lang, stmt_names=None):
    """Known finding KF2, recognised on the problem alone: at the first
    dimension where the two dates differ, the dates of the two statements
    change sides as the outer dimensions/parameters vary but have no integer
    value in common, so no textual order of two loops can be right."""
    import z3
    M = prove.Model(prob)
    k1, k2 = v['stmt'], v['stmt2']
    d = 0
    while d < min(len(v['time1']), len(v['time2'])) and v['time1'][d] == v['time2'][d]:
        d += 1
    if d >= min(len(v['time1']), len(v['time2'])):
        return False
    pr = prove.Prover(5000)

    def crosses(fs, T):
        fs = fs + [T[0][i] == T[1][i] for i in range(d)]
        a, b = T[0][d], T[1][d]
        return (pr.refute(fs + [a == b])[0] == 'unsat' and pr.refute(fs + [a < b])[0] == 'sat'
                and pr.refute(fs + [a > b])[0] == 'sat')
    fs, T = [M.context()], []
    for k, b in ((k1, 'u'), (k2, 'w')):
        x = [z3.Int('%s%d!' % (b, i)) for i in range(prob.domains[k][0])]
        c = M.cvals(k, x)
        if c is None:
            c = [M.newvar('c') for _ in range(M.nscat(k))]
        fs.append(M.extended(k, c, x))
        T.append(list(c) + x)
    if k1 != k2 and crosses(fs, T):
        return True
    # the same on the parts that separation made of the two statements
    ast, occ = tv.prepare(prob, body, lang, stmt_names)
    fs, T, L = [M.context()], [], []
    for o, b in ((occ[v['occ1']], 'u'), (occ[v['occ2']], 'w')):
        cond, args, lv, loops = M.execute(o, b)
        c = M.cvals(o.stmt, args)
        if c is None:
            c = [M.newvar('c') for _ in range(M.nscat(o.stmt))]
            cond = z3.And(cond, M.extended(o.stmt, c, args))
        fs.append(cond)
        T.append(list(c) + args)
        L.append(loops)
    n = 0
    for (n1, v1), (n2, v2) in zip(*L):
        if n1 != n2:
            break
        fs.append(v1 == v2)
        n += 1
    return n > 0 and crosses(fs, T)


def run_cases(ck, cases, deadline_s, max_pairs=600, procs=None, exe=None):
    """Runs all cases; records violations in ck; returns aggregate dict."""
    exe = exe or common.build_cloog()
    _G.update(cases=cases, exe=exe, dir=common.scratch() + '/tv', deadline=ck.t0 + deadline_s,
              max_pairs=max_pairs)
    os.makedirs(_G['dir'], exist_ok=True)
    agg = {'programs': 0, 'obligations': 0, 'discharged': 0, 'undischarged': 0, 'queries': 0,
           'solver_s': 0.0, 'fully_discharged_programs': 0, 'statement_occurrences': 0}
    samples = []
    lim = 60 if ck.tier == 'quick' else 400
    for idx, o in common.pimap(run_case, range(len(cases)), lim, ck.t0 + deadline_s + lim, procs):
        c = cases[idx]
        if o is None:
            ck.note_inconclusive('%s: stopped after %d s' % (c.key, lim))
            continue
        if o['inc']:
            ck.note_inconclusive('%s: %s' % (c.key, o['inc']))
            continue
        if o['err']:
            ck.note_inconclusive('%s: %s' % (c.key, o['err']))
            continue
        agg['programs'] += 1
        agg['obligations'] += o['obl']
        agg['discharged'] += o['dis']
        agg['queries'] += o['q']
        agg['solver_s'] += o['solver_s']
        agg['statement_occurrences'] += o['occ']
        if o['unk']:
            agg['undischarged'] += o.get('nunk', len(o['unk']))
            ck.note_inconclusive('%s: %s' % (c.key, '; '.join(o['unk'])[:200]))
        elif not o['viol']:
            agg['fully_discharged_programs'] += 1
        if len(samples) < 4 and o['obl'] > 2:
            samples.append({'case': c.key, 'obligations': o['obl'], 'discharged': o['dis'],
                            'solver_s': round(o['solver_s'], 3)})
        for kind, msg, ex, text, gen in o['viol']:
            key = ex.get('tag') or '%s [%s]' % (c.key, kind)
            ck.violation(key, '%s: %s' % (kind, msg),
                         {'command': 'cloog in.cloog ' + ' '.join(c.opts), 'in.cloog': text, 'generated': gen})
    agg['solver_s'] = round(agg['solver_s'], 2)
    for k, v in agg.items():
        ck.cov[k] = ck.cov.get(k, 0) + v
    ck.cov['disagreements_checked'] = ck.cov.get('obligations', 0)
    ck.cov.setdefault('samples', [])
    ck.cov['samples'] += samples
    return agg


SKIP = ('published/CC2006/classen2.cloog',      # iterator and parameter share the name m
        'urgent/scop7.cloog', 'yosr_sync.cloog')
HEAVY = ('usvd_e_t', 'faber', 'swim', 'test2.N', 'test3.N', 'scop7', 'matmul.B', 'applu', 'cholesky2',
         'challenges/', 'sor1d', 'classen', 'vivien', 'emploi', 'multi-')


def repo_problems(heavy=False):
    out = []
    for f in sorted(glob.glob(common.REPO + '/test/**/*.cloog', recursive=True)):
        rel = os.path.relpath(f, common.REPO + '/test')
        if any(s in rel for s in SKIP):
            continue
        if not heavy and any(s in rel for s in HEAVY):
            continue
        text = open(f, errors='replace').read()
        try:
            p = cloogfile.parse(text, rel)
        except Exception:
            continue
        out.append((rel, p, text))
    return out
